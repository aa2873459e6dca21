"""Build the C++ extension of /repo's current tree together with stand-ins for the GPU libraries."""
import atexit
import os
import shutil
import subprocess
import sysconfig
import tempfile
from vlib.core import REPO, VERIF


def site_packages():
    import torch
    return os.path.dirname(os.path.dirname(torch.__file__))


def flags():
    s = site_packages()
    return ["-std=c++20", "-fPIC", "-Icsrc", "-Icsrc/linalg", "-Icsrc/evolution", "-isystem", f"{s}/cutensor/include", "-isystem", f"{s}/nvidia/cu13/include",
            "-isystem", f"{s}/torch/include", "-isystem", f"{s}/torch/include/torch/csrc/api/include", "-isystem", sysconfig.get_paths()["include"],
            "-DTORCH_EXTENSION_NAME=_C_cutensor", "-DTORCH_API_INCLUDE_EXTENSION_H"]


SANITIZE = ["-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize=vptr", "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer"]


def sources():
    out = []
    for d, _, files in os.walk(os.path.join(REPO, "csrc")):
        out += [os.path.relpath(os.path.join(d, f), REPO) for f in files if f.endswith(".cpp")]
    return sorted(out)


def build():
    """path of the sanitized extension, in a folder that disappears with this process"""
    out = tempfile.mkdtemp(prefix="verif-c20-")
    pid = os.getpid()
    atexit.register(lambda: os.getpid() == pid and shutil.rmtree(out, ignore_errors=True))
    jobs, objs = [], []
    for i, src in enumerate(sources() + [os.path.join(VERIF, "native", "standin.cpp")]):
        obj = os.path.join(out, f"{i}.o")
        objs.append(obj)
        jobs.append((src, subprocess.Popen(["g++", *flags(), *SANITIZE, "-c", src, "-o", obj], cwd=REPO, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
    for src, p in jobs:
        text, _ = p.communicate(timeout=800)
        if p.returncode:
            raise RuntimeError(f"compiling {src} failed: {text[-3000:]}")
    s = site_packages()
    so = os.path.join(out, "_C_cutensor.so")
    cmd = ["g++", "-shared", *SANITIZE, "-o", so, *objs, f"-L{s}/torch/lib", "-lc10", "-lc10_cuda", "-ltorch", "-ltorch_cpu", "-ltorch_cuda", "-ltorch_python",
           f"-L{s}/cutensor/lib", "-l:libcutensor.so.2", f"-L{s}/nvidia/cu13/lib", "-l:libcusolver.so.12", "-l:libcudart.so.13",
           "-Wl,-Bsymbolic", f"-Wl,-rpath,{s}/torch/lib:{s}/cutensor/lib:{s}/nvidia/cu13/lib"]
    p = subprocess.run(cmd, cwd=REPO, capture_output=True, text=True)
    if p.returncode:
        raise RuntimeError(f"linking the extension failed: {p.stderr[-3000:]}")
    for o in objs:
        os.remove(o)
    return so


def sanitizer_env():
    env = dict(os.environ)
    lib = subprocess.run(["gcc", "-print-file-name=libasan.so"], capture_output=True, text=True).stdout.strip()
    cxx = subprocess.run(["gcc", "-print-file-name=libstdc++.so.6"], capture_output=True, text=True).stdout.strip()
    # exceptions thrown through the sanitizer need the C++ runtime from the start
    env["LD_PRELOAD"] = f"{lib} {os.path.realpath(cxx)}"
    env["ASAN_OPTIONS"] = "detect_leaks=0:halt_on_error=1:exitcode=99:detect_stack_use_after_return=0:alloc_dealloc_mismatch=0"
    env["UBSAN_OPTIONS"] = "halt_on_error=1:print_stacktrace=1:exitcode=98"
    env["OMP_NUM_THREADS"] = "1"
    return env
