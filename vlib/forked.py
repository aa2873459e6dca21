"""Run a function in a forked copy of this process, so that nothing it does to global state remains."""
import os
import pickle
import signal
import time
import traceback


def run(fn, *args, timeout=300):
    """('ok', result) or ('error', exception, traceback) if acetn failed; harness failures are raised"""
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(rd)
            try:
                out = ("ok", fn(*args))
            except BaseException as e:  # noqa: BLE001 - everything goes back to the parent
                from vlib.core import exception_origin
                out = ("error" if exception_origin(e) == "code" else "harness", f"{type(e).__name__}: {e}", traceback.format_exc())
            with os.fdopen(wr, "wb") as f:
                pickle.dump(out, f)
        except BaseException:
            code = 1
        finally:
            os._exit(code)
    os.close(wr)
    data, end = b"", time.time() + timeout
    import select
    with os.fdopen(rd, "rb") as f:
        while True:
            left = end - time.time()
            if left <= 0:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                return ("error", f"no answer within {timeout} s", "")
            if select.select([f], [], [], left)[0]:
                chunk = os.read(f.fileno(), 1 << 20)
                if not chunk:
                    break
                data += chunk
    _, status = os.waitpid(pid, 0)
    if not data:
        return ("error", f"process ended with status {status}", "")
    out = pickle.loads(data)
    if out[0] == "harness":
        raise RuntimeError(out[1] + out[2])
    return out
