"""Injected numerical faults: LAPACK routines that report failure, as they do for ill-conditioned input."""
import torch
from torch.overrides import TorchFunctionMode


class LapackFaults(TorchFunctionMode):
    """Lets calls of the given torch.linalg routines fail with the error torch raises when they do not converge.

    At most `most` calls fail, each with probability p; a retry may succeed."""

    def __init__(self, rng, names, p=0.5, most=10 ** 9):
        super().__init__()
        self.rng, self.names, self.p, self.most = rng, tuple(names), p, most
        self.calls = self.failed = 0

    def __torch_function__(self, func, types, args=(), kwargs=None):
        name = getattr(func, "__name__", "")
        if name in self.names:
            self.calls += 1
            if self.failed < self.most and self.rng.uniform() < self.p:
                self.failed += 1
                raise torch._C._LinAlgError(f"{name}: injected failure of the factorization")
        return func(*args, **(kwargs or {}))
