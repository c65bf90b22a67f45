"""Ambient randomness seam.

The state of every process-wide random generator is an input of the run: `pollute` sets
them from a number in the choice sequence, `entropy` makes the operating system's entropy
deterministic, `bias` bends the outcome of index draws (first, last, constant, ...).
"""
import os
import random
import sys

import numpy as np

_orig_choice, _orig_randint = np.random.choice, np.random.randint
_orig_default_rng, _orig_RandomState = np.random.default_rng, np.random.RandomState


def pollute(n):
    """Arbitrary state for all process-wide generators."""
    np.random.seed(n % (2 ** 32))
    for _ in range(n % 7):
        np.random.random()
    random.seed(n * 31 + 1)


class Entropy:
    def __init__(self, n):
        self.r = random.Random(n)
        self.calls = 0

    def __call__(self, k):
        self.calls += 1
        return self.r.randbytes(k)


def entropy(n):
    """os.urandom and everything seeded from it become a function of n."""
    e = Entropy(n)
    os.urandom = e
    random._urandom = e
    import uuid
    if hasattr(uuid, "os"):
        uuid.os.urandom = e
    # numpy's generators with no seed go through secrets -> random.SystemRandom -> _urandom
    real_seed = random.seed

    def seed(a=None, version=2):
        if a is None:
            a = int.from_bytes(e(16), "big")
        return real_seed(a, version)
    random.seed = seed
    return e


MODES = ("plain", "first", "last", "edges", "constant", "ramp", "few")


class Bias:
    """Bends index draws in [0, n): applied only to draws with a small range."""

    def __init__(self, mode, seed, limit=4096):
        self.mode, self.limit = mode, limit
        self.r = np.random.Generator(np.random.PCG64(seed))
        self.bent = 0

    def bend(self, out, lo, hi):
        if self.mode == "plain" or hi - lo > self.limit or hi - lo < 2:
            return out
        a = np.asarray(out)
        if a.dtype.kind not in "iu":
            return out
        self.bent += 1
        m, n = self.mode, a.size
        if m == "first":
            b = np.full(n, lo)
        elif m == "last":
            b = np.full(n, hi - 1)
        elif m == "edges":
            b = np.where(self.r.random(n) < 0.5, lo, hi - 1)
        elif m == "constant":
            b = np.full(n, lo + int(self.r.integers(hi - lo)))
        elif m == "ramp":
            b = lo + (np.arange(n) + int(self.r.integers(hi - lo))) % (hi - lo)
        else:
            few = lo + self.r.integers(hi - lo, size=2)
            b = few[self.r.integers(2, size=n)]
        b = b.astype(a.dtype).reshape(a.shape)
        return b if isinstance(out, np.ndarray) else type(out)(b)

    def install(self):
        bias = self

        def span(a, k):
            if "high" in k or "low" in k:
                lo, hi = k.get("low", a[0] if a else 0), k.get("high", a[1] if len(a) > 1 else None)
            elif len(a) > 1 and a[1] is not None:
                lo, hi = a[0], a[1]
            else:
                lo, hi = 0, a[0] if a else None
            if hi is None:
                lo, hi = 0, lo
            return lo, hi

        def ints(real):
            def call(*a, **k):
                out = real(*a, **k)
                try:
                    lo, hi = span(a, k)
                    if np.ndim(lo) or np.ndim(hi):
                        return out
                    return bias.bend(out, int(lo), int(hi))
                except (TypeError, ValueError):
                    return out
            return call

        def choice(real):
            def call(a, size=None, replace=True, p=None, *r, **k):
                out = real(a, size, replace, p, *r, **k)
                if isinstance(a, (int, np.integer)) and replace and p is None:
                    return bias.bend(out, 0, int(a))
                return out
            return call

        np.random.choice = choice(_orig_choice)
        np.random.randint = ints(_orig_randint)

        class RS(_orig_RandomState):
            def choice(self, a, size=None, replace=True, p=None):
                return choice(super().choice)(a, size, replace, p)

            def randint(self, *a, **k):
                return ints(super().randint)(*a, **k)

        class Gen(np.random.Generator):
            def integers(self, *a, **k):
                return ints(super().integers)(*a, **k)

            def choice(self, a, size=None, replace=True, p=None, axis=0, shuffle=True):
                out = super().choice(a, size, replace, p, axis, shuffle)
                if isinstance(a, (int, np.integer)) and replace and p is None:
                    return bias.bend(out, 0, int(a))
                return out

        def default_rng(seed=None):
            if isinstance(seed, np.random.Generator):
                return seed
            if isinstance(seed, np.random.BitGenerator):
                return Gen(seed)
            return Gen(np.random.PCG64(seed))
        np.random.RandomState = RS
        np.random.default_rng = default_rng
        for name, mod in list(sys.modules.items()):
            if mod is None or not name.startswith("metcalcpy"):
                continue
            for attr, val in list(vars(mod).items()):
                if val is _orig_default_rng:
                    setattr(mod, attr, default_rng)
                elif val is _orig_RandomState:
                    setattr(mod, attr, RS)
                elif attr in ("choice", "randint") and val in (_orig_choice, _orig_randint):
                    setattr(mod, attr, getattr(np.random, attr))
        return self
