"""NetCDF seam: the real library, whose single operations can fail.

The library writes through its own C code and not through Python's files, so its operations
are counted here: opening, dimensions, variables, attributes, values, closing.
"""
import os
import sys

import netCDF4

_Real = netCDF4.Dataset


class Plan:
    """fail: number of the operation that fails; ops: the operations seen."""

    def __init__(self, root, fail=None, crash=None):
        self.root = os.path.realpath(root)
        self.fail = fail
        self.crash = crash           # called instead of raising
        self.ops = []
        self.fired = []

    def step(self, kind, name):
        n = len(self.ops)
        self.ops.append((kind, name))
        if self.fail == n:
            self.fired.append((n, kind, name))
            if self.crash is not None:
                self.crash()
            if kind.startswith("open"):
                raise OSError(5, "Input/output error", name)
            raise RuntimeError("NetCDF: HDF error (simulated)")


class Var:
    """A variable of a file that is written."""

    def __init__(self, v, plan):
        self.__dict__.update(v=v, plan=plan)

    def __getattr__(self, n):
        return getattr(self.v, n)

    def __setattr__(self, n, x):
        self.plan.step("attribute", n)
        setattr(self.v, n, x)

    def __setitem__(self, k, x):
        self.plan.step("values", self.v.name)
        self.v[k] = x

    def __getitem__(self, k):
        return self.v[k]

    def __len__(self):
        return len(self.v)


def install(plan):
    """Replaces the class that opens files, wherever the package refers to it."""

    class Dataset(_Real):
        def __init__(self, filename, mode="r", *a, **k):
            plan.step("open_r" if mode == "r" else "open_w", os.path.basename(str(filename)))
            _Real.__init__(self, filename, mode, *a, **k)

        def createDimension(self, *a, **k):
            plan.step("dimension", str(a[:1]))
            return _Real.createDimension(self, *a, **k)

        def createVariable(self, *a, **k):
            plan.step("variable", str(a[:1]))
            return Var(_Real.createVariable(self, *a, **k), plan)

    netCDF4.Dataset = Dataset
    for name, mod in list(sys.modules.items()):
        if mod is not None and name.startswith("metcalcpy"):
            for attr, val in list(vars(mod).items()):
                if val is _Real:
                    setattr(mod, attr, Dataset)
    return plan
