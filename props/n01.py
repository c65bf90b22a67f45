"""N01: a dataset written to NetCDF does not depend on the time zone of the process."""
import os
from calendar import timegm

import numpy as np

from sim import fs as simfs, host
from sim.core import Violation

ZONES = ["UTC", "America/New_York", "Australia/Lord_Howe", "Asia/Kathmandu", "Pacific/Apia",
         "America/St_Johns", "EST5EDT,M3.2.0,M11.1.0", "XXX-13:45", "Europe/Dublin"]
TIMES = ["2020090100", "2021031402", "2021031403", "2021110701", "2021110702", "1970010100",
         "2011123000", "2038011903", "2000022923", "2021040402", "1999123118"]
TYPES = ["float32", "float64", "int32", "int64", "uint32", "uint64"]
FIELD_TYPES = TYPES + ["int16", "int8", "float16", "uint8", "bool"]
MANY = {f"a{k}": "x" * k if k % 2 else k for k in range(1, 9)}


def prepare():
    import metcalcpy.vertical_interp  # noqa: F401
    import netCDF4  # noqa: F401
    import xarray  # noqa: F401


def shape_of(ch):
    dims = [("lat", 2 + ch.int(3)), ("lon", 1 + ch.int(4))]
    if ch.bool(0.5):
        dims.insert(0, ("lev", 1 + ch.int(3)))
    d = {"dims": dims, "ctypes": {n: ch.pick(TYPES) for n, _ in dims}, "time": 0,
         "seed": ch.int(1000)}
    if ch.bool(0.4):
        d["time"] = 1 + ch.int(3)
        d["t0"] = ch.pick(TIMES)
        d["tstep"] = ch.pick([3600, 1, 21600])
    d["fields"] = [(f"f{k}", ch.pick(FIELD_TYPES), ch.pick(["none", "units", "two"]),
                    ch.int(2 ** len(dims))) for k in range(ch.range(1, 3))]
    d["attrs"] = ch.pick([{}, {"title": "x"}, {"title": "x", "n": 7}, MANY])
    d["ref"] = ch.pick([None] + TIMES)
    d["ref_as"] = ch.pick(["str", "int"])
    d["valid"] = None
    if not d["time"] and ch.bool(0.3):
        d["valid"] = (ch.pick(TIMES), ch.pick([0, 6, 240]))
        d["vattrs"] = ch.pick([{}, {"standard_name": "time"}])
    d["holes"] = ch.bool(0.2)
    return d


def stamp(t):
    y, m, dd, h = int(t[:4]), int(t[4:6]), int(t[6:8]), int(t[8:10])
    return timegm((y, m, dd, h, 0, 0))


def dataset(d):
    import xarray as xr
    g = np.random.default_rng(d["seed"])
    coords = {n: (np.sort(g.integers(0, 90, k)) + 0.1).astype(d["ctypes"][n])
              for n, k in d["dims"]}
    dims = list(d["dims"])
    ds = xr.Dataset()
    if d["valid"]:
        init = stamp(d["valid"][0])
        ds["valid_time"] = ((), np.datetime64(init + 3600 * d["valid"][1], "s").astype("M8[ns]"),
                            d["vattrs"])
        ds["init_time"] = np.datetime64(init, "s").astype("M8[ns]")
    if d["time"]:
        t0 = stamp(d["t0"])
        coords["time"] = np.array([t0 + k * d["tstep"] for k in range(d["time"])],
                                  dtype="M8[s]").astype("M8[ns]")
        dims.insert(0, ("time", d["time"]))
    for n in coords:
        ds = ds.assign_coords({n: coords[n]})
    for name, t, attrs, drop in d["fields"]:
        use = [x for k, x in enumerate(dims) if not drop >> k & 1] or dims
        low = {"i": -60, "f": -60}.get(np.dtype(t).kind, 0)
        v = (low + g.random([k for _, k in use]) * 120).astype(t)
        if t == "bool":
            v = g.random(v.shape) < 0.5
        elif d["holes"] and np.dtype(t).kind == "f":
            v.flat[0] = np.nan
        ds[name] = ([n for n, _ in use], v,
                    {"none": {}, "units": {"units": "m s-1"},
                     "two": {"units": "K", "level": 5}}[attrs])
    ds.attrs.update(d["attrs"])
    return ds


def contents(path):
    import netCDF4 as nc
    out = {}
    with nc.Dataset(path) as f:
        f.set_auto_mask(False)
        out["attrs"] = {a: repr(f.getncattr(a)) for a in f.ncattrs()}
        out["dims"] = {n: len(x) for n, x in f.dimensions.items()}
        out["vars"] = {n: (v.dimensions, str(v.dtype), np.asarray(v[...]).tolist(),
                           {a: repr(v.getncattr(a)) for a in v.ncattrs()})
                       for n, v in f.variables.items()}
    return out


def write(root, d, tz, fail_at=None, out="out.nc"):
    def body():
        import time
        time.tzset()
        import netCDF4 as nc
        from metcalcpy.vertical_interp import write_dataset
        ds = dataset(d)
        ref = d["ref"]
        if ref and d["ref_as"] == "int":
            ref = int(ref)
        calls = [0]

        class Var:
            """A variable of the file whose writes may fail."""
            def __init__(self, v):
                self.__dict__["v"] = v

            def __getattr__(self, n):
                return getattr(self.v, n)

            def __setattr__(self, n, x):
                step()
                setattr(self.v, n, x)

            def __setitem__(self, k, x):
                step()
                self.v[k] = x

            def __getitem__(self, k):
                return self.v[k]

        def step():
            calls[0] += 1
            if fail_at is not None and calls[0] == fail_at + 1:
                raise RuntimeError("NetCDF: HDF error (simulated)")

        class File:
            def __init__(self, f):
                self.__dict__["f"] = f

            def createDimension(self, *a, **k):
                step()
                return self.f.createDimension(*a, **k)

            def createVariable(self, *a, **k):
                step()
                return Var(self.f.createVariable(*a, **k))

            def __getattr__(self, n):
                return getattr(self.f, n)

            def __setattr__(self, n, x):
                step()
                setattr(self.f, n, x)

        f = nc.Dataset(out, "w")
        try:
            try:
                write_dataset(ds, File(f), forecast_reference_time=ref,
                              create_time_dim=bool(d["valid"]))
            finally:
                f.close()
            err = None
        except Exception as e:
            err = f"{type(e).__name__}: {e}"
        return err, calls[0], contents(out) if err is None else None

    return host.run_process(body, root, env={"TZ": tz})


def expected(d):
    ds = dataset(d)
    dims = {n: k for n, k in ds.sizes.items()}
    out = {"attrs": {k: v for k, v in ds.attrs.items()}, "vars": {}}
    for n in dims:
        if n == "time":
            v = [float(k * d["tstep"]) for k in range(d["time"])]
        else:
            v = ds.coords[n].values.tolist()
        out["vars"][n] = ((n,), v, {})
    lead = ()
    if d["valid"]:
        dims["valid_time"] = 1
        out["vars"]["valid_time"] = (("valid_time",), [3600.0 * d["valid"][1]], None)
        out["vars"]["init_time"] = (("valid_time",), [stamp(d["valid"][0]) * 10 ** 9], {})
        lead = ("valid_time",)
    for name, _, attrs, _ in d["fields"]:
        v = ds[name].values
        out["vars"][name] = (lead + ds[name].dims, v[None].tolist() if lead else v.tolist(),
                             dict(ds[name].attrs))
    if d["ref"]:
        dims["forecast_reference_time"] = 1
        out["vars"]["forecast_reference_time"] = (("forecast_reference_time",),
                                                  [float(stamp(d["ref"]))], None)
    out["dims"] = dims
    return out


def same(a, b):
    a, b = np.array(a), np.array(b)
    return a.shape == b.shape and np.array_equal(a, b, equal_nan=bool(b.dtype.kind == "f"))


def judge(got, want, d):
    if got["dims"] != want["dims"]:
        raise Violation("wrong dimensions", f"{got['dims']} instead of {want['dims']}")
    if set(got["attrs"]) != set(want["attrs"]) or \
            any(str(v) not in got["attrs"][k] for k, v in want["attrs"].items()):
        raise Violation("wrong attributes", f"{got['attrs']} instead of {want['attrs']}")
    for n, (dims, v, attrs) in want["vars"].items():
        if n not in got["vars"]:
            raise Violation("variable missing", n)
        gd, _, gv, ga = got["vars"][n]
        if gd != dims or not same(gv, v):
            what = "wrong reference time" if n == "forecast_reference_time" else "wrong values"
            raise Violation(what, f"{n}: {gd} {gv} instead of {dims} {v}")
        if attrs is not None and (set(ga) != set(attrs) or
                                  any(str(x) not in ga[k] for k, x in attrs.items())):
            raise Violation("wrong attributes", f"{n}: {ga} instead of {attrs}")
    if d["ref"]:
        u = got["vars"]["forecast_reference_time"][3].get("units", "")
        if "seconds since 1970-01-01" not in u:
            raise Violation("wrong reference time", f"units {u}")
    if d["valid"]:
        u = got["vars"]["valid_time"][3].get("units", "")
        t = d["valid"][0]
        if f"seconds since {t[:4]}-{t[4:6]}-{t[6:8]} {t[8:10]}:00" not in u:
            raise Violation("wrong valid time", f"units {u} for {t}")


def run(ch, ctx):
    d = shape_of(ch)
    za, zb = ch.pick(ZONES), ch.pick(ZONES)
    fail = ch.pick([False, True])
    frac = ch.int(1000)
    root = ctx.root
    a = write(root, d, za)
    ctx.log("write", d, za, zb, a.brief(), a.value)
    if a.status != "ok":
        raise Violation("hang" if a.status == "hang" else "tool failed", f"{a!r} {a.trace[-500:]}")
    err, calls, got = a.value
    if err:
        raise Violation("writing fails", f"TZ={za}: {err}")
    judge(got, expected(d), d)
    b = write(root, d, zb)
    ctx.log("other zone", b.brief(), b.value == a.value)
    if b.status != "ok" or b.value[0]:
        raise Violation("writing fails", f"TZ={zb}: {b!r}")
    if repr(b.value[2]) != repr(got):
        diff = [n for n in got["vars"] if repr(b.value[2]["vars"].get(n)) != repr(got["vars"][n])]
        raise Violation("file depends on the time zone", f"{za} and {zb}: {diff}")
    ctx.fault("other_time_zone", int(za != zb))
    if fail:
        at = frac % calls
        c = write(root, d, za, fail_at=at)
        ctx.log("failure", at, c.brief(), c.value and c.value[:2])
        ctx.fault("write_fails")
        if c.status == "ok" and c.value[0] is None:
            raise Violation("write failure not reported", f"write {at + 1} of {calls}")
        if c.status == "hang":
            raise Violation("hang", "writing never ends")
    ctx.nontrivial = za != zb or fail
    ctx.state(za, zb, d["ref"], d["valid"], d["time"], fail)
    ctx.sample = {"dataset": d, "zones": [za, zb], "fail": fail, "writes": calls}
