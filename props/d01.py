"""D01: the interpolation and cyclone programs write their complete output or fail."""
import os

import numpy as np

from sim import fs as simfs, host, nc
from sim.core import Violation
from . import joblib as jl
from .n01 import MANY, TIMES, ZONES, stamp

DIRS = ["data", "data.v1", "d/2021.01", ".", "gfs.pgrb2"]
LEVELS = [[1000.0, 850.0, 500.0, 200.0], [925.0, 700.0], [1000.0, 700.0, 300.0],
          [1000.0, 925.0, 850.0, 700.0, 500.0, 300.0, 200.0]]
RD, G = 287.047496, 9.80665


def prepare():
    import runpy  # noqa: F401
    import xarray  # noqa: F401
    import netCDF4  # noqa: F401
    import yaml  # noqa: F401
    import metcalcpy.vertical_interp  # noqa: F401
    import metcalcpy.process_tcrmw  # noqa: F401
    # the lazy parts of the libraries
    import tempfile
    with tempfile.TemporaryDirectory() as t:
        p = os.path.join(t, "a.nc")
        xarray.Dataset({"a": ("x", np.arange(3.0))}).to_netcdf(p)
        with xarray.open_dataset(p) as ds:
            ds.load()


def describe(ch):
    d = {"prog": ch.pick(["interp", "interp", "tcrmw"]), "dir": ch.pick(DIRS),
         "dir_from": ch.pick(["option", "environment", "both"]), "absolute": ch.bool(0.3),
         "debug": ch.bool(0.25), "log": ch.bool(0.25), "seed": ch.int(1000),
         "lat": ch.range(1, 3), "lon": ch.range(1, 3)}
    if d["prog"] == "interp":
        d["levels"] = ch.pick(LEVELS)
        d["heights"] = ch.pick(["given", "computed"])
        d["want"] = ch.pick([[511.5], [511.5, 1013.5, 4321.5], [3.5, 30017.5]])
        d["unit"] = ch.pick(["meter", "km"])
        d["hunit"] = ch.pick(["meter", "m", "km", "gpm"])
        d["flat"] = ch.bool(0.3)        # no surface heights
        d["exact"] = ch.bool(0.3)       # a level that is asked for is one of the input
        d["fields"] = [["T"], ["U"], ["U", "T"]][ch.int(3)]
        d["type"] = ch.pick(["f8", "f4"])
        d["valid"] = (ch.pick(TIMES), ch.pick([0, 6, 240])) if ch.bool(0.4) else None
        d["time_dim"] = d["valid"] is not None and ch.bool(0.7)
        d["steps"] = [] if d["valid"] or ch.bool(0.6) else ch.pick([[0], [0, 6], [0, 1, 30]])
        if d["hunit"] == "gpm":
            d["unit"] = "meter"         # taken for the unit of the levels
        d["ref"] = ch.pick([None] + TIMES)
        d["attrs"] = ch.pick([{}, {"title": "x", "n": 7}, MANY])
        d["out"] = f"out.{d['ref']}.nc" if d["ref"] else ch.pick(["out.nc", "out"])
    else:
        d["levels"] = ch.pick(LEVELS)
        d["tracks"] = ch.range(1, 3)
        d["names"] = ch.bool(0.3)
        d["out"] = "out.nc"
    return d


# ------------------------------------------------------------------ the model
def arrays(d):
    g = np.random.default_rng(d["seed"])
    n = len(d["levels"])
    if d["prog"] == "tcrmw":
        shape = (d["lat"], d["lon"] + 1, n, d["tracks"])
        return {k: np.round(g.normal(0, 20, shape), 3) for k in ("u", "v", "t")}
    shape = (n, len(d["steps"]) or 1, d["lat"], d["lon"])
    t = np.sort(np.round(g.uniform(200, 300, shape), 2), axis=0)[::-1]
    h = np.round(np.cumsum(g.uniform(300, 4000, shape), axis=0)) + 0.25
    if d["exact"]:
        h += 511.5 - h[d["seed"] % n, 0, 0, 0]
    return {"T": t.astype(d["type"]), "U": np.round(g.normal(0, 20, shape), 2).astype(d["type"]),
            "H": h,
            "PS": np.round(g.uniform(100500, 103000, shape[1:])),
            "GS": np.round(g.uniform(0, 900, shape[1:]), 1)}


def make_input(d):
    import xarray as xr
    a = arrays(d)
    lat, lon = 10.0 * np.arange(d["lat"]) - 10, 5.0 * np.arange(d["lon"])
    path = os.path.join(d["dir"], "in.nc")
    if d["prog"] == "tcrmw":
        dims = ("track_point", "pressure", "range", "azimuth")
        u, v, t = ("U1", "V1", "T1") if d["names"] else ("UGRD", "VGRD", "TMP")
        ds = xr.Dataset({k: (dims, np.transpose(a[x], (3, 2, 0, 1)))
                         for k, x in ((u, "u"), (v, "v"), (t, "t"))},
                        coords={"range": np.arange(d["lat"]) + 1.0,
                                "azimuth": np.linspace(0, 300, d["lon"] + 1),
                                "pressure": d["levels"],
                                "track_point": np.arange(d["tracks"])})
        ds["TrackLines"] = ("track_line", np.arange(2.0))
        ds["RMW"] = ("track_point", 20.0 + np.arange(d["tracks"]))
    else:
        three, two = ("plev", "time", "lat", "lon"), ("time", "lat", "lon")
        ds = xr.Dataset({"T": (three, a["T"], {"units": "K"}),
                         "U": (three, a["U"], {"units": "m/s", "long_name": "wind"}),
                         "HGT": (three, a["H"] / (1000 if d["hunit"] == "km" else 1),
                                 {"units": d["hunit"]}),
                         "RH": (three, np.zeros(a["T"].shape), {"units": "percent"}),
                         "PS": (two, a["PS"], {"units": "Pa"}),
                         "GS": (two, a["GS"], {"units": "m**2 s**-2"})},
                        coords={"plev": ("plev", d["levels"], {"units": "hPa"}),
                                "lat": lat, "lon": lon}, attrs=d["attrs"])
        if d["steps"]:
            t0 = stamp(TIMES[d["seed"] % len(TIMES)])
            ds["time"] = [np.datetime64(t0 + 3600 * k, "s").astype("M8[ns]") for k in d["steps"]]
            ds = ds.transpose("time", "plev", "lat", "lon")
        else:
            ds = ds.isel(time=0)
        if d["valid"]:
            t0 = stamp(d["valid"][0])
            ds["time"] = np.datetime64(t0, "s").astype("M8[ns]")
            ds["valid_time"] = np.datetime64(t0 + 3600 * d["valid"][1], "s").astype("M8[ns]")
    ds.to_netcdf(path)


def config(d):
    import yaml
    return yaml.safe_dump({
        "height_from_pressure": d["heights"] == "computed", "vertical_coord_type_in": "pressure",
        "vertical_coord_type_out": "height", "geopotential_height_name": "HGT",
        "fields": d["fields"], "vertical_dim_name": "plev",
        "vertical_levels": [x / 1000 if d["unit"] == "km" else x for x in d["want"]],
        "vertical_level_units": d["unit"], "surface_pressure_name": "PS",
        "zero_surface_geopotential": d["flat"], "surface_geopotential_name": "GS",
        "temperature_name": "T", "relative_humidity_name": "RH"}).encode()


def heights(d, a):
    if d["heights"] == "given":
        return a["H"]
    p = [a["PS"] / 100] + d["levels"]
    h, out = 0 * a["GS"] if d["flat"] else a["GS"] / G, []
    for k in range(len(d["levels"])):
        h = h + RD / G * a["T"][k].astype(float) * np.log(p[k] / p[k + 1])
        out.append(h)
    return np.array(out)


def expected(d):
    a = arrays(d)
    if d["prog"] == "tcrmw":
        th = np.deg2rad(np.linspace(0, 300, d["lon"] + 1)) + np.pi / 2
        th = th[None, :, None, None]
        return {"u_radial": np.cos(th) * a["u"] + np.sin(th) * a["v"],
                "u_tangential": -np.sin(th) * a["u"] + np.cos(th) * a["v"],
                "T1" if d["names"] else "TMP": a["t"], "RMW": 20.0 + np.arange(d["tracks"]),
                "range": np.arange(d["lat"]) + 1.0, "pressure": np.array(d["levels"]),
                "azimuth": np.linspace(0, 300, d["lon"] + 1)}
    h = heights(d, a)
    out = {"lat": 10.0 * np.arange(d["lat"]) - 10, "lon": 5.0 * np.arange(d["lon"]),
           "lev": np.array(d["want"]) / (1000 if d["unit"] == "km" else 1)}
    for f in d["fields"]:
        v = np.empty((len(d["want"]),) + h.shape[1:])
        for i in np.ndindex(h.shape[1:]):
            at = (slice(None),) + i
            v[at] = np.interp(d["want"], h[at], a[f][at].astype(float))
        out[f] = np.swapaxes(v, 0, 1) if d["steps"] or d["time_dim"] else v[:, 0]
    if d["steps"]:
        out["time"] = 3600.0 * np.array(d["steps"])
    if d["ref"]:
        out["forecast_reference_time"] = np.array([float(stamp(d["ref"]))])
    if d["time_dim"]:
        out["valid_time"] = np.array([3600.0 * d["valid"][1]])
    elif d["valid"]:
        out["valid_time"] = np.array(stamp(d["valid"][0]) + 3600.0 * d["valid"][1])
    return out


def judge(d, got):
    if not isinstance(got, dict):
        return f"the output cannot be read: {got}"
    for k, v in expected(d).items():
        if k not in got["vars"]:
            return f"{k} is missing"
        x = np.array(got["vars"][k][0], dtype=float)
        if k == "valid_time" and not d["time_dim"]:
            x, v = x / 1e9 - v, np.zeros(())        # nanoseconds
        if x.shape != v.shape or not np.allclose(x, v, rtol=2e-4, atol=2e-3):
            return f"{k} is {x.tolist()} instead of {v.tolist()}"
    if d["prog"] == "interp":
        if got["attrs"] != {k: str(v) for k, v in d["attrs"].items()}:
            return f"attributes {got['attrs']}"
        for f in d["fields"]:
            want = {"T": {"units": "K"}, "U": {"units": "m/s", "long_name": "wind"}}[f]
            if got["vars"][f][1] != want:
                return f"attributes {got['vars'][f][1]} of {f}"
        if d["time_dim"]:
            t = d["valid"][0]
            if f"since {t[:4]}-{t[4:6]}-{t[6:8]} {t[8:10]}:" not in \
                    got["vars"]["valid_time"][1].get("units", ""):
                return f"units {got['vars']['valid_time'][1]} of the valid time"
    return None


def contents(root, rel):
    def body():
        import netCDF4
        with netCDF4.Dataset(rel) as f:
            f.set_auto_mask(False)
            return {"attrs": {a: str(f.getncattr(a)) for a in f.ncattrs()},
                    "vars": {n: (np.asarray(v[...]).tolist(),
                                 {a: str(v.getncattr(a)) for a in v.ncattrs() if a != "_FillValue"})
                             for n, v in f.variables.items()}}
    out = host.run_process(body, root, fs=False)
    return out.value if out.status == "ok" else repr(out)


# ------------------------------------------------------------------ the program
def arguments(d, root):
    where = os.path.join(root, d["dir"]) if d["absolute"] else d["dir"]
    a = ["--datadir", where] if d["dir_from"] != "environment" else []
    a += ["--input", "in.nc", "--output", d["out"]]
    if d["debug"]:
        a.append("--debug")
    if d["log"]:
        a += ["--logfile", "run.log"]
    if d["prog"] == "tcrmw":
        if d["names"]:
            a += ["--u", "U1", "--v", "V1", "--T", "T1"]
        return a, where
    a += ["--config", "c.yaml"]
    if d["time_dim"]:
        a.append("--create_time_dim")
    if d["ref"]:
        a.append("--ref_time_from_filename")
    return a, where


class Nothing:
    """Stands for the display: accepts everything, shows nothing."""

    def __call__(self, *a, **k):
        return self

    def __getattr__(self, n):
        return self

    def __setitem__(self, k, v):
        pass

    def __getitem__(self, k):
        return self


def run(ch, ctx):
    d = describe(ch)
    tz = ch.pick(ZONES)
    fault = ch.weighted([(3, None), (4, "library"), (2, "crash"), (1, "disk"), (1, "missing")])
    left = ch.pick(["none", "longer", "shorter", "valid"])
    frac = ch.int(100000)
    root = ctx.root
    args, where = arguments(d, root)
    out_rel = os.path.normpath(os.path.join(d["dir"], d["out"]))
    in_rel = os.path.normpath(os.path.join(d["dir"], "in.nc"))
    path = os.path.join(jl.REPO, "metcalcpy",
                        "vertical_interp.py" if d["prog"] == "interp" else "process_tcrmw.py")

    def world():
        simfs.wipe(root)
        os.makedirs(os.path.join(root, d["dir"]), exist_ok=True)
        os.makedirs(os.path.join(root, "other"), exist_ok=True)
        os.chmod(os.path.join(root, "other"), 0o777)
        os.chmod(root, 0o777)
        os.chmod(os.path.join(root, d["dir"]), 0o777)
        o = host.run_process(lambda: make_input(d), root, fs=False)
        if o.status != "ok":
            raise RuntimeError(f"input: {o!r} {o.trace[-300:]}")
        files = {"keep.nc": b"KEEP", "out.old.nc": b"KEEP"}
        if d["prog"] == "interp":
            files["c.yaml"] = config(d)
        if left in ("longer", "shorter"):
            files[out_rel] = b"OLD LINE\n" * 3000 if left == "longer" else b"O"
        for rel, data in files.items():
            with open(os.path.join(root, rel), "wb") as f:
                f.write(data)
            os.chmod(os.path.join(root, rel), 0o666)
        if left == "valid":
            # what the program wrote for other data
            other = dict(d, seed=d["seed"] + 5000)
            host.run_process(lambda: make_input(other), root, fs=False)
            process()
            host.run_process(lambda: make_input(d), root, fs=False)
        return {r: x for r, x in simfs.snapshot(root).items()
                if r != out_rel and x is not None and not r.startswith((".tmp", "run.log"))
                and "Debug" not in r}

    def missing():
        """A file or the directory of the data is not there; returns its name."""
        gone = [in_rel] + ["c.yaml"] * (d["prog"] == "interp") + ["directory"] * (d["dir"] != ".")
        gone = gone[frac % len(gone)]
        full = os.path.join(root, d["dir"] if gone == "directory" else gone)
        os.rename(full, full + ".away")
        return gone, full

    def process(plan=None, ncfail=None, crash=False):
        def body():
            import gc
            import logging
            import runpy
            import sys

            def die():
                proc[0].res.status = "crash"
                proc[0].fs.crash(proc[0].fs)
            p = nc.install(nc.Plan(root, ncfail, die if crash else None))
            proc[0].res.extra["lib"] = (p.ops, p.fired)
            os.system = lambda command: 127
            for n in ("matplotlib", "matplotlib.pyplot"):
                sys.modules[n] = Nothing()
            for h in logging.getLogger().handlers[:]:
                logging.getLogger().removeHandler(h)
            sys.argv = [path] + args
            runpy.run_path(path, run_name="__main__")
            gc.collect()
        proc = [None]

        def setup(x):
            proc[0] = x
        env = {"TZ": tz, "DATA_DIR": {"option": None, "environment": where,
                                      "both": "other"}[d["dir_from"]]}
        return host.run_process(body, root, plan=plan or {}, env=env, setup=setup)

    def check(files, when, good=True, died=False):
        snap = simfs.snapshot(root)
        for rel, data in files.items():
            if snap.get(rel) != data:
                raise Violation("other file changed", f"{d['prog']} {when}: {rel}")
        debug = os.path.normpath(os.path.join(d["dir"], "Debug"))
        for rel, data in snap.items():
            if data is None or rel in files or rel == out_rel or rel.startswith(".tmp"):
                continue
            if rel == "run.log" and d["log"] or rel.startswith(debug) and d["debug"]:
                continue
            if died and rel.startswith(out_rel):
                continue        # what a program that dies was about to rename
            raise Violation("unexpected file", f"{d['prog']} {when}: {rel}")
        if good:
            bad = "no output file" if snap.get(out_rel) is None else \
                judge(d, contents(root, out_rel))
            if bad:
                raise Violation("wrong output", f"{d['prog']} {when}: {bad[:600]}")
            if d["log"] and not snap.get("run.log"):
                raise Violation("no log", f"{d['prog']} {when}: nothing in the log file")

    files = world()
    calm = process()
    ops, _ = calm.extra.get("lib", ((), ()))
    ctx.log(d, tz, left, calm.brief(), len(ops))
    jl.no_hang(calm, d["prog"])
    if not calm.good:
        raise Violation("program fails", f"{d['prog']} {left} {args}: {calm!r} {calm.trace[-300:]}")
    check(files, "undisturbed")
    ctx.fault("left_" + left, int(left != "none"))
    ctx.nontrivial = left != "none" or tz != "UTC"
    ctx.state(d["prog"], d["dir"], d["debug"], d["log"], fault, left, tz)
    ctx.sample = {"program": d["prog"], "arguments": args, "fault": fault, "left": left, "zone": tz}
    if fault is None:
        return
    files = world()
    if fault == "missing":
        gone, full = missing()
        out = process()
        ctx.log("missing", gone, out.brief())
        jl.no_hang(out, f"{d['prog']} without {gone}")
        ctx.fault("missing_" + ("directory" if gone == "directory" else "file"))
        os.rename(full + ".away", full)
        if out.good:
            raise Violation("failure not reported", f"{d['prog']} without {gone}: exit 0")
    elif fault == "disk":
        at = [i for i, (k, rel, _) in enumerate(calm.ops)
              if simfs.APPLICABLE.get(k) and rel == "c.yaml"]
        if not at:
            return
        i = at[frac % len(at)]
        out = process(plan={i: {"kind": simfs.APPLICABLE[calm.ops[i][0]][0], "frac": 0.5}})
    else:
        out = process(ncfail=frac % len(ops), crash=fault == "crash")
    if fault != "missing":
        jl.note_faults(ctx, out)
    fired = out.extra.get("lib", ((), ()))[1]
    ctx.log("faulty", fault, out.brief(), fired)
    jl.no_hang(out, f"{d['prog']} after {fault}")
    if out.status == "crash":
        ctx.fault("crash")
    elif fault != "missing" and (fired or out.fired):
        ctx.fault("library_error", len(fired))
        if out.good:
            snap = simfs.snapshot(root)
            # a program that copes with the failure is as good as one that reports it
            bad = "no output file" if snap.get(out_rel) is None else \
                judge(d, contents(root, out_rel))
            if bad:
                raise Violation("failure not reported", f"{d['prog']} {fault} {fired} {out.fired}: "
                                f"exit 0, {bad[:300]}")
    check(files, f"after {fault}", good=False, died=out.status == "crash")
    again = process()
    ctx.log("again", again.brief())
    if not again.good:
        raise Violation("repeated call fails", f"{d['prog']} after {fault}: {again!r}")
    check(files, f"again after {fault}")
