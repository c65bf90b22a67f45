"""W01: files of matched pairs, weather regimes and spectra are complete, or an error is raised."""
import datetime as dt
import os

import numpy as np

from sim import fs as simfs, host, nc
from sim.core import Violation
from . import joblib as jl
from .n01 import ZONES

UTIL = "metcalcpy.contributed.blocking_weather_regime.Blocking_WeatherRegime_util"
REGIME = "metcalcpy.contributed.blocking_weather_regime.WeatherRegime"
SPECTRA = ("metcalcpy.contributed.spacetime.spacetime_utils",
           "metcalcpy.contributed.tropical_diagnostics.utils")
HEAD = ("VERSION MODEL DESC FCST_LEAD FCST_VALID_BEG FCST_VALID_END OBS_LEAD OBS_VALID_BEG "
        "OBS_VALID_END FCST_VAR FCST_UNITS FCST_LEV OBS_VAR OBS_UNITS OBS_LEV OBTYPE VX_MASK "
        "INTERP_MTHD INTERP_PNTS FCST_THRESH OBS_THRESH COV_THRESH ALPHA LINE_TYPE").split()
OTHER = {"in/keep.nc": b"not a file", "out/keep.stat": b"KEEP\n", "out/keep.nc": b"KEEP",
         "out/regime_old.txt": b"# Year\n"}


def prepare():
    import importlib
    os.environ.setdefault("SCRIPT_OUTPUT_BASE", "out")
    for m in (UTIL, REGIME) + SPECTRA:
        importlib.import_module(m)


def module(name):
    import importlib
    return importlib.import_module(name)


def stamp(t):
    return t.strftime("%Y%m%d_%H%M%S")


def lead_text(s):
    return f"{s // 3600:02d}{s // 60 % 60:02d}{s % 60:02d}"


def shape_of(ch):
    d = {"seasons": ch.range(1, 3), "days": ch.range(1, 4), "lat": ch.range(1, 4),
         "lon": ch.range(1, 4), "seed": ch.int(1000),
         "start": ch.pick(["20000101", "20201231", "20210314", "20210328", "20211107", "19991230",
                           "20200228"]),
         "hour": ch.pick([0, 2, 12, 23]), "lead": ch.pick([0, 6, 120, 24]) * 3600 + ch.pick([0, 90]),
         "step": ch.pick([24, 1, 6])}
    n = d["seasons"] * d["days"]
    # the lead may change from file to file
    grow = ch.pick([0, 3600, 6 * 3600 + 1800])
    d["leads"] = [d["lead"] + k * grow for k in range(n)]
    d["obs_lead"] = ch.pick([0, 0, 3 * 3600])
    d["missing"] = sorted(k for k in range(n) if ch.bool(0.2))
    if len(d["missing"]) == n:
        d["missing"] = d["missing"][1:]
    # points of some files are missing
    d["holes"] = sorted(k for k in range(n) if ch.bool(0.1))
    d["kind"] = ch.pick(["f8", "f4", "i4"])
    return d


def times(d):
    t = dt.datetime.strptime(d["start"], "%Y%m%d") + dt.timedelta(hours=d["hour"])
    out = []
    for y in range(d["seasons"]):
        for k in range(d["days"]):
            out.append(t + dt.timedelta(days=365 * y, hours=d["step"] * k))
    return out


def values(d, salt=0):
    g = np.random.default_rng(d["seed"] + salt)
    return np.round(g.normal(500, 90, (d["seasons"], d["days"], d["lat"], d["lon"])), 3)


def time_dict(d, lead=None):
    init, valid, leads = [], [], []
    for k, t in enumerate(times(d)):
        s = d["leads"][k] if lead is None else lead
        gone = k in d["missing"]
        init.append("" if gone else stamp(t - dt.timedelta(seconds=s)))
        valid.append("" if gone else stamp(t))
        leads.append("" if gone else lead_text(s))
    r = lambda x: np.reshape(x, (d["seasons"], d["days"]))
    return {"init": r(init), "valid": r(valid), "lead": r(leads)}


def hole(d, k):
    return (d["seed"] + k) % d["lat"], (d["seed"] // 7) % d["lon"]


# ------------------------------------------------------------------ reading
def make_inputs(root, d):
    """Files of one time each, and the list of their names."""
    import netCDF4
    v, names = values(d), []
    for k, t in enumerate(times(d)):
        if k in d["missing"]:
            names.append("missing")
            continue
        name = f"in/f{k}.nc"
        with netCDF4.Dataset(os.path.join(root, name), "w") as f:
            f.createDimension("lat", d["lat"])
            f.createDimension("lon", d["lon"])
            f.createVariable("lat", "f8", ("lat",))[:] = np.linspace(30, 60, d["lat"])
            f.createVariable("lon", "f8", ("lon",))[:] = np.linspace(0, 90, d["lon"])
            x = f.createVariable("Z500", d["kind"], ("lat", "lon"), fill_value=-9999)
            a = v[k // d["days"], k % d["days"]].copy()
            if k in d["holes"]:
                a[hole(d, k)] = -9999
            x[:] = a
            x.init_time = stamp(t - dt.timedelta(seconds=d["leads"][k]))
            x.valid_time = stamp(t)
        if not os.getuid():
            os.chmod(os.path.join(root, name), 0o666)
        names.append(name)
    return names


def call_read(d, names):
    a, lats, lons, tm = module(UTIL).read_nc_met(names, "Z500", d["seasons"], d["days"])
    return (np.asarray(a).tolist(), np.asarray(lats).tolist(), np.asarray(lons).tolist(),
            {k: np.asarray(v).tolist() for k, v in tm.items()})


def judge_read(d, got):
    want = values(d).astype(d["kind"]).astype(float)
    for k in d["holes"]:
        want[(k // d["days"], k % d["days"]) + hole(d, k)] = np.nan
    for k in d["missing"]:
        want[k // d["days"], k % d["days"]] = np.nan
    a = np.array(got[0])
    if a.shape != want.shape or not np.array_equal(a, want, equal_nan=True):
        return f"field {a.tolist()} instead of {want.tolist()}"
    if not np.allclose(got[1], np.linspace(30, 60, d["lat"])) or \
            not np.allclose(got[2], np.linspace(0, 90, d["lon"])):
        return f"positions {got[1:3]}"
    for k, v in time_dict(d).items():
        if v.tolist() != got[3].get(k):
            return f"times {k}: {got[3].get(k)} instead of {v.tolist()}"
    return None


# ------------------------------------------------------------------ writing
def call_pairs(d):
    n = d["lat"]
    fc, ob = (values(d, s)[:, :, :, 0] for s in (0, 1))
    tf, to = time_dict(d), time_dict(d, d["obs_lead"])
    a = d["names"]
    module(UTIL).write_mpr_file(ob, fc, np.linspace(-30, 60, n), np.linspace(0, 350, n), to, tf,
                                a["model"], a["desc"], a["var"], "m", a["lev"], a["var"] + "_O",
                                "gpm", a["lev"], a["mask"], "500", "out/" + a["file"])


def expect_pairs(d):
    n, a = d["lat"], d["names"]
    fc, ob = (values(d, s)[:, :, :, 0] for s in (0, 1))
    out = {}
    for k, t in enumerate(times(d)):
        if k in d["missing"]:
            continue
        y, x = k // d["days"], k % d["days"]
        v = stamp(t)
        rows = []
        for p in range(n):
            rows.append(["V9.1", a["model"], a["desc"], lead_text(d["leads"][k]), v, v,
                         lead_text(d["obs_lead"]), v, v,
                         a["var"], "m", a["lev"], a["var"] + "_O", "gpm", a["lev"], "ADPUPA",
                         a["mask"], "NEAREST", "1", "NA", "NA", "NA", "NA", "MPR", str(n),
                         str(p + 1), "NA", f"{np.linspace(-30, 60, n)[p]:.4f}",
                         f"{np.linspace(0, 350, n)[p]:.4f}", "500", "NA", f"{fc[y, x, p]:.4f}",
                         f"{ob[y, x, p]:.4f}", "NA", "NA", "NA", "NA"])
        out[f"out/{a['file']}_{lead_text(d['leads'][k])}L_{v}V.stat"] = rows
    return out


def judge_pairs(d, snap):
    want = expect_pairs(d)
    for rel, rows in want.items():
        data = snap.get(rel)
        if data is None:
            return f"{rel} is missing"
        lines = [x.split() for x in data.decode().split("\n")]
        if lines[-1:] != [[]] or lines[:1] != [HEAD]:
            return f"{rel}: wrong head or end"
        if lines[1:-1] != rows:
            return f"{rel}: {lines[1:-1]} instead of {rows}"
    return None


def label_values(d):
    g = np.random.default_rng(d["seed"])
    return g.integers(1, 7, (d["seasons"], d["days"])).astype(float)


def call_regime(d):
    os.environ["OBS_WR_OUTPUT_FILE_TYPE"] = d["type"]
    os.environ["OBS_WR_OUTPUT_FILE"] = d["file"]
    os.environ["WR_OUTPUT_FILE_DIR"] = "out"
    w = module(REGIME).WeatherRegimeCalculation("OBS")
    full = dict(d, missing=[])
    w.write_K_means_file(time_dict(full), label_values(d))


def judge_regime(d, snap, root):
    rel = f"out/{d['file']}" + (".nc" if d["type"] == "netcdf" else ".txt")
    if snap.get(rel) is None:
        return f"{rel} is missing"
    lab = label_values(d).reshape(-1)
    tt = times(d)
    if d["type"] == "text":
        lines = snap[rel].decode().split("\n")
        if lines[0].split() != ["#", "Year", "Month", "Day", "WeatherRegime"] or lines[-1]:
            return f"wrong head or end {lines}"
        got = [x.split() for x in lines[1:-1]]
        want = [[t.strftime("%Y"), t.strftime("%m"), t.strftime("%d")] for t in tt]
        if [x[:3] for x in got] != want or [float(x[3]) for x in got] != lab.tolist():
            return f"{got} instead of {want} {lab.tolist()}"
        return None
    c = nc_contents(root, rel)
    days = [(t.date() - tt[0].date()).days for t in tt]
    if c["time"][0] != days or c["wrnum"][0] != lab.tolist() or \
            c["date"][0] != [int(t.strftime("%Y%m%d")) for t in tt]:
        return f"{c} instead of {days} {lab.tolist()}"
    if f"days since {tt[0]:%Y-%m-%d}" not in c["time"][1].get("units", ""):
        return f"units {c['time'][1]}"
    return None


def spectra(d):
    g = np.random.default_rng(d["seed"])
    nv, nf, nw = d["seasons"] * 4, d["lat"], d["lon"]
    return g.normal(size=(nv, nf, nw)), np.linspace(0, .5, nf), np.arange(nw) - nw // 2


def call_spectra(d):
    s, f, w = spectra(d)
    module(SPECTRA[d["which"]]).save_Spectra(s, f, w, d["file"], "out/")


def judge_spectra(d, root):
    rel = f"out/{d['file']}.nc"
    if not os.path.exists(os.path.join(root, rel)):
        return "no file"
    c = nc_contents(root, rel)
    s, f, w = spectra(d)
    if c["STC"][0] != s.tolist() or c["freq"][0] != f.tolist() or c["wnum"][0] != w.tolist() \
            or c["var"][0] != list(range(len(s))):
        return f"{c} instead of {s.tolist()} {f.tolist()} {w.tolist()}"
    return None


def nc_contents(root, rel):
    """Values and attributes of a file, read in a process of its own."""
    def body():
        import netCDF4
        with netCDF4.Dataset(rel) as f:
            f.set_auto_mask(False)
            return {n: (np.asarray(v[...]).tolist(), {a: str(v.getncattr(a)) for a in v.ncattrs()})
                    for n, v in f.variables.items()}
    out = host.run_process(body, root, fs=False)
    names = ("time", "date", "wrnum", "STC", "freq", "wnum", "var")
    return dict({k: (f"missing, {out!r}", {}) for k in names}, **(out.value or {}))


# ------------------------------------------------------------------ runs
def targets(kind, d):
    if kind == "pairs":
        return list(expect_pairs(d))
    if kind == "regime":
        return [f"out/{d['file']}" + (".nc" if d["type"] == "netcdf" else ".txt")]
    if kind == "spectra":
        return [f"out/{d['file']}.nc"]
    return []


def run(ch, ctx):
    kind = ch.pick(["pairs", "read", "regime", "spectra"])
    d = shape_of(ch)
    d["names"] = {"model": ch.pick(["GFS", "G", "A_LONG_MODEL_NAME"]),
                  "desc": ch.pick(["NA", "A_DESCRIPTION_LONGER"]), "var": ch.pick(["Z500", "Z"]),
                  "lev": ch.pick(["P500", "500-1000hPa"]), "mask": ch.pick(["FULL", "NORTH_ATL"]),
                  "file": ch.pick(["mpr", "mpr.v1", "a_b"])}
    d["type"] = ch.pick(["text", "netcdf"])
    d["file"] = ch.pick(["regime", "r.1", "keep2"])
    d["which"] = ch.int(2)
    root = ctx.root
    tz = ch.pick(ZONES)
    fault = ch.weighted([(4, None), (3, "disk"), (3, "library"), (2, "crash")])
    left = ch.pick(["none", "longer", "shorter", "same"])
    again_here = ch.bool()
    # an earlier call of the same process, on other data
    before = dict(d, seed=d["seed"] + 5000) if ch.bool(0.3) else None
    frac = ch.int(100000)
    how = ch.pick(simfs.APPLICABLE["write"])
    buf = ch.pick([None, 64])
    lib = kind in ("read", "spectra") or kind == "regime" and d["type"] == "netcdf"

    def world():
        simfs.wipe(root)
        for x in ("in", "out"):
            os.makedirs(os.path.join(root, x), exist_ok=True)
            os.chmod(os.path.join(root, x), 0o777)
        names = []
        if kind == "read":
            names = host.run_process(lambda: make_inputs(root, d), root, fs=False).value
        for rel, data in OTHER.items():
            with open(os.path.join(root, rel), "wb") as f:
                f.write(data)
        if left != "none":
            junk = {"longer": b"OLD LINE\n" * 3000, "shorter": b"O", "same": b"OLD\n" * 60}[left]
            for rel in targets(kind, d):
                with open(os.path.join(root, rel), "wb") as f:
                    f.write(junk)
                os.chmod(os.path.join(root, rel), 0o666)
        return names

    def call(names):
        if kind == "read":
            return call_read(d, names)
        call_with(d)
        return None

    def call_with(x):
        {"pairs": call_pairs, "regime": call_regime, "spectra": call_spectra}[kind](x)

    def process(names, plan=None, ncfail=None, crash=False, retry=False, earlier=False):
        def body():
            import gc
            if earlier:
                if kind == "read":
                    make_inputs(root, before)
                    call_read(before, names)
                    make_inputs(root, d)
                else:
                    call_with(before)

            def die():
                proc[0].res.status = "crash"
                proc[0].fs.crash(proc[0].fs)
            p = nc.install(nc.Plan(root, ncfail, die if crash else None))
            err = value = None
            try:
                value = call(names)
            except Exception as e:
                err = type(e).__name__
            first = len(p.ops), len(p.fired), len(proc[0].fs.fired)
            if retry and err is not None:
                # the caller carries on in the same process after the error
                gc.collect()
                proc[0].fs.plan, proc[0].fs.sticky, p.fail = {}, None, None
                try:
                    value = call(names)
                except Exception as e:
                    return err, value, first, f"{type(e).__name__}: {e}"
            return err, value, first, None
        proc = [None]

        def setup(x):
            proc[0] = x
        return host.run_process(body, root, plan=plan or {}, env={"TZ": tz}, setup=setup,
                                bufsize=buf)

    def judge(value, when):
        snap = simfs.snapshot(root)
        bad = {"pairs": lambda: judge_pairs(d, snap), "read": lambda: judge_read(d, value),
               "regime": lambda: judge_regime(d, snap, root),
               "spectra": lambda: judge_spectra(d, root)}[kind]()
        if bad:
            raise Violation("wrong content", f"{kind} {when}: {bad[:600]}")
        bystanders(snap, when)

    def bystanders(snap, when):
        mine = set(targets(kind, d)) | set(names) | set(OTHER)
        for rel, data in OTHER.items():
            if snap.get(rel) != data:
                raise Violation("other file changed", f"{kind} {when}: {rel}")
        for rel in snap:
            if rel not in mine and snap[rel] is not None and not rel.startswith(".tmp"):
                raise Violation("unexpected file", f"{kind} {when}: {rel}")

    names = world()
    calm = process(names)
    ctx.log(kind, d, tz, left, calm.brief(), calm.value)
    jl.no_hang(calm, kind)
    if calm.status != "ok" or calm.value[0]:
        raise Violation("call fails", f"{kind} {left}: {calm!r} {calm.value}")
    judge(calm.value[1], "undisturbed")
    nops = [i for i, (k, _, _) in enumerate(calm.ops) if simfs.APPLICABLE.get(k)]
    nlib = calm.value[2][0]
    ctx.fault("left_" + left, int(left != "none"))
    ctx.nontrivial = left != "none" or tz != "UTC"
    ctx.state(kind, d["type"] if kind == "regime" else "", fault, left, again_here, tz,
              len(d["missing"]))
    ctx.sample = {"kind": kind, "fault": fault, "left": left, "zone": tz}
    if before is not None:
        names = world()
        second = process(names, earlier=True)
        ctx.log("second", second.brief(), second.value)
        jl.no_hang(second, kind)
        if second.status != "ok" or second.value[0]:
            raise Violation("call fails", f"{kind} after another: {second!r} {second.value}")
        judge(second.value[1], "after a call on other data")
        ctx.fault("earlier_call")
    if fault == "library" and not nlib or fault == "disk" and not nops:
        fault = "disk" if nops else None if not nlib else "library"
    if fault is None:
        return
    names = world()
    if fault == "library" or fault == "crash" and lib:
        out = process(names, ncfail=frac % nlib, crash=fault == "crash", retry=again_here)
    else:
        at = nops[frac % len(nops)] if nops else 0
        k = calm.ops[at][0]
        f = {"kind": "crash", "frac": 0.5} if fault == "crash" else \
            {"kind": how if how in simfs.APPLICABLE[k] else simfs.APPLICABLE[k][0], "frac": 0.5}
        out = process(names, plan={at: f}, retry=again_here)
    jl.note_faults(ctx, out)
    ctx.log("faulty", fault, out.brief(), out.value)
    jl.no_hang(out, f"{kind} after {fault}")
    if out.status == "ok":
        err, value, (_, nfired, ffired), second = out.value
        if nfired:
            ctx.fault("library_error", nfired)
        if nfired + ffired and err is None:
            raise Violation("failure not reported", f"{kind} {fault}")
        if second:
            raise Violation("repeated call fails", f"{kind}, same process: {second}")
        if again_here and err is not None:
            judge(value, f"repeated after {fault} in the same process")
            return
    elif out.status == "crash":
        ctx.fault("crash")
    else:
        raise Violation("call fails", f"{kind} {fault}: {out!r} {out.trace[-300:]}")
    bystanders(simfs.snapshot(root), f"after {fault}")
    again = process(names)
    ctx.log("again", again.brief(), again.value)
    if again.status != "ok" or again.value[0]:
        raise Violation("repeated call fails", f"{kind} after {fault}: {again!r} {again.value}")
    judge(again.value[1], f"repeated after {fault}")
