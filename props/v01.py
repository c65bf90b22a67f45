"""V01: the validation window follows one reading of the clock."""
import datetime as dt
import os
from zoneinfo import ZoneInfo

from sim import clock, fs as simfs, host
from sim.core import Violation
from . import vlib as vl


def prepare():
    vl.prepare()
    for z in vl.ZONES:
        ZoneInfo(z)


def local(t, zone):
    return dt.datetime.fromtimestamp(t, ZoneInfo(zone))


# moments around which something happens: local midnights, changes of daylight-saving time
DAYS = ["2021-03-14", "2021-11-07", "2021-03-28", "2021-10-31", "2020-02-29", "2022-01-01",
        "2021-12-31", "2021-06-15", "2011-12-31", "2021-04-04"]


def moment(ch, zone):
    d = dt.date.fromisoformat(ch.pick(DAYS))
    at = dt.datetime(d.year, d.month, d.day, tzinfo=ZoneInfo(zone)).timestamp()
    return at + ch.pick([-0.001, 0.0, -1.0, 1.0, 3600.0, -3600.0, 7200.0, 43200.0, 86399.0])


def run(ch, ctx):
    zone = ch.pick(vl.ZONES)
    t0 = moment(ch, zone)
    readings = [t0]
    for _ in range(ch.range(0, 3)):
        readings.append(readings[-1] + ch.pick([0.0, 0.002, 1.5, -1.5, 3600.0, -7200.0, 86400.0,
                                                -86400.0, 400000.0]))
    p = {}
    today = local(t0, zone).date()
    for key in ("start_date", "end_date"):
        if ch.bool(0.35):
            d = today + dt.timedelta(days=ch.pick([0, -1, 1, -400, 30]))
            p[key] = d.isoformat() if ch.bool() else d
    files = []
    names = ch.shuffle(["a.xml", "b.xml", "B.xml", "10.xml", "9.xml", "c.txt", "d.xml.bak", "e.yaml",
                        "f.g.xml", "xml"])[:ch.range(0, 7)]
    for n in names:
        if ch.bool(0.6):
            m = readings[0] + ch.pick([0.0, -1.0, -86400.0, -172800.0, 3600.0, 86400.0, -43200.0])
        else:
            m = moment(ch, zone)
        files.append((n, float(int(m * 1000)) / 1000))
    # the checked moment may lie right at the edge of the period
    if files and p and ch.bool(0.5):
        d = p.get("start_date") or p.get("end_date")
        d = dt.date.fromisoformat(d) if isinstance(d, str) else d
        edge = dt.datetime(d.year, d.month, d.day, tzinfo=ZoneInfo(zone)).timestamp()
        files[0] = (files[0][0], edge + ch.pick([0.0, -1.0, 86399.0, 86401.0, 90000.0]))
    order = vl.listing(ch)
    os.makedirs(os.path.join(ctx.root, "in"), exist_ok=True)
    for n, m in files:
        path = os.path.join(ctx.root, "in", n)
        with simfs._real_open(path, "wb") as f:
            f.write(b"<x/>")
        os.utime(path, ns=(int(m * 1e9), int(m * 1e9)))
    q = dict(p, input_xml_dir="in/" if ch.bool() else ctx.root + "/in/")

    def body():
        import metcalcpy.validate_mv_python as v
        clk = clock.Clock(readings).install()
        try:
            a = ("ok", tuple(x.isoformat()[:10] for x in v.get_testing_period(dict(q))))
        except SystemExit:
            raise
        except Exception as e:
            a = ("exc", type(e).__name__)
        mid = len(clk.given)
        # the selection reads the clock again
        clk.n = 0
        try:
            b = ("ok", list(v.get_test_xml(dict(q))))
        except Exception as e:
            b = ("exc", type(e).__name__)
        return a, b, clk.given[:mid], clk.given[mid:]

    out = host.run_process(body, ctx.root, order=order, env={"TZ": zone})
    if out.status != "ok":
        raise Violation("tool failed", repr(out))
    a, b, g1, g2 = out.value
    if a[0] == "ok":
        a = ("ok", tuple(dt.date.fromisoformat(x) for x in a[1]))
    ctx.log("window", zone, readings, sorted(p.items()), files, a, b, g1, g2)
    ctx.count("clock_readings", len(g1) + len(g2))
    ctx.fault("clock_step", sum(1 for x, y in zip(readings, readings[1:]) if abs(y - x) > 1))
    ctx.fault("midnight_crossed", sum(1 for x, y in zip(readings, readings[1:])
                                      if local(x, zone).date() != local(y, zone).date()))
    ctx.sim_time += abs(readings[-1] - readings[0])
    ctx.nontrivial = bool(files) or len(readings) > 1
    ctx.state(zone, [round(y - x, 3) for x, y in zip(readings, readings[1:])], sorted(p),
              len(files), local(t0, zone).time().isoformat())
    ctx.sample = {"zone": zone, "clock": [str(local(t, zone)) for t in readings],
                  "parameters": {k: str(v) for k, v in p.items()}, "period": str(a), "files": str(b)}

    def periods(given):
        """Periods that belong to one single moment."""
        out = []
        for t in given or [readings[0]]:
            day = local(t, zone).date()
            s = p.get("start_date", day - dt.timedelta(days=1))
            e = p.get("end_date", day)
            s = dt.date.fromisoformat(s) if isinstance(s, str) else s
            e = dt.date.fromisoformat(e) if isinstance(e, str) else e
            out.append((s, e))
        return out
    ok = periods(g1)
    if a[0] == "ok":
        if a[1] not in ok:
            raise Violation("period of no single moment",
                            f"{a[1][0]} - {a[1][1]} while the clock read "
                            f"{[str(local(t, zone)) for t in g1]}, parameters {p}")
        if a[1][1] < a[1][0]:
            raise Violation("inverted period accepted", f"{a[1]}")
    elif all(e >= s for s, e in ok):
        raise Violation("valid period rejected", f"{a} for {p} at {local(t0, zone)}")
    ok = periods(g2)
    if b[0] == "ok":
        fine = []
        for s, e in ok:
            if e < s:
                continue
            fine.append([q["input_xml_dir"] + n for n, m in sorted(files)
                         if n.endswith(".xml") and s <= local(m, zone).date() <= e])
        if b[1] not in fine:
            raise Violation("wrong selection", f"{b[1]} instead of {fine[:1]} in {zone}, files "
                            f"{[(n, str(local(m, zone))) for n, m in files]}, period {ok[:1]}")
    elif all(e >= s for s, e in ok):
        raise Violation("valid period rejected", f"{b} for {p} at {local(t0, zone)}")
