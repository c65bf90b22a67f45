"""Shared by the properties about whole jobs."""
import os

from sim import fs, host
from sim.core import Discard, Violation
from model import jobs, reference

REPO = os.environ.get("VERIF_REPO", "/repo")

prepare = jobs.load


def lay(root, joblist, extra=None):
    fs.wipe(root)
    jobs.lay_out(root, joblist)
    for rel, data in (extra or {}).items():
        p = os.path.join(root, rel)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as f:
            f.write(data)


def body(job, script=False):
    return jobs.script_body(job, REPO) if script else jobs.body(job)


def solo(root, job, script=False, extra=None, **kw):
    """The job alone in a new process in an otherwise empty world."""
    lay(root, [job], extra)
    out = host.run_process(body(job, script), root, **kw)
    return out, fs.snapshot(root)


def no_hang(out, what):
    if out.status == "hang":
        raise Violation("hang", what)


SIDES = {"write": fs.WRITE_OPS, "read": ("open_r", "read", "listdir")}


def choose_op(ch, ops, side=None, crash=False):
    """Number of the operation to hit."""
    side = side or ch.pick(["write", "read"])
    cand = [i for i, (k, _, _) in enumerate(ops)
            if k in SIDES[side] and (crash or fs.APPLICABLE.get(k))]
    if not cand:
        cand = [i for i, (k, _, _) in enumerate(ops) if crash or fs.APPLICABLE.get(k)]
    if not cand:
        raise Discard
    # half of the time by kind of operation first, so that rare kinds are not drowned by writes
    if ch.bool():
        kinds = sorted({ops[i][0] for i in cand})
        k = ch.pick(kinds)
        cand = [i for i in cand if ops[i][0] == k]
    return ch.pick(cand)


def choose_fault(ch, ops, side=None):
    """(number of the operation, fault) for an I/O error."""
    i = choose_op(ch, ops, side)
    f = {"kind": ch.pick(fs.APPLICABLE[ops[i][0]])}
    if ops[i][0] == "write":
        f["frac"] = ch.pick([0.5, 0.0, 0.9, 1.0])
    if ch.bool(0.3):
        f["sticky"] = True
    return i, f


def choose_crash(ch, ops):
    i = choose_op(ch, ops, crash=True)
    return i, {"kind": "crash", "frac": ch.pick([0.0, 0.5, 1.0]), "after": ch.bool()}


def shorts(ch, ops, p=0.3):
    """Short reads and writes, which are legal and have to be handled."""
    if not ch.bool(p):
        return {}
    cand = [i for i, (k, _, _) in enumerate(ops) if k in ("read", "write")]
    return {i: {"kind": "short", "frac": ch.pick([0.5, 0.1, 0.9])}
            for i in (cand if len(cand) < 40 else cand[:40]) if ch.bool(0.4)}


def note_faults(ctx, out):
    for _, op, _, kind in out.fired:
        ctx.fault(f"{kind}@{op}")


def bufsize(ch):
    return ch.pick([None, 8192, 512, 64])


def tag(job):
    p = job["params"]
    return (job["driver"], p.get("line_type"), job["boot"], str(p.get("event_equal")),
            bool(p.get("derived_series_1")), bool(p.get("series_val_2")))


def check_reference(job, data, kind="wrong output"):
    bad = reference.problems(job, data)
    if bad:
        raise Violation(kind, f"{job['driver']}: {bad[0]} ({len(bad)} in all)")
    return bad is not None


def power_loss(ch, root, out):
    """Loses what was written but not synced: any prefix may survive."""
    lost = 0
    for rel, base in sorted(out.synced.items()):
        p = os.path.join(root, rel)
        if os.path.isfile(p):
            size = os.path.getsize(p)
            if size > base and ch.bool():
                keep = base + ch.pick([0, (size - base) // 2, size - base - 1])
                with open(p, "r+b") as f:
                    f.truncate(keep)
                lost += 1
    return lost


def same_rows(a, b, value_cols, rel=1e-6, ab=2e-7):
    """Outputs as sets of rows; columns in value_cols up to rounding. Returns a problem or None."""
    ha, ra = jobs.parse(a)
    hb, rb = jobs.parse(b)
    if ha != hb:
        return f"header {hb} instead of {ha}"
    if ha is None:
        return None
    vi = [i for i, c in enumerate(ha) if c in value_cols]
    ki = [i for i in range(len(ha)) if i not in vi]
    da, db = {}, {}
    for rows, d in ((ra, da), (rb, db)):
        for r in rows:
            if len(r) != len(ha):
                return f"row with {len(r)} cells: {r}"
            d.setdefault(tuple(r[i] for i in ki), []).append([r[i] for i in vi])
    for k in da:
        if len(db.get(k, [])) != len(da[k]):
            return f"row {k} occurs {len(db.get(k, []))} times instead of {len(da[k])}"
    for k in db:
        if k not in da:
            return f"unexpected row {k}"
    for k in da:
        if len(da[k]) > 1:
            da[k].sort(key=sort_key)
            db[k].sort(key=sort_key)
        for x, y in zip(da[k], db[k]):
            for c, u, v in zip([ha[i] for i in vi], x, y):
                if u == v:
                    continue
                try:
                    fu, fv = float(u), float(v)
                except ValueError:
                    return f"{c} of {k}: {v} instead of {u}"
                if abs(fu - fv) > ab + rel * abs(fu):
                    return f"{c} of {k}: {v} instead of {u}"
    return None


def sort_key(vals):
    out = []
    for v in vals:
        try:
            out.append((0, round(float(v), 5), ""))
        except ValueError:
            out.append((1, 0.0, v))
    return out
