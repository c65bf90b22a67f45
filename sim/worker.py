"""One explorer process: runs its share of the runs of one property."""
import importlib
import json
import os
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
REPO = os.environ.get("VERIF_REPO", "/repo")
if REPO not in sys.path:
    sys.path.insert(1, REPO)

from sim import core, host  # noqa: E402


def load(prop):
    return importlib.import_module(f"props.{prop.lower()}")


def known_keys(prop):
    keys = {}
    path = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                line = line.strip()
                if line:
                    d = json.loads(line)
                    if d.get("property") == prop and d.get("status") == "open":
                        keys[d["key"]] = d["what"]
    return keys


def main():
    out = os.fdopen(os.dup(1), "w", buffering=1)
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)

    def emit(**kw):
        out.write(json.dumps(kw, default=str) + "\n")
        out.flush()

    mode, prop = sys.argv[1], sys.argv[2]
    mod = load(prop)
    world = host.World()

    def stop(*_):
        for p in list(host.LIVE):
            p.kill()
        world.close()
        os._exit(3)

    signal.signal(signal.SIGTERM, stop)
    try:
        if hasattr(mod, "prepare"):
            mod.prepare()
        host.warm()

        def run(ch, ctx):
            world.fresh()
            ctx.root = world.root
            mod.run(ch, ctx)

        if mode == "replay":
            with open(sys.argv[3]) as f:
                rep = json.load(f)
            ch = core.Choices(replay=rep["choices"])
            v, ctx = core.execute(run, ch)
            emit(t="replay", violated=v is not None, kind=v.kind if v else None,
                 message=v.message if v else None, digest=ctx.digest(),
                 events=[repr(e) for e in ctx.events])
            return
        seed, tier, w, nw = int(sys.argv[3]), sys.argv[4], int(sys.argv[5]), int(sys.argv[6])
        total, cap = int(sys.argv[7]), float(sys.argv[8])
        known = known_keys(prop)
        t0 = time.monotonic()
        idx = w
        sub = []
        while idx < total and time.monotonic() - t0 < cap:
            ch = core.Choices(seed=core.derive(seed, prop, idx))
            t1 = time.monotonic()
            try:
                v, ctx = core.execute(run, ch)
            except core.Discard:
                emit(t="discard", idx=idx)
                idx += nw
                continue
            except Exception:
                emit(t="error", idx=idx, choices=ch.rec, trace=traceback.format_exc()[-3000:])
                break
            if v is not None and v.kind == "hang":
                # a loaded machine can make a run look stuck; a real hang is there again, and in
                # a process that has more time
                host.HANG_S *= 2.5
                v, ctx = core.execute(run, core.Choices(replay=list(ch.rec)))
                host.HANG_S /= 2.5
                if v is None or v.kind != "hang":
                    emit(t="discard", idx=idx)
                    idx += nw
                    continue
            rec = dict(t="run", idx=idx, digest=ctx.digest(), faults=ctx.faults,
                       states=sorted(ctx.states), counters=ctx.counters, sim=ctx.sim_time,
                       nontrivial=ctx.nontrivial, ms=round((time.monotonic() - t1) * 1000, 1),
                       nev=len(ctx.events))
            if ctx.sample is not None and len(sub) < 3:
                sub.append(1)
                rec["sample"] = ctx.sample
            emit(**rec)
            if v is not None and v.key is not None and v.key in known:
                emit(t="known", idx=idx, key=v.key, what=known[v.key])
            elif v is not None:
                emit(t="found", idx=idx, kind=v.kind)
                best, tried = core.minimise(run, ch.rec, v.kind)
                mv, mctx = core.execute(run, core.Choices(replay=list(best)))
                if mv is None or mv.kind != v.kind:
                    best, mv, mctx = list(ch.rec), v, ctx
                emit(t="violation", idx=idx, kind=mv.kind, message=mv.message,
                     choices=list(best), original=list(ch.rec), tried=tried,
                     digest=mctx.digest(), events=[repr(e) for e in mctx.events][-400:])
                break
            idx += nw
        emit(t="end", worker=w, wall=time.monotonic() - t0)
    finally:
        world.close()


if __name__ == "__main__":
    main()
