#!/usr/bin/env python3
"""Runs the check of one property:      check.py <ID>
   Re-executes a recorded failure:      check.py --replay <file>

Exit 0: held on everything explored. Exit 1 and a line `VIOLATION property=<id> replay=<path>`:
broken. Anything else: the check itself failed.
Environment: VERIF_SEED (default 1), VERIF_TIER=quick|thorough.
"""
import json
import os
import selectors
import signal
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
from sim import core  # noqa: E402

PY = sys.executable
NW = int(os.environ.get("VERIF_WORKERS", "8"))


def child_env(hashseed):
    env = {k: v for k, v in os.environ.items()
           if k not in ("PYTHONPATH", "PYTHONWARNINGS", "PYTHONSTARTUP")}
    env.update(PYTHONHASHSEED=str(hashseed), PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg",
               OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1", TZ="UTC",
               LC_ALL="C.UTF-8", PYTHONUTF8="1")
    return env


def hashseed(seed, w):
    return core.derive(seed, "hashseed", w, os.environ.get("VERIF_HASHES", "")) % (2 ** 32)


def replay(path):
    with open(path) as f:
        rep = json.load(f)
    p = subprocess.run([PY, "-B", os.path.join(VERIF, "sim", "worker.py"), "replay",
                        rep["property"], path], env=child_env(rep["hashseed"]),
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, cwd=VERIF,
                       timeout=600)
    for line in p.stdout.splitlines():
        d = json.loads(line)
        if d["t"] == "replay":
            return rep, d, p.stderr
    return rep, None, p.stderr


def main_replay(path):
    rep, d, err = replay(path)
    if d is None:
        print("replay failed to run:\n" + err[-3000:])
        return 2
    for e in d["events"]:
        print("  ", e)
    if not d["violated"]:
        print(f"replay of {rep['property']} does not violate the property on this tree")
        return 0
    same = d["digest"] == rep.get("digest")
    print(f"violated: {d['kind']}: {d['message']}")
    print("event log identical to the recorded one:", same)
    print(f"VIOLATION property={rep['property']} replay={path}")
    return 1


def main():
    if len(sys.argv) == 3 and sys.argv[1] == "--replay":
        return main_replay(os.path.abspath(sys.argv[2]))
    prop = sys.argv[1]
    raw = os.environ.get("VERIF_SEED", "1")
    try:
        seed = int(raw)
    except ValueError:
        seed = core.derive(raw) % (2 ** 31)
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    with open(os.path.join(VERIF, "props", "budget.json")) as f:
        conf = json.load(f)
    b = dict(conf["default"])
    b.update(conf.get(prop, {}))
    total = int(os.environ.get("VERIF_RUNS", b[tier]))
    cap = float(b[tier + "_cap_s"])
    print(f"check {prop} seed={seed} tier={tier} runs={total} cap={cap}s", flush=True)
    t0 = time.monotonic()
    procs = []
    sel = selectors.DefaultSelector()
    for w in range(NW):
        p = subprocess.Popen(
            [PY, "-B", os.path.join(VERIF, "sim", "worker.py"), "explore", prop, str(seed), tier,
             str(w), str(NW), str(total), str(cap)],
            env=child_env(hashseed(seed, w)), stdout=subprocess.PIPE, stderr=subprocess.PIPE,
            cwd=VERIF, start_new_session=True)
        p.w, p.buf, p.ended, p.errbuf = w, b"", False, b""
        procs.append(p)
        sel.register(p.stdout, selectors.EVENT_READ, (p, "out"))
        sel.register(p.stderr, selectors.EVENT_READ, (p, "err"))

    runs, errors, violations, known, discards = [], [], [], {}, 0
    open_fds = 2 * NW
    hard = cap + 300
    found_at = None

    def handle(p, d):
        nonlocal discards, found_at
        if d["t"] == "run":
            runs.append(d)
        elif d["t"] == "discard":
            discards += 1
        elif d["t"] == "error":
            errors.append(d)
        elif d["t"] == "found":
            found_at = found_at or time.monotonic()
        elif d["t"] == "violation":
            d["w"] = p.w
            violations.append(d)
        elif d["t"] == "known":
            known.setdefault(d["key"], [d["what"], 0])[1] += 1
        elif d["t"] == "end":
            p.ended = True

    def kill_all():
        for p in procs:
            if p.poll() is None:
                # workers remove their scratch directory when terminated
                try:
                    os.kill(p.pid, signal.SIGTERM)
                except ProcessLookupError:
                    pass

    killed = False
    while open_fds:
        for key, _ in sel.select(timeout=1.0):
            p, which = key.data
            data = os.read(key.fileobj.fileno(), 1 << 20)
            if not data:
                sel.unregister(key.fileobj)
                open_fds -= 1
                continue
            if which == "err":
                p.errbuf = (p.errbuf + data)[-8000:]
                continue
            p.buf += data
            while b"\n" in p.buf:
                line, p.buf = p.buf.split(b"\n", 1)
                handle(p, json.loads(line))
        if violations and not killed:
            killed = True
            kill_all()
        if time.monotonic() - t0 > hard:
            errors.append({"idx": -1, "trace": "wall clock limit of the whole check exceeded"})
            for p in procs:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
            break
    for p in procs:
        try:
            p.wait(timeout=20)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
        if not p.ended and not killed:
            errors.append({"idx": -1, "trace": f"explorer {p.w} died: " +
                           p.errbuf.decode(errors="replace")[-3000:]})
    clean_scratch([p.pid for p in procs])
    wall = time.monotonic() - t0

    # ------------------------------------------------------------ verdict
    status, vio_line = 0, None
    if violations:
        v = min(violations, key=lambda d: d["idx"])
        rdir = os.path.join(VERIF, "replays")
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, f"{prop}-seed{seed}-run{v['idx']}.json")
        rep = {"property": prop, "seed": seed, "tier": tier, "run": v["idx"],
               "hashseed": hashseed(seed, v["w"]), "kind": v["kind"], "message": v["message"],
               "choices": v["choices"], "original_choices": v["original"],
               "minimiser_executions": v["tried"], "digest": v["digest"], "events": v["events"],
               "reproduce": f"{PY} -B check.py --replay {path}"}
        core.dump_json(rep, path)
        ok = False
        for attempt in ("minimised", "original"):
            try:
                _, d, err = replay(path)
            except subprocess.TimeoutExpired:
                d, err = None, "timeout"
            if d is not None and d["violated"]:
                ok = True
                rep["replayed"] = {"violated": True, "kind": d["kind"],
                                   "identical_event_log": d["digest"] == rep["digest"]}
                core.dump_json(rep, path)
                break
            rep["choices"] = v["original"]
            rep["digest"] = None
            core.dump_json(rep, path)
        print(f"run {v['idx']}: {v['kind']}: {v['message']}")
        for e in v["events"][-40:]:
            print("   ", e[:400])
        print(f"choices: {len(v['original'])} recorded, {len(v['choices'])} after minimising; "
              f"replay {'reproduces' if ok else 'DOES NOT reproduce'}")
        if ok:
            status = 1
            vio_line = f"VIOLATION property={prop} replay={path}"
        else:
            errors.append({"idx": v["idx"], "trace": "violation did not replay"})
    if status == 0 and errors:
        for e in errors[:3]:
            print(f"ERROR run {e['idx']}:\n{e['trace']}")
        status = 2
    if status == 0 and len(runs) < min(total, b.get("min_runs", 16)):
        print(f"ERROR: only {len(runs)} runs completed")
        status = 2

    # ------------------------------------------------------------ evidence
    faults, counters, states, sim_time = {}, {}, set(), 0.0
    for r in runs:
        for k, n in r["faults"].items():
            faults[k] = faults.get(k, 0) + n
        for k, n in r["counters"].items():
            counters[k] = counters.get(k, 0) + n
        states.update(r["states"])
        sim_time += r["sim"]
    samples = [{"run": r["idx"], "case": r["sample"]} for r in
               sorted(runs, key=lambda r: r["idx"]) if "sample" in r][:5]
    digests = {r["digest"] for r in runs if r["nontrivial"]}
    meta = conf.get("meta", {}).get(prop, {})
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": meta.get("level", "exploration"),
        "coverage": {
            "evaluations": len(runs),
            "distinct_nontrivial": len(digests),
            "rule": meta.get("rule", ""),
            "samples": samples,
            "runs_per_hour": round(len(runs) / wall * 3600) if wall else 0,
            "seeds_per_hour": round(len(runs) / wall * 3600) if wall else 0,
            "discarded_runs": discards,
            "simulated_time_s": round(sim_time, 3),
            "simulated_time_note": meta.get("sim_time", "this property has no clock; simulated "
                                            "time is counted in seam operations (see counters)"),
            "faults_injected": faults,
            "distinct_states": len(states),
            "state_measure": meta.get("state_measure", ""),
            "counters": counters,
            "real_code": meta.get("real", []),
            "stubs": meta.get("stubs", []),
            "hash_seeds": [hashseed(seed, w) for w in range(NW)],
            "known_findings_seen": {k: n for k, (_, n) in known.items()},
        },
        "assumptions": meta.get("assumptions", []),
        "wall_s": round(wall, 2),
        "violations": 1 if status == 1 else 0,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    core.dump_json(ev, os.path.join(VERIF, "evidence", f"{prop}.json"))
    if os.environ.get("VERIF_DIGESTS"):
        with open(os.environ["VERIF_DIGESTS"], "w") as f:
            for r in sorted(runs, key=lambda r: r["idx"]):
                f.write(f"{r['idx']} {r['digest']}\n")
    for k, (what, n) in sorted(known.items()):
        print(f"KNOWN-FINDING: property={prop} {what} (seen in {n} runs)")
    print(f"{prop}: {len(runs)} runs, {len(digests)} distinct non-trivial, {len(states)} states, "
          f"faults {faults}, {wall:.1f}s")
    if vio_line:
        print(vio_line)
    return status


def clean_scratch(pids):
    """Removes what a terminated explorer left behind."""
    import shutil
    import tempfile
    for base in ("/dev/shm", tempfile.gettempdir()):
        if not os.path.isdir(base):
            continue
        for n in os.listdir(base):
            if n.startswith("vsim-"):
                mark = os.path.join(base, n, "owner")
                try:
                    with open(mark) as f:
                        owner = int(f.read())
                except (OSError, ValueError):
                    continue
                if owner in pids:
                    shutil.rmtree(os.path.join(base, n), ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
