#!/usr/bin/env python3
"""Tests of the simulator itself: selftest.py [ids]

1. Determinism: the same seed gives the same event logs when repeated, with another number of
   explorers and with other hash seeds.
2. Fidelity of the pool stubs: bootstrap calls and small programs give the same results and errors
   with the simulated pools as with the real ones.
"""
import json
import os
import subprocess
import sys
from concurrent.futures.process import BrokenProcessPool

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
sys.path.insert(0, os.environ.get("VERIF_REPO", "/repo"))
PY = "/opt/venv/bin/python"


def digests(prop, runs, **env):
    path = f"/dev/shm/selftest-{os.getpid()}.txt"
    e = dict(os.environ, VERIF_RUNS=str(runs), VERIF_DIGESTS=path, **env)
    r = subprocess.run([PY, "-B", "check.py", prop], cwd=VERIF, env=e, capture_output=True, text=True)
    with open(path) as f:
        d = dict(line.split() for line in f)
    os.unlink(path)
    return r.returncode, d


def determinism(props):
    bad = 0
    for p in props:
        n = 120
        a = digests(p, n)
        for what, env in (("repeated", {}), ("3 explorers", {"VERIF_WORKERS": "3"}),
                          ("other hashes", {"VERIF_HASHES": "x"})):
            b = digests(p, n, **env)
            diff = [k for k in a[1] if a[1][k] != b[1].get(k)]
            if diff or a[0] != b[0]:
                bad += 1
                print(f"{p} {what}: exit {a[0]}/{b[0]}, {len(diff)} of {len(a[1])} logs differ: {diff[:5]}")
        print(p, "checked", flush=True)
    return bad


def mean(v):
    import numpy as np
    return [np.mean(v)] if v.ndim == 2 else [[np.mean(r)] for r in v]


def broken(v):
    if v.ndim == 3:
        raise ValueError("no")
    return [0]


def killed(v):
    if v.ndim == 3:
        os._exit(3)
    return [0]


def square(x):
    if x == 13:
        raise KeyError(x)
    return x * x


def programs():
    import concurrent.futures as cf
    import multiprocessing as mp
    import numpy as np
    import metcalcpy.bootstrap as bs
    out = []

    def attempt(f):
        try:
            out.append(f())
        except Exception as e:
            # a broken pool is noticed when submitting or when waiting, with other words
            out.append((type(e).__name__,
                        "" if isinstance(e, BrokenProcessPool) else str(e)[:20]))
    data = np.random.default_rng(1).normal(size=(17, 2))
    for nt in (1, 2, 4, 7):
        for b in (None, 3):
            def boot():
                np.random.seed(nt)
                r = bs.bootstrap_and_value(data, mean, num_iterations=25, iteration_batch_size=b,
                                           num_threads=nt, save_distributions=True, block_length=4)
                return r.value, r.lower_bound, r.upper_bound, list(r.distributions)
            attempt(boot)
    attempt(lambda: bs.bootstrap_and_value(data, broken, num_iterations=9, num_threads=3).value)
    attempt(lambda: bs.bootstrap_and_value(data, killed, num_iterations=9, num_threads=3).value)

    def pool(kind):
        def f():
            with kind(3) as p:
                r = [p.map(square, range(7)), list(p.imap(square, range(5), 2)),
                     sorted(p.imap_unordered(square, range(6))), p.apply(square, (4,)),
                     p.apply_async(square, (5,)).get(), p.starmap(pow, [(2, 3), (3, 2)])]
                try:
                    p.map(square, [1, 13, 2])
                except KeyError as e:
                    r.append(repr(e))
                x = p.apply_async(square, (13,))
                x.wait()
                r.append((x.ready(), x.successful()))
            return r
        return f
    attempt(pool(mp.Pool))
    attempt(pool(mp.pool.ThreadPool))

    def ex(kind):
        def f():
            with kind(max_workers=3) as p:
                r = [list(p.map(square, range(7))), p.submit(square, 3).result(),
                     repr(p.submit(square, 13).exception())]
                fs = [p.submit(square, k) for k in range(5)]
                r.append(sorted(x.result() for x in cf.as_completed(fs)))
                d, n = cf.wait(fs)
                r.append((len(d), len(n)))
            try:
                p.submit(square, 1)
            except RuntimeError as e:
                r.append("closed")
            return r
        return f
    attempt(ex(cf.ProcessPoolExecutor))
    attempt(ex(cf.ThreadPoolExecutor))
    return repr(out)


def fidelity():
    real = programs()
    bad = 0
    from sim import core, pool
    for seed in range(12):
        pid = os.fork()
        if pid == 0:
            ch = core.Choices(seed=core.derive(seed))
            pool.install(pool.Plan(choices=ch, cpus=4, fifo=seed == 0))
            got = programs()
            if got != real:
                k = next((i for i, (a, b) in enumerate(zip(got, real)) if a != b), -1)
                print("pools differ", seed, "\n sim ", got[max(0, k - 100):k + 100], "\n real",
                      real[max(0, k - 100):k + 100])
            os._exit(got != real)
        bad += os.waitpid(pid, 0)[1] != 0
    print("pool fidelity:", "ok" if not bad else f"{bad} schedules differ")
    return bad


if __name__ == "__main__":
    ids = sys.argv[1:] or [c["property"] for c in json.load(open(VERIF + "/MANIFEST.json"))["checks"]]
    bad = fidelity() if len(sys.argv) == 1 or "pools" in ids else 0
    sys.exit(bool(bad + determinism([i for i in ids if i != "pools"])))
