"""R01: a seeded job is exactly reproducible in any environment."""
import copy
import os
import random

from sim import clock, host, pool, rng
from sim.core import Choices, Discard, Violation
from sim.peer import Peer
from model import jobs
from . import joblib as jl
from .f01 import diff

PEERS = []
ZONES = ["UTC", "America/Denver", "Asia/Kolkata", "Pacific/Apia", "Europe/Berlin"]


def load_all():
    jl.prepare()


def prepare():
    load_all()
    # two other hash seeds per explorer
    base = int(os.environ.get("PYTHONHASHSEED", "0") or 0)
    for k in (1, 2):
        PEERS.append(Peer((base * 977 + 101 * k) % 4294967295, "props.r01"))


def world_of(ch):
    """Everything about a process that must not matter."""
    return {"between": ch.bool(0.3), "rng": ch.seed32(), "entropy": ch.seed32(), "clock": ch.pick([1.6e9, 0.0, 1.7e9 + 0.9]),
            "tz": ch.pick(ZONES), "schedule": ch.seed32(), "cpus": ch.range(1, 6),
            "bufsize": ch.pick([None, 512]), "listing": ch.seed32(),
            "env": {"LANG": ch.pick(["C", "en_US.UTF-8"]), "HOME": ch.pick(["/root", "/nowhere"]),
                    "COLUMNS": ch.pick(["80", "13"]), "USER": ch.pick(["root", "x y"]),
                    "LC_ALL": ch.pick(["C.UTF-8", "de_DE.UTF-8", ""]),
                    "OMP_NUM_THREADS": ch.pick(["1", "4"])}}


def in_peer(job, root, w, script):
    """Runs the job in a new simulated process in environment w."""
    log = []

    def setup(proc):
        rng.pollute(w["rng"])
        rng.entropy(w["entropy"])
        clock.Clock([w["clock"]]).install()
        plan = pool.Plan(Choices(seed=w["schedule"]), cpus=w["cpus"])
        pool.install(plan)
        proc.res.extra["plan"] = plan.log

    def order(names):
        names = list(names)
        random.Random(w["listing"]).shuffle(names)
        return names

    def between():
        # others draw while the job exists but does not run yet
        start = jobs.open_driver(job["driver"], copy.deepcopy(job["params"]))
        rng.pollute(w["rng"] ^ 0x5A5A)
        start()

    body = between if w["between"] and not script else jl.body(job, script)
    out = host.run_process(body, root, setup=setup, bufsize=w["bufsize"],
                           env=dict(w["env"], TZ=w["tz"]), order=order)
    out.extra["plan"] = list(out.extra.get("plan", log))
    return out


def run(ch, ctx):
    job = jobs.make_job(ch, "a", boot=True if ch.bool(0.6) else None)
    if job["boot"] and ch.bool(0.35):
        job["params"]["num_threads"] = ch.pick([2, 3, -1])
    script = ch.bool(0.1)
    if script:
        job = jobs.with_yaml(job)
    n = ch.range(2, 3)
    outs, datas, worlds = [], [], []
    for k in range(n):
        w = world_of(ch)
        where = ch.int(3)
        if job["boot"] and job["params"].get("num_threads") == -1:
            w["cpus"] = worlds[0]["cpus"] if worlds else w["cpus"]
        jl.lay(ctx.root, [job])
        if where == 0:
            o = in_peer(job, ctx.root, w, script)
        else:
            o = PEERS[where - 1].run(job, ctx.root, w, script)
        jl.no_hang(o, "job")
        outs.append(o)
        datas.append(jl.fs.snapshot(ctx.root))
        worlds.append(dict(w, interpreter=where))
        ctx.log("run", k, where, sorted(w.items(), key=str), o.brief(),
                len(datas[-1].get(job["out"]) or b""))
    ctx.count("executions", n)
    ctx.fault("other_hash_seed", sum(1 for w in worlds if w["interpreter"]))
    ctx.fault("worker_schedules", sum(1 for o in outs if o.extra.get("plan")))
    ctx.fault("ambient_states", n)
    ctx.nontrivial = job["boot"]
    ctx.state(*jl.tag(job), job["params"].get("num_threads"), [w["interpreter"] for w in worlds],
              [w["tz"] for w in worlds])
    ctx.sample = {"job": jl.tag(job), "threads": job["params"].get("num_threads"),
                  "seed": job["params"].get("random_seed"), "worlds": worlds}
    for k in range(1, n):
        if outs[k].brief() != outs[0].brief():
            raise Violation("outcome not reproducible",
                            f"{job['driver']}: {outs[k]!r} and {outs[0]!r}")
        if not outs[0].good:
            continue
        for rel in [job["out"]] + job["extra"]:
            a, b = datas[0].get(rel), datas[k].get(rel)
            if a != b:
                raise Violation("output not reproducible",
                                f"{job['driver']} seed {job['params'].get('random_seed')}: "
                                + diff(a, b))
