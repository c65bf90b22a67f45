"""Choice sequences, run context, violations and the minimiser.

One run of the simulator is a function of one list of integers. While exploring, the
integers come from a PRNG seeded with (seed, property, run number) and are recorded;
while replaying or minimising they come from a list, and every choice after its end is 0.
By convention 0 is the simplest alternative of every choice.
"""
import hashlib
import json
import random
import time


class Violation(Exception):
    """The property is broken in this run. `kind` names the way it is broken."""

    def __init__(self, kind, message, key=None):
        super().__init__(f"{kind}: {message}")
        self.kind = kind
        self.message = message
        # `key` identifies a known finding (specific call site / input / history)
        self.key = key


class HarnessError(Exception):
    """The machinery failed (never reported as a violation)."""


class Discard(Exception):
    """The generated run is outside the property's quantifier."""


def derive(*parts):
    h = hashlib.sha256("|".join(str(p) for p in parts).encode()).digest()
    return int.from_bytes(h[:8], "big")


class Choices:
    """The only source of nondeterminism of a run."""

    def __init__(self, seed=None, replay=None):
        self.rec = []
        self.replay = replay
        self.pos = 0
        self.rng = random.Random(seed) if replay is None else None

    def int(self, n):
        """0 <= result < n"""
        if n <= 1:
            return 0
        if self.replay is not None:
            v = self.replay[self.pos] if self.pos < len(self.replay) else 0
            self.pos += 1
            v = int(v) % n if v >= 0 else 0
        else:
            v = self.rng.randrange(n)
        self.rec.append(v)
        return v

    def range(self, lo, hi):
        """lo <= result <= hi, lo is simplest"""
        return lo + self.int(hi - lo + 1)

    def bool(self, p=0.5):
        """True with probability p; False is simplest"""
        if self.replay is not None:
            v = self.replay[self.pos] if self.pos < len(self.replay) else 0
            self.pos += 1
            v = 1 if v else 0
        else:
            v = 1 if self.rng.random() < p else 0
        self.rec.append(v)
        return bool(v)

    def pick(self, seq):
        """One element; the first is simplest"""
        return seq[self.int(len(seq))]

    def weighted(self, pairs):
        """[(weight, value), ...]; the first is simplest"""
        if self.replay is not None:
            v = self.replay[self.pos] if self.pos < len(self.replay) else 0
            self.pos += 1
            v = int(v) % len(pairs)
        else:
            x = self.rng.random() * sum(w for w, _ in pairs)
            v = 0
            for i, (w, _) in enumerate(pairs):
                if x < w:
                    v = i
                    break
                x -= w
            else:
                v = len(pairs) - 1
        self.rec.append(v)
        return pairs[v][1]

    def subset(self, seq, p=0.5):
        return [x for x in seq if self.bool(p)]

    def shuffle(self, seq):
        """A permutation; the identity is simplest"""
        rest = list(seq)
        out = []
        while rest:
            out.append(rest.pop(self.int(len(rest))))
        return out

    def seed32(self):
        """A number to seed a derived generator with (for bulk data)."""
        return self.int(2 ** 32)

    # a simulated process works on its own copy; these carry its draws back
    def mark(self):
        return len(self.rec)

    def export(self, mark):
        st = self.rng.getstate() if self.rng is not None else None
        return self.rec[mark:], self.pos, st

    def adopt(self, exported):
        rec, pos, st = exported
        self.rec.extend(rec)
        self.pos = pos
        if st is not None:
            self.rng.setstate(st)


class Ctx:
    """What a run reports."""

    def __init__(self):
        self.events = []
        self.faults = {}
        self.planned = {}
        self.states = set()
        self.counters = {}
        self.sim_time = 0.0
        self.sample = None
        self.nontrivial = False

    def log(self, *ev):
        self.events.append(ev)

    def fault(self, kind, n=1):
        self.faults[kind] = self.faults.get(kind, 0) + n

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def state(self, *sig):
        self.states.add(hashlib.sha256(repr(sig).encode()).hexdigest()[:16])

    def digest(self):
        return hashlib.sha256(repr(self.events).encode()).hexdigest()


def execute(run, ch):
    """Runs once; returns (violation or None, ctx)."""
    ctx = Ctx()
    try:
        run(ch, ctx)
        return None, ctx
    except Violation as v:
        ctx.log("violation", v.kind, v.message)
        return v, ctx


def minimise(run, choices, kind, budget_s=45.0, budget_n=600, log=None):
    """Shorter / smaller choice list that still breaks the property in the same way."""
    t0 = time.monotonic()
    tried = 0
    seen = set()

    def fails(cand):
        nonlocal tried
        k = tuple(cand)
        if k in seen:
            return None
        seen.add(k)
        if tried >= budget_n or time.monotonic() - t0 > budget_s:
            return None
        tried += 1
        ch = Choices(replay=list(cand))
        try:
            v, _ = execute(run, ch)
        except Exception:
            return None
        if v is not None and v.kind == kind:
            rec = list(ch.rec)
            while rec and rec[-1] == 0:
                rec.pop()
            return rec if (len(rec), sum(rec)) <= (len(cand), sum(cand)) else list(cand)
        return None

    best = list(choices)
    while best and best[-1] == 0:
        best.pop()
    improved = True
    while improved and tried < budget_n and time.monotonic() - t0 < budget_s:
        improved = False
        size = max(1, len(best) // 2)
        while size >= 1:
            i = 0
            while i < len(best):
                cand = best[:i] + best[i + size:]
                got = fails(cand)
                if got is not None and (len(got), sum(got)) < (len(best), sum(best)):
                    best = got
                    improved = True
                    continue
                if any(best[i:i + size]):
                    cand = best[:i] + [0] * len(best[i:i + size]) + best[i + size:]
                    got = fails(cand)
                    if got is not None and (len(got), sum(got)) < (len(best), sum(best)):
                        best = got
                        improved = True
                i += size
                if tried >= budget_n or time.monotonic() - t0 > budget_s:
                    break
            size //= 2
        for i in range(len(best)):
            for repl in (best[i] // 2, best[i] - 1) if i < len(best) else ():
                if i < len(best) and 0 < repl < best[i]:
                    got = fails(best[:i] + [repl] + best[i + 1:])
                    if got is not None and (len(got), sum(got)) < (len(best), sum(best)):
                        best = got
                        improved = True
    return best, tried


def dump_json(obj, path):
    with open(path, "w") as f:
        json.dump(obj, f, indent=1, default=str)
        f.write("\n")
