"""Bootstrap limits a job may write.

With few records the distribution of a statistic over all resamples can be enumerated. The
limits a job writes are empirical percentiles of it, so that they lie between exact quantiles
a little below and above; with two or three records these are the same atom and the limit is
known exactly.
"""
import itertools
import math

from . import reference as ref

MAX_ATOMS = 3300


def resamples(n, block):
    """(indexes, weight) of all resamples of n units; weights add up to 1."""
    if block <= 1:
        total = float(n) ** n
        for c in itertools.combinations_with_replacement(range(n), n):
            w = math.factorial(n)
            for i in set(c):
                w //= math.factorial(c.count(i))
            yield c, w / total
        return
    k = -(-n // block)
    for starts in itertools.product(range(n), repeat=k):
        idx = [(s + j) % n for s in starts for j in range(block)][:n]
        yield idx, 1.0 / n ** k


def size(n, block):
    if block <= 1:
        return math.comb(2 * n - 1, n)
    return n ** -(-n // block)


class Unknown(Exception):
    pass


def quantile(atoms, p):
    """atoms: sorted [(value, weight)]."""
    if p <= 0:
        return atoms[0][0]
    acc = 0.0
    for v, w in atoms:
        acc += w
        if acc >= p - 1e-12:
            return v
    return atoms[-1][0]


def bounds(units, block, stat, alpha, iters):
    """{"low": (a, b), "high": (a, b), "na": bool}; stat gives the value for a list of units.
    Raises Unknown when the model cannot say."""
    n = len(units)
    if n == 0 or size(n, block) > MAX_ATOMS:
        raise Unknown
    if stat(units) is None:
        return {"na": "must"}
    dist = {}
    undefined = 0.0
    for idx, w in resamples(n, block):
        v = stat([units[i] for i in idx])
        if v is NotImplemented or isinstance(v, ref.Loose):
            raise Unknown
        if v is None:
            undefined += w
            continue
        v = float(v)
        k = round(v, 7)
        if k in dist:
            dist[k][1] += w
        else:
            dist[k] = [v, w]
    if stat(units) is NotImplemented or isinstance(stat(units), ref.Loose):
        raise Unknown
    if not dist:
        return {"na": "must"}
    total = sum(w for _, w in dist.values())
    atoms = sorted((v, w / total) for v, w in dist.values())
    # the number of resamples for which the statistic is defined
    eff = iters * total - 6 * math.sqrt(iters * total * (1 - total) + 1e-12)
    if eff < 20:
        raise Unknown
    out = {}
    for name, q in (("low", alpha / 2), ("high", 1 - alpha / 2)):
        d = 6.5 * math.sqrt(q * (1 - q) / eff) + 2.0 / eff
        # the ends need more care: a small q with a skew binomial
        d = max(d, 24.0 / eff)
        out[name] = (quantile(atoms, q - d), quantile(atoms, q + d))
    top = max(w for _, w in atoms)
    spread = atoms[-1][0] - atoms[0][0]
    out["na"] = "may" if len(atoms) == 1 or spread < 5e-7 or eff * math.log(top) > -30 else "no"
    return out


def points(job):
    """[(key, nstats or None, units, block, stat)] of the rows of the output of a job."""
    return {"agg_stat": agg_stat, "agg_eclv": agg_eclv, "agg_mode": agg_mode}[job["driver"]](job)


def block_of(p, n):
    return int(math.sqrt(n)) if ref.truth(p["circular_block_bootstrap"]) else 1


def in_order(rows, p, n):
    """Rows in order of time, as blocks are made of them."""
    keys = [(str(r["fcst_valid_beg"]), int(r["fcst_lead"])) for r in rows]
    if block_of(p, n) > 1 and len(set(keys)) != len(keys):
        raise Unknown
    return [r for _, r in sorted(zip(keys, rows), key=lambda x: x[0])]


def agg_stat(job):
    p = job["params"]
    if p["line_type"] not in ref.VALUE_TYPES:
        return
    rows = job["rows"]
    if ref.truth(p["event_equal"]):
        rows = ref.equalized_records(rows, p)
    for axis in ("1", "2"):
        ser = p["series_val_" + axis]
        if axis == "2" and not ser:
            break
        fields = list(ser) + [p["indy_var"], "stat_name"]
        var = next(iter(p["fcst_var_val_" + axis]))
        mine = [r for r in rows if r["fcst_var"] == var]
        for pt in ref.product([ser[k] for k in ser] + [ref.indy_values(p, rows),
                                                              p["list_stat_" + axis]]):
            if any(";" in x for x in pt):
                continue
            pr = ref.pick(mine, dict(zip(fields, pt)))
            if not pr:
                continue
            pr = ref.base_rate(p["line_type"], pr, rows, dict(zip(ser, pt)))
            try:
                units = in_order(pr, p, len(pr))
            except Unknown:
                continue
            yield (pt + (var,), units, block_of(p, len(pr)),
                   lambda u, st=pt[-1]: ref.statistic(st, u))
        for key, ka, kb, op in ref.derived_points(p, axis):
            if op not in ("DIFF", "RATIO", "SS"):
                continue
            ra, rb = (ref.pick(mine, dict(zip(fields, k))) for k in (ka, kb))
            if not ra or not rb:
                continue
            ra, rb = (ref.base_rate(p["line_type"], x, rows, dict(zip(ser, k)))
                      for x, k in ((ra, ka), (rb, kb)))
            try:
                ra, rb = in_order(ra, p, len(ra)), in_order(rb, p, len(rb))
            except Unknown:
                continue
            if [ref.case_of(r) for r in ra] != [ref.case_of(r) for r in rb] \
                    or len({ref.case_of(r) for r in ra}) != len(ra):
                continue

            def stat(u, sa=ka[-1], sb=kb[-1], op=op):
                va = ref.statistic(sa, [x for x, _ in u])
                vb = ref.statistic(sb, [y for _, y in u])
                under = {"RATIO": vb, "SS": va}.get(op)
                if isinstance(under, (int, float)) and abs(under) < 0.02:
                    return NotImplemented       # the rounding of both is magnified
                return ref.derived(op, va, vb)
            yield tuple(key) + (var,), list(zip(ra, rb)), block_of(p, len(ra)), stat


def agg_eclv(job):
    p = job["params"]
    if ref.truth(p["event_equal"]):
        return
    ser = p["series_val_1"]
    step = p["cl_step"]
    k = int(math.ceil((1 - step) / step - 1e-9))
    for pt in ref.product(ser.values()):
        pr = ref.pick(job["rows"], dict(zip(ser, pt)))
        n = len(pr)
        keys = [(str(r["fcst_valid_beg"]), int(r["fcst_lead"])) for r in pr]
        if block_of(p, n) > 1 and len(set(keys)) != n:
            continue
        for i in range(k):
            cl = step * (i + 1)
            yield pt + ("0", f"{cl:.7f}"), pr, block_of(p, n), lambda u, cl=cl: ref.eclv(u, cl)


def agg_mode(job):
    p = job["params"]
    if ref.truth(p["event_equal"]):
        return
    ser = p["series_val_1"]
    var = next(iter(p["fcst_var_val_1"]))
    rows = [r for r in job["rows"] if r["fcst_var"] == var]
    pts = ref.product(ser.values())
    for iv in p["indy_vals"]:
        mine = [r for r in rows if str(r[p["indy_var"]]) == iv]
        of = {pt: ref.pick(mine, dict(zip(ser, pt))) for pt in pts}
        cases = sorted({str(r["fcst_valid"]) for rs in of.values() for r in rs})
        for pt in pts:
            if not of[pt]:
                continue
            units = [[r for r in of[pt] if str(r["fcst_valid"]) == c] for c in cases]
            for st in p["list_stat_1"]:
                def stat(u, st=st):
                    rs = [r for x in u for r in x]
                    if not rs:          # only cases of other series were drawn
                        return NotImplemented if st.startswith("OBJA") else \
                            0 if st in ("OBJHITS", "OBJMISSES", "OBJFAS") else None
                    return ref.mode_statistic(st, rs)
                yield pt + (iv, st, var), units, 1, stat


def problems(job, data, iters):
    """(problems, number of limits compared)"""
    from .jobs import parse
    p = job["params"]
    header, got = parse(data)
    bad, done = [], 0
    if not header or "stat_btcl" not in header:
        return [], 0                        # no rows at all; F01 judges that
    first = "y_pnt_i" if "y_pnt_i" in header else "stat_value"
    skip = {first, "stat_btcl", "stat_btcu", "nstats"}
    keycols = [i for i, c in enumerate(header) if c not in skip]
    lo, hi = header.index("stat_btcl"), header.index("stat_btcu")
    have = {}
    for r in got:
        if len(r) != len(header):
            return [f"row with {len(r)} cells: {r}"], 0
        have.setdefault(tuple(ref.canon(r[i]) for i in keycols), []).append((r[lo], r[hi]))
    for key, units, block, stat in points(job):
        k = tuple(ref.canon(str(x)) for x in key)
        if len(have.get(k, [])) != 1:
            continue                                # F01 judges rows
        try:
            b = bounds(units, block, stat, p["alpha"], iters)
        except Unknown:
            continue
        low, high = have[k][0]
        done += 1
        if b["na"] == "must":
            if low != "NA" or high != "NA":
                bad.append(f"limits ({low}, {high}) of {key}, for which there can be none")
            continue
        if low == "NA" or high == "NA":
            if b["na"] == "no" or low != high:
                bad.append(f"limits ({low}, {high}) of {key}, expected {b['low']} to {b['high']}")
            continue
        tol, rel = (2e-5, 2e-5) if "(" in str(key) else (3e-7, 1e-6)
        for name, x in (("low", low), ("high", high)):
            a, c = b[name]
            x = float(x)
            if not a - tol - rel * abs(a) <= x <= c + tol + rel * abs(c):
                bad.append(f"{name} limit of {key} is {x}, expected {a} to {c} ({len(units)} "
                           f"units, block length {block}, alpha {p['alpha']}, {iters} resamples)")
    return bad, done
