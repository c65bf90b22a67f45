"""Reference model: what the output of a job has to contain.

Written from the definitions of the statistics, independent of the package. It covers the rows
and counts of every driver and the statistic values of the line types listed in VALUE_TYPES;
bootstrap limits are checked for presence and order only (their content is the subject of B01
and B02).
"""
import math
import re
from collections import Counter

VALUE_TYPES = ("sl1l2", "ctc", "nbr_ctc", "grad", "vl1l2", "sal1l2", "vcnt", "rps", "ecnt",
               "nbr_cnt", "val1l2", "ssvar", "pct", "mctc")

NA = None


class Loose:
    """A value so close to the edge of its definition that rounding may make it undefined."""

    def __init__(self, value):
        self.value = value


# ---------------------------------------------------------------- statistics
def wsum(rows, col):
    n = math.fsum(r["total"] for r in rows)
    return math.fsum(r[col] * r["total"] for r in rows) / n


def stdev(mean, sq, n):
    v = (n * sq - (n * mean) ** 2 / n) / (n - 1)
    if v < -1e-9:
        return NA
    if v < 1e-9:
        return Loose(0.0)
    return math.sqrt(v)


def div(a, b):
    return NA if b == 0 else a / b


def probability(name, rows):
    yes, no = (sum(r[k] for r in rows) for k in ("oy_i", "on_i"))
    base = yes / (yes + no)
    if name == "NI":
        return yes + no
    if name == "ROC_AUC":
        # the curve of one bin is the diagonal
        return 0.5
    if name in ("BASER", "CALIBRATION"):
        return base
    rel = (rows[0]["thresh_i"] - base) ** 2
    res = (base - rows[0]["o_bar"]) ** 2
    unc = base * (1 - base)
    return {"UNCERTAINTY": unc, "RELIABILITY": rel, "RESOLUTION": res, "BRIER": rel - res + unc,
            "BSS_SMPL": div(res - rel, unc)}[name]


def statistic(name, rows):
    """Value of a statistic over records; None when undefined."""
    name = name.upper()
    if not rows:
        return NA
    if "bin_n" in rows[0] and name != "SSVAR_TOTAL":
        rows = [dict(r, total=r["bin_n"]) for r in rows]
    n = sum(r["total"] for r in rows)
    w = lambda c: wsum(rows, c)  # noqa: E731
    if name.endswith("_TOTAL"):
        return n
    if name.startswith("ECNT_"):
        return ensemble(name[5:], rows)
    if name.startswith("NBR_"):
        name = name[4:]
    if "n_cat" in rows[0]:
        hit = sum(r[f"fi_oj_{k}"] for r in rows for k in (0, 4, 8))
        return div(hit - rows[0]["ec_value"] * n, n - rows[0]["ec_value"] * n)
    if "oy_i" in rows[0]:
        return probability(name[5:], rows)
    if "fbs" in rows[0]:
        o, f = w("o_rate"), w("f_rate")
        return {"FBS": w("fbs"), "F_RATE": f, "O_RATE": o, "UFSS": 0.5 + o / 2,
                "AFSS": div(2 * f * o, f * f + o * o),
                "FSS": 1 - div(w("fbs"), math.fsum(r["total"] * r["fbs"] / (1 - r["fss"])
                                                   for r in rows) / n)}[name]
    if "ufabar" in rows[0]:
        uf, vf, uo, vo, fo, ff, oo = (w(x) for x in (
            "ufabar", "vfabar", "uoabar", "voabar", "uvfoabar", "uvffabar", "uvooabar"))
        return corr(fo - uf * uo - vf * vo, (ff - uf * uf - vf * vf) * (oo - uo * uo - vo * vo))
    if name == "SSVAR_SPREAD":
        return root(w("var_mean"))
    if name.startswith("SSVAR_"):
        name = name[6:]
    if "fy_oy" in rows[0]:
        a, b, c, d = (sum(r[k] for r in rows) for k in ("fy_oy", "fy_on", "fn_oy", "fn_on"))
        if name == "BASER":
            return div(a + c, n)
        if name == "ACC":
            return div(a + d, n)
        if name == "FBIAS":
            return div(a + b, a + c)
        if name == "FMEAN":
            return div(a + b, n)
        if name == "PODY":
            return div(a, a + c)
        if name == "POFD":
            return div(b, b + d)
        if name == "PODN":
            return div(d, b + d)
        if name == "FAR":
            return div(b, a + b)
        if name == "CSI":
            return div(a, a + b + c)
        if name == "GSS":
            e = (a + b) * (a + c) / n
            return NA if abs(a + b + c - e) < 1e-12 else (a - e) / (a + b + c - e)
        if name == "HK":
            x, y = div(a, a + c), div(b, b + d)
            return NA if x is None or y is None else x - y
        if name == "HSS":
            e = (a + b) * (a + c) / n + (c + d) * (b + d) / n
            return NA if abs(n - e) < 1e-12 else (a + d - e) / (n - e)
        if name in ("ODDS", "ODDS1"):
            x, y = div(a, a + c), div(b, b + d)
            if x is None or y is None or name == "ODDS1" and not d:
                return NA  # ODDS1 divides by 1 - POFD
            return div(x * (1 - y), y * (1 - x))
        if name.startswith("CTC_"):
            return {"CTC_FN_ON": d, "CTC_FY_OY": a, "CTC_OY": a + c, "CTC_FN": c + d,
                    "CTC_FN_OY": c, "CTC_FY_ON": b, "CTC_ON": b + d, "CTC_FY": a + b}[name]
        if name == "BAGSS":
            from scipy.special import lambertw
            if 0 in (a, b, c):
                return NA
            o = a + c
            lf = math.log(o / c)
            ha = o - b / lf * float(lambertw(o / b * lf).real)
            return div(ha - o * o / n, 2 * o - ha - o * o / n)
        if name == "EDS":
            return NA if a == 0 or a == n else 2 * math.log((a + c) / n) / math.log(a / n) - 1
        if name == "SEDS":
            return NA if a == 0 or a == n else \
                math.log((a + b) * (a + c) / n / n) / math.log(a / n) - 1
        if name in ("EDI", "SEDI"):
            if 0 in (b, a, b + d, a + c) or name == "SEDI" and 0 in (c, d):
                return NA
            f, h = math.log(b / (b + d)), math.log(a / (a + c))
            if name == "EDI":
                return div(f - h, f + h)
            g, k = math.log(d / (b + d)), math.log(c / (a + c))
            return (f - h - g + k) / (f + h + g + k)
        if name == "ORSS":
            return div(a * d - b * c, a * d + b * c)
        if name == "LODDS":
            return NA if 0 in (a, b, c, d) else math.log(a) + math.log(d) - math.log(b) - math.log(c)
    if "fbar" in rows[0]:
        f, o, fo, ff, oo = (w(x) for x in ("fbar", "obar", "fobar", "ffbar", "oobar"))
        mse, me = ff + oo - 2 * fo, f - o
        if name == "FBAR":
            return f
        if name == "FE":
            return div(f - o, f)
        if name == "OBAR":
            return o
        if name == "FOBAR":
            return fo
        if name == "FFBAR":
            return ff
        if name == "OOBAR":
            return oo
        if name == "MAE":
            return w("mae")
        if name == "ME":
            return me
        if name == "ME2":
            return me * me
        if name == "MSE":
            return mse
        if name == "RMSE":
            return root(mse)
        if name == "BCMSE":
            return mse - me * me
        if name == "BCRMSE":
            return root(mse - me * me)
        if name == "MBIAS":
            return div(f, o)
        if name == "FSTDEV":
            return stdev(f, ff, n)
        if name == "OSTDEV":
            return stdev(o, oo, n)
        if name == "ESTDEV":
            return stdev(me, mse, n)
        if name == "ANOM_CORR":
            return corr(fo - f * o, (ff - f * f) * (oo - o * o))
        if name == "MSESS":
            s = stdev(o, oo, n)
            return s if s is None else (Loose(0.0) if isinstance(s, Loose) or s < 1e-3
                                        else 1 - mse / (s * s))
        if name == "SI":
            r = root(mse)
            return r if r is None or isinstance(r, Loose) else div(r, o)
        if name == "PR_CORR":
            v = (ff - f * f) * (oo - o * o)
            return corr(fo - f * o, v)
    if "fgbar" in rows[0]:
        fg, og, mg, eg = (w(x) for x in ("fgbar", "ogbar", "mgbar", "egbar"))
        return {"FGBAR": fg, "OGBAR": og, "MGBAR": mg, "EGBAR": eg, "S1": div(100 * eg, mg),
                "S1_OG": div(100 * eg, og), "FGOG_RATIO": div(100 * fg, og)}[name]
    if "fabar" in rows[0]:
        f, o, fo, ff, oo = (w(x) for x in ("fabar", "oabar", "foabar", "ffabar", "ooabar"))
        if name == "RMSFA":
            return root(ff)
        if name == "RMSOA":
            return root(oo)
        if name == "ANOM_CORR":
            return corr(fo - f * o, (ff - f * f) * (oo - o * o))
        if name == "ANOM_CORR_RAW":
            v = ff * oo
            return Loose(0.0) if v < 1e-12 else max(-1.0, min(1.0, fo / math.sqrt(v)))
    if "uvffbar" in rows[0]:
        uf, vf, uo, vo, fo, ff, oo, fs, os = (w(x) for x in (
            "ufbar", "vfbar", "uobar", "vobar", "uvfobar", "uvffbar", "uvoobar", "f_speed_bar",
            "o_speed_bar"))
        if name == "VL1L2_BIAS":
            return math.sqrt(ff) - math.sqrt(oo)
        if name == "VL1L2_FVAR":
            return ff - fs * fs
        if name == "VL1L2_OVAR":
            return oo - os * os
        if name in ("VL1L2_SPEED_ERR", "VCNT_SPEED_ERR"):
            return math.hypot(uf, vf) - math.hypot(uo, vo)
        if name in ("VL1L2_MSVE", "VCNT_MSVE"):
            return ff - 2 * fo + oo
        if name in ("VL1L2_RMSVE", "VCNT_RMSVE"):
            return root(ff - 2 * fo + oo)
        if name == "VCNT_ANOM_CORR":
            return corr(w("uvfoabar") - w("fa_speed_bar") * w("oa_speed_bar"),
                        (w("uvffabar") - w("fa_speed_bar") ** 2)
                        * (w("uvooabar") - w("oa_speed_bar") ** 2))
        if name == "VCNT_ANOM_CORR_UNCNTR":
            return corr(w("uvfoabar"), w("uvffabar") * w("uvooabar"))
        if name == "VCNT_FBAR":
            return fs
        if name == "VCNT_OBAR":
            return os
        if name == "VCNT_FS_RMS":
            return root(ff)
        if name == "VCNT_OS_RMS":
            return root(oo)
        if name == "VCNT_FSTDEV":
            return root(ff - fs * fs)
        if name == "VCNT_OSTDEV":
            return root(oo - os * os)
        if name == "VCNT_FBAR_SPEED":
            return math.hypot(uf, vf)
        if name == "VCNT_OBAR_SPEED":
            return math.hypot(uo, vo)
        if name == "VCNT_VDIFF_SPEED":
            return math.hypot(uf - uo, vf - vo)
        if name == "VCNT_SPEED_ABSERR":
            return abs(math.hypot(uf, vf) - math.hypot(uo, vo))
    if "rps_comp" in rows[0]:
        rps, comp = w("rps"), w("rps_comp")
        if name == "RPS":
            return rps
        if name == "RPS_COMP":
            return comp
        if name == "RPSS":
            climo = math.fsum(r["total"] * r["rps"] / (1 - r["rpss"]) for r in rows) / n
            return 1 - div(rps, climo)
    return NotImplemented


def ensemble(name, rows):
    """Ensemble statistics: means weighted by the number of pairs, spreads and root mean squares
    through their squares."""
    w = lambda c: wsum(rows, c)  # noqa: E731
    if name in ("RMSE", "RMSE_OERR", "SPREAD", "SPREAD_OERR", "SPREAD_PLUS_OERR"):
        c = name.lower()
        return root(math.fsum(r["total"] * r[c] ** 2 for r in rows) / sum(r["total"] for r in rows))
    if name in ("CRPSS", "CRPSS_EMP"):
        tail = name[5:].lower()
        return 1 - div(w("crps" + tail), w("crpscl" + tail))
    if name in ("N_GE_OBS", "N_LT_OBS"):
        return sum(r[name.lower()] for r in rows)
    if name in ("ME_GE_OBS", "ME_LT_OBS", "BIAS_RATIO"):
        ge, lt = (math.fsum(r["n_" + k] * r["me_" + k] for r in rows) / sum(r["n_" + k] for r in rows)
                  for k in ("ge_obs", "lt_obs"))
        return {"ME_GE_OBS": ge, "ME_LT_OBS": lt, "BIAS_RATIO": div(ge, abs(lt))}[name]
    return w(name.lower())


def root(x):
    if x < -1e-6:
        return NA
    if x < 1e-6:
        return Loose(math.sqrt(max(x, 0.0)))
    return math.sqrt(x)


def corr(cov, v):
    if v < 1e-9:
        return Loose(0.0)
    r = cov / math.sqrt(v)
    return Loose(r) if r > 1 - 1e-6 or v < 1e-6 else r


def derived(op, a, b):
    if a is NotImplemented or b is NotImplemented or isinstance(a, Loose) or isinstance(b, Loose):
        return NotImplemented
    if op == "SINGLE":
        return NotImplemented if b is None else a
    if op == "DIFF":
        return NA if a is None or b is None else a - b
    if op == "RATIO":
        return NA if a is None or b is None or b == 0 else a / b
    if op == "SS":
        return NA if a is None or b is None or a == 0 else (a - b) / a
    return NotImplemented


def mode_count(rows, code, area=False):
    """Number of objects, or their area, of a kind: who (F, O, A), simple or cluster (S, C, A),
    which (A, M, U)."""
    out = rows
    if code[0] == "F":
        out = [r for r in out if r["fcst_flag"] == 1]
    if code[0] == "O":
        out = [r for r in out if r["fcst_flag"] == 0]
    if code[1] == "S":
        out = [r for r in out if r["simple_flag"] == 1]
    if code[1] == "C":
        out = [r for r in out if r["simple_flag"] == 0]
    if code[2] == "M":
        out = [r for r in out if r["matched_flag"] == 1]
    if code[2] == "U":
        out = [r for r in out if r["matched_flag"] == 0]
    return sum(r["area"] for r in out) if area else len(out)


def mode_statistic(name, rows):
    """Value of an object statistic; the area of no object is zero or undefined."""
    if name[:3] in ("2D_", "3D_"):
        rows = [r for r in rows if r["object_type"] == name[:2].lower()]
        if name.startswith(("3D_VOL", "3D_OBJV")):
            rows = [dict(r, area=r["volume"]) for r in rows]
        name = name[3:].replace("VOLRAT", "AREARAT").replace("OBJV", "OBJA")
    if not rows:
        return NotImplemented
    area = name.startswith(("AREARAT_", "OBJA"))
    if name.startswith(("RATIO_", "AREARAT_")):
        _, a, b = name.split("_")
        return div(mode_count(rows, a, area), mode_count(rows, b, area)) \
            if not area or mode_count(rows, a) else Loose(0.0)
    if name in ("OBJHITS", "OBJAHITS"):
        return mode_count(rows, "ASM", area) / 2 or (Loose(0.0) if area else 0)
    if name in ("OBJMISSES", "OBJAMISSES"):
        return mode_count(rows, "OSU", area) or (Loose(0.0) if area else 0)
    if name in ("OBJFAS", "OBJAFAS"):
        return mode_count(rows, "FSU", area) or (Loose(0.0) if area else 0)
    if name.endswith(("CSI", "PODY", "FAR")):
        hits, miss, false = (mode_count(rows, x, area) for x in ("ASM", "OSU", "FSU"))
        if area and not (hits and miss and false):
            return NotImplemented
        hits /= 2
        if name.endswith("FAR"):
            return div(false, hits + false)
        return div(hits, hits + miss + (false if name.endswith("CSI") else 0))
    return NotImplemented


def eclv(rows, cl):
    a, b, c, d = (sum(r[k] for r in rows) for k in ("fy_oy", "fy_on", "fn_oy", "fn_on"))
    n = a + b + c + d
    if b + d == 0 or a + c == 0:
        return NA
    f, h, s = b / (b + d), a / (a + c), (a + c) / n
    if s in (0, 1):
        return NA
    if abs(cl - s) < 1e-9:
        return NotImplemented
    if cl < s:
        return (1 - f) - s / (1 - s) * (1 - cl) / cl * (1 - h)
    return h - (1 - s) / s * cl / (1 - cl) * f


# ---------------------------------------------------------------- selection
DATE = re.compile(r"\d{4}-\d\d-\d\d \d\d:\d\d:\d\d")


def members(value, field):
    """Field values a series value stands for."""
    if ";" in value:
        vals = value.split(";")
    elif ":" in value:
        vals = DATE.findall(value) or value.split(":")
    else:
        vals = [value]
    return set(vals)


def pick(rows, sel):
    """Records whose fields have the wanted values; sel: {field: series value}."""
    want = [(f, members(v, f)) for f, v in sel.items()]
    return [r for r in rows if all(str(r[f]) in m for f, m in want)]


def product(lists):
    out = [()]
    for vals in lists:
        out = [p + (v,) for p in out for v in vals]
    return out


CASE_FIELDS = ("", "fcst_valid_beg", "fcst_lead", "fcst_valid", "fcst_init", "fcst_init_beg",
               "VALID", "LEAD")


def case_of(r, indy=None):
    v = r["fcst_valid_beg"] if "fcst_valid_beg" in r else r["fcst_valid"]
    c = (str(v), str(r["fcst_lead"]))
    if indy and indy not in CASE_FIELDS:
        c += (str(r[indy]),)
    return c


def series_perms(series):
    """The series, as selections of single values."""
    keys = [k for k in series if k not in CASE_FIELDS]
    lists = []
    for k in keys:
        vals = []
        for v in series[k]:
            vals += [v] if k.startswith("fcst_valid") else v.split(":")
        lists.append(vals)
    return [dict(zip(keys, p)) for p in product(lists)]


def equalize(rows, series, indy, fixed=None):
    """Indexes of the rows whose case all series have."""
    perms = series_perms(series)
    for var, vals in (fixed or {}).items():
        if var not in CASE_FIELDS:
            perms = [dict(p, **{var: v}) for p in perms for v in vals]
    common = None
    for p in perms:
        cs = {case_of(r, indy) for r in rows if all(str(r[f]) == v for f, v in p.items())}
        common = cs if common is None else common & cs
    common = common or set()
    return [i for i, r in enumerate(rows) if case_of(r, indy) in common]


def equalized_records(rows, p):
    """Records left by the equalization that is part of a job (both axes, all statistics)."""
    fixed = {}
    for k, v in (p.get("fixed_vars_vals_input") or {}).items():
        fixed[k] = [x for vals in v.values() for x in vals] if isinstance(v, dict) else list(v)
    kept = set()
    two = bool(p.get("series_val_2"))
    for axis in ("1", "2") if two else ("1",):
        for var, stats in p["fcst_var_val_" + axis].items():
            for st in stats:
                ser = p["series_val_" + axis]
                idx = [i for i, r in enumerate(rows) if r["fcst_var"] == var
                       and r["stat_name"] == st
                       and all(str(r[k]) in {x for v in vs for x in members(v, k)}
                               for k, vs in ser.items())]
                sub = [rows[i] for i in idx]
                kept |= {idx[j] for j in equalize(sub, ser, p["indy_var"], fixed)}
    kept = sorted(kept)
    if two:
        both = {k: list(p["series_val_1"].get(k, [])) for k in p["series_val_1"]}
        for k, vs in p["series_val_2"].items():
            both[k] = both.get(k, []) + [v for v in vs if v not in both.get(k, [])]
        sub = [rows[i] for i in kept]
        kept = [kept[j] for j in equalize(sub, both, p["indy_var"], fixed)]
    return [rows[i] for i in kept]


def truth(x):
    return x in (True, "True", "true")


# ---------------------------------------------------------------- expected rows
def expect(job, rows=None):
    """Expected output: {"header": [...], "rows": [(key, {column: value})]} or None when the model
    does not cover the job. Values: number, None (NA), Loose, NotImplemented (unchecked)."""
    rows = job["rows"] if rows is None else rows
    if not rows:
        return None                 # the form of the output for a table without records is free
    f = {"agg_stat": expect_agg_stat, "sum_stat": expect_sum_stat, "scorecard": expect_scorecard,
         "agg_eclv": expect_eclv, "agg_mode": expect_mode, "ee_series": expect_ee_series,
         "ee_cases": expect_ee_cases}[job["driver"]]
    return f(job, rows)


def num(col, v, tol=None):
    return (col, v, tol)


SIGN = {"DIFF": "-", "RATIO": "/", "SS": " and ", "DIFF_SIG": "-", "SINGLE": "-"}


def derived_points(p, axis):
    """(key, values of the first series, values of the second, operation) of every derived row;
    the values are those of the series variables, the independent variable and the statistic."""
    keys = list(p["series_val_" + axis])
    groups = [v for vs in p["series_val_" + axis].values() for v in vs if ":" in v]
    named = {f"Group_y{axis}_{i + 1}": v for i, v in enumerate(groups)}
    for a, b, op in p["derived_series_" + axis]:
        ca, cb = a.split(" "), b.split(" ")
        sa, sb = dict(zip(keys, ca)), dict(zip(keys, cb))
        # the name stands in the column in which the series differ
        at = next((k for k in keys if sa[k] != sb[k]), keys[-1])
        st = ca[-1] if ca[-1] == cb[-1] else f"{ca[-1]},{cb[-1]}"
        for iv in p["indy_vals"]:
            yield (tuple(f"{op}({a}{SIGN[op]}{b})" if k == at else named.get(sa[k], sa[k])
                         for k in keys) + (iv, st),
                   tuple(named.get(sa[k], sa[k]) for k in keys) + (iv, ca[-1]),
                   tuple(named.get(sb[k], sb[k]) for k in keys) + (iv, cb[-1]), op)


def possible(job):
    """Whether the input of a job has what the job asks for, so that it has to succeed."""
    p, rows = job["params"], job["rows"]
    if not rows:
        return False
    if job["driver"] == "agg_mode" and truth(p["event_equal"]):
        return bool(against_cases(job, rows))
    if job["driver"] != "agg_stat":
        return True
    if truth(p["event_equal"]):
        rows = equalized_records(rows, p)
    for axis in ("1", "2"):
        var = [r for r in rows if r["fcst_var"] in p["fcst_var_val_" + axis]]
        names = list(p["series_val_" + axis]) + [p["indy_var"], "stat_name"]
        for _, ka, kb, _ in derived_points(p, axis):
            # compared series need the same cases, each of them once
            a, b = (sorted(case_of(r) for r in pick(var, dict(zip(names, k)))) for k in (ka, kb))
            if a != b or len(set(a)) != len(a):
                return False
    return True


def indy_values(p, rows):
    """Independent values of an aggregation job; probability bins are those of the data."""
    if p["indy_var"] != "thresh_i":
        return p["indy_vals"]
    return [str(t) for t in sorted({r["thresh_i"] for r in rows})]


def base_rate(lt, mine, rows, series):
    """Records of probability bins with the base rate of all bins of the series."""
    if lt != "pct" or not mine:
        return mine
    every = pick(rows, series)
    yes, no = (sum(r[k] for r in every) for k in ("oy_i", "on_i"))
    return [dict(r, o_bar=yes / (yes + no)) for r in mine]


def expect_agg_stat(job, rows):
    p = job["params"]
    lt = p["line_type"]
    if truth(p["event_equal"]):
        rows = equalized_records(rows, p)
    out = []
    header = None
    for axis in ("1", "2"):
        ser = p["series_val_" + axis]
        if axis == "2" and not ser:
            break
        if not rows:
            break
        fields = list(ser)
        lists = [ser[k] for k in fields]
        if p["indy_vals"]:
            fields = fields + [p["indy_var"]]
            lists = lists + [indy_values(p, rows)]
        fields = fields + ["stat_name"]
        lists = lists + [p["list_stat_" + axis]]
        var = next(iter(p["fcst_var_val_" + axis]))
        if header is None:
            header = fields + ["fcst_var", "stat_value", "stat_btcl", "stat_btcu", "nstats"]
        vals = {}
        for pt in product(lists):
            sel = dict(zip(fields, pt))
            pr = pick([r for r in rows if r["fcst_var"] == var], sel)
            pr = base_rate(lt, pr, rows, {k: sel[k] for k in ser})
            v = statistic(sel["stat_name"], pr) if lt in VALUE_TYPES else NotImplemented
            if not pr:
                v = NA
            n = len(pr)
            if any(";" in x for x in pt):
                n = NotImplemented
            vals[pt] = v
            out.append((pt + (var,), {"stat_value": v, "nstats": n, "boot": job["boot"] and bool(pr),
                                      "limits": NA if not job["boot"] or not pr
                                      else NotImplemented}))
        for key, ka, kb, op in derived_points(p, axis):
            va, vb = vals.get(tuple(ka), NotImplemented), vals.get(tuple(kb), NotImplemented)
            v = derived(op, va, vb)
            sub = [pick([r for r in rows if r["fcst_var"] == var], dict(zip(fields, k)))
                   for k in (ka, kb)]
            if not all(sub):
                v = NA
            tol = 6e-6
            if op in ("RATIO", "SS") and isinstance(v, (int, float)):
                # both statistics were rounded to seven digits before
                tol += 2e-7 * (1 + abs(v)) / abs(vb if op == "RATIO" else va)
            out.append((tuple(key) + (var,),
                        {"stat_value": v, "nstats": 0, "boot": False, "tol": tol,
                         "limits": NA if not job["boot"] else NotImplemented}))
    if header is None:
        return {"header": None, "rows": [], "keys": 0}
    return {"header": header, "rows": out, "keys": len(header) - 4}


def expect_sum_stat(job, rows):
    p = job["params"]
    if truth(p["event_equal"]):
        rows = equalized_records(rows, p)
    header = [c for c in job["cols"] if c not in job["fields"]]
    i = header.index("stat_value")
    out = []
    for r in rows:
        key = tuple("NA" if r[c] is None else str(r[c]) for c in header if c != "stat_value")
        if p["line_type"] == "sal1l2":
            # summary jobs compute the plain statistics from the anomalies
            r = dict(r, **{k.replace("abar", "bar"): r[k]
                           for k in ("fabar", "oabar", "foabar", "ffabar", "ooabar")})
        out.append((key, {"stat_value": statistic(r["stat_name"], [r])}))
    return {"header": header, "rows": out, "keys": None, "value_at": i}


def expect_scorecard(job, rows):
    p = job["params"]
    out = []
    for a, b, op in p["derived_series_1"]:
        ca, cb = a.split(" "), b.split(" ")
        lead = ca[2]
        sign = "-"
        name = f"{op}({a}{sign}{b})"
        for iv in p["indy_vals"]:
            d = []
            for c in (ca, cb):
                d.append({r["fcst_valid_beg"]: r["stat_value"] for r in rows
                          if r["model"] == c[1] and str(r["fcst_lead"]) == c[2]
                          and r[p["indy_var"]] == iv and r["fcst_lev"] == c[0]})
            if not d[0] or not d[1]:
                continue
            v = NotImplemented
            common = sorted(set(d[0]) & set(d[1]))
            if op == "DIFF" and len(common) == len(d[0]) == len(d[1]):
                v = math.fsum(d[0][k] - d[1][k] for k in common) / len(common)
            elif op == "SINGLE":
                v = math.fsum(d[0].values()) / len(d[0])
            elif op == "DIFF_SIG" and len(common) == len(d[0]) == len(d[1]):
                if p["stat_flag"] == "NCAR":
                    v = ncar_sig([d[0][k] for k in common], [d[1][k] for k in common],
                                 p["list_stat_1"][0])
                else:
                    v = emc_sig([d[0][k] for k in common], [d[1][k] for k in common],
                                p["list_stat_1"][0], p["ndays"])
            out.append(((name, iv, lead, p["list_stat_1"][0], ca[3], ca[0], "NA"),
                        {"stat_value": v}))
    header = [c for c in job["cols"] if c in ("stat_name", "stat_value", "fcst_var", "fcst_lev",
                                              "model", "fcst_thresh", "vx_mask", "fcst_lead")]
    return {"header": header, "rows": out, "keys": ("model", "vx_mask", "fcst_lead", "stat_name",
                                                    "fcst_var", "fcst_lev", "fcst_thresh")}


def ncar_sig(a, b, stat):
    from scipy.stats import t as tdist
    d = [x - y for x, y in zip(a, b)]
    n = len(d)
    m = math.fsum(d) / n
    s = math.sqrt(math.fsum((x - m) ** 2 for x in d) / (n - 1))
    if s == 0:
        return NotImplemented
    pv = 1 - 2 * float(tdist.sf(abs(m / (s / math.sqrt(n))), n - 1))
    ma, mb = math.fsum(a) / n, math.fsum(b) / n
    if stat in ("FBAR",):
        return NA
    if stat in ("BCMSE", "RMSE", "ME"):
        return -pv if abs(ma) > abs(mb) else pv
    if stat in ("CSI",):
        return -pv if abs(ma - 1) > abs(mb - 1) else pv
    return NotImplemented


def emc_sig(a, b, stat, ndays):
    n = len(a)
    d = [y - x for x, y in zip(a, b)]
    m = math.fsum(d) / ndays
    s = math.sqrt(math.fsum((x - m) ** 2 for x in d) / ndays)
    iv = round(1.960 * s / math.sqrt(n - 1), 6)
    ma, mb = math.fsum(a) / n, math.fsum(b) / n
    if iv == 0:
        return NotImplemented
    if stat.startswith("ME"):
        ds = abs(mb - ma) / iv
        if abs(mb) - abs(ma) < 0:
            ds = -ds
    elif stat.startswith("RMSE"):
        ds = (mb - ma) / iv
    else:
        ds = (ma - mb) / iv
    al = next(x for lim, x in ((80, (1.96, 2.576, 3.291)), (40, (2.0, 2.66, 3.46)),
                               (20, (2.042, 2.75, 3.646)), (-1, (2.228, 3.169, 4.587)))
              if ndays >= lim)
    d95, d99, d999 = ds, ds * al[0] / al[1], ds * al[0] / al[2]
    if any(abs(abs(x) - 1) < 0.002 for x in (d95, d99, d999)):
        return NotImplemented
    if abs(d999) >= 1:
        return math.copysign(1, ds)
    if abs(d99) >= 1:
        return math.copysign(0.99, ds)
    if abs(d95) >= 1:
        return math.copysign(0.95, ds)
    return 0


def expect_eclv(job, rows):
    p = job["params"]
    if truth(p["event_equal"]):
        fixed = {k: [x for vals in v.values() for x in vals]
                 for k, v in p["fixed_vars_vals_input"].items()}
        idx = equalize(rows, p["series_val_1"],
                       "stat_name" if truth(p["equalize_by_indep"]) else None, fixed)
        rows = [rows[i] for i in idx]
    ser = p["series_val_1"]
    step = p["cl_step"]
    k = int(math.ceil((1 - step) / step - 1e-9))
    cls = [step * (i + 1) for i in range(k)]
    out = []
    for pt in product(ser.values()):
        pr = pick(rows, dict(zip(ser, pt)))
        if not pr:
            return None
        for cl in cls:
            v = eclv(pr, cl)
            if v is None:
                return None
            out.append((pt + ("0", f"{cl:.7f}"),
                        {"y_pnt_i": v, "nstats": len(pr),
                         "limits": NA if not job["boot"] else NotImplemented}))
    header = list(ser) + ["thresh_i", "x_pnt_i", "y_pnt_i", "stat_btcl", "stat_btcu", "nstats"]
    return {"header": header, "rows": out, "keys": len(ser) + 2}


def expect_mode(job, rows):
    p = job["params"]
    ser = p["series_val_1"]
    fields = list(ser) + [p["indy_var"], "stat_name"]
    var = next(iter(p["fcst_var_val_1"]))
    if truth(p["event_equal"]):
        rows = against_cases(job, rows)
        if not rows:
            return None
    rows = [r for r in rows if r["fcst_var"] == var]
    out = []
    for pt in product(list(ser.values()) + [p["indy_vals"], p["list_stat_1"]]):
        sel = dict(zip(fields, pt))
        st = sel.pop("stat_name")
        pr = pick(rows, sel)
        out.append((pt + (var,), {"stat_value": mode_statistic(st, pr), "nstats": len(pr),
                                  "limits": NA if not job["boot"] else NotImplemented}))
    header = fields + ["fcst_var", "stat_value", "stat_btcl", "stat_btcu", "nstats"]
    return {"header": header, "rows": out, "keys": len(fields) + 1}


def expect_ee_series(job, rows):
    p = job["params"]
    fixed = {k: [x for vals in v.values() for x in vals]
             for k, v in p["fixed_vars_vals_input"].items()}
    kept = []
    for axis in ("1", "2"):
        ser = p["series_val_" + axis]
        if not ser:
            continue
        idx = [i for i, r in enumerate(rows)
               if all(str(r[k]) in {x for v in vs for x in v.split(":")} for k, vs in ser.items())]
        kept += [idx[j] for j in equalize([rows[i] for i in idx], ser, p["indy_var"], fixed)]
    kept = sorted(set(kept))
    if p["series_val_2"]:
        both = {k: list(p["series_val_1"].get(k, [])) for k in p["series_val_1"]}
        for k, vs in p["series_val_2"].items():
            both[k] = both.get(k, []) + [v for v in vs if v not in both.get(k, [])]
        sub = [rows[i] for i in kept]
        kept = [kept[j] for j in equalize(sub, both, p["indy_var"], fixed)]
    return expect_table(job, [rows[i] for i in kept])


def expect_ee_cases(job, rows):
    p = job["params"]
    if truth(p["event_equal"]) and rows:
        rows = against_cases(job, rows)
    return expect_table(job, rows)


def against_cases(job, rows):
    """Records whose case the earlier job kept for the same variable and series."""
    p = job["params"]
    kept = set()
    for axis in ("1", "2"):
        ser = p["series_val_" + axis]
        if not ser:
            continue
        for var in p["fcst_var_val_" + axis]:
            def mine(r):
                return r["fcst_var"] == var and all(
                    str(r[k]) in {x for v in vs for x in v.split(":")} for k, vs in ser.items())
            cases = {r["equalize"] for r in job["prev"] if mine(r)}
            kept |= {i for i, r in enumerate(rows)
                     if mine(r) and f"{r['fcst_valid']} {r['fcst_lead']}" in cases}
    return [rows[i] for i in sorted(kept)]


def expect_table(job, rows):
    header = list(job["cols"])
    return {"header": header, "rows": [(tuple(cell(r[c]) for c in header), {}) for r in rows],
            "keys": None, "table": True}


def cell(x):
    if x is None:
        return "NA"
    if isinstance(x, (int, float)) and not isinstance(x, bool):
        return canon(str(x))
    return canon(str(x))


def canon(s):
    """Text of a cell, numbers written in one way."""
    try:
        v = float(s)
    except ValueError:
        return s
    if v != v or v in (float("inf"), float("-inf")):
        return s
    return f"{v:.10g}"


# ---------------------------------------------------------------- comparison
def close(got, want, tol=None):
    """Does a cell of the output hold the wanted value?"""
    if want is NotImplemented:
        return True
    if isinstance(want, Loose):
        if got in ("NA", "nan", ""):
            return True
        want = want.value
        tol = max(tol or 0, 2e-3)
    if want is None:
        return got in ("NA", "nan", "")
    try:
        v = float(got)
    except ValueError:
        return False
    t = 2e-6 + (tol or 0) + 1e-5 * abs(want)
    return abs(v - want) <= t


def problems(job, data, ordered=False, rows=None):
    """What is wrong with the output of a job; [] when it is right, None when not covered."""
    want = expect(job, rows)
    if want is None:
        return None
    if data is None:
        if job["driver"] == "scorecard" and not want["rows"]:
            return []
        return ["no output file"]
    from model.jobs import parse
    if data and not data.endswith(b"\n"):
        return ["the output ends in the middle of a line"]
    header, got = parse(data)
    if want["header"] is None or (want.get("table") and not want["rows"]):
        return [] if not got else [f"{len(got)} rows, expected none"]
    if want.get("table") and header is not None and "equalize" in header \
            and "equalize" not in want["header"]:
        k = header.index("equalize")
        header = header[:k] + header[k + 1:]
        got = [r[:k] + r[k + 1:] for r in got]
    bad = []
    if header is None:
        return ["empty output"]
    if list(header) != list(want["header"]):
        if sorted(header) != sorted(want["header"]):
            return [f"header {header}, expected {want['header']}"]
        bad.append(f"columns in another order: {header}")
    for r in got:
        if len(r) != len(header):
            return [f"row with {len(r)} cells: {r}"]
    recs = [dict(zip(header, r)) for r in got]
    if want["keys"] is None:
        value = [c for c in header if c == "stat_value"] if not want.get("table") else []
        keycols = [c for c in want["header"] if c not in value]
    elif isinstance(want["keys"], tuple):
        keycols = list(want["keys"])
    else:
        keycols = want["header"][:want["keys"]]
    have = {}
    for r in recs:
        have.setdefault(tuple(canon(r[c]) for c in keycols), []).append(r)
    need = {}
    for k, v in want["rows"]:
        need.setdefault(tuple(canon(str(x)) for x in k), []).append(v)
    ca, cb = Counter({k: len(v) for k, v in have.items()}), \
        Counter({k: len(v) for k, v in need.items()})
    if ca != cb:
        miss, more = cb - ca, ca - cb
        if miss:
            bad.append(f"{sum(miss.values())} rows missing, e.g. {next(iter(miss))}")
        if more:
            bad.append(f"{sum(more.values())} rows too many, e.g. {next(iter(more))}")
        return bad
    for k, wants in need.items():
        rows_ = have[k]
        if len(rows_) > 1:
            # same key more than once: compare as a set of values
            for col in ("stat_value", "nstats"):
                if not all(col in w for w in wants):
                    continue
                left = list(rows_)
                for w in wants:
                    hit = next((r for r in left if close(r[col], w[col], w.get("tol"))), None)
                    if hit is None:
                        bad.append(f"{col} of {k}: no row has {show(w[col])}")
                        break
                    left.remove(hit)
            continue
        r, w = rows_[0], wants[0]
        for col in ("stat_value", "nstats", "y_pnt_i"):
            if col in w and not close(r[col], w[col], w.get("tol")):
                bad.append(f"{col} of {k} is {r[col]}, expected {show(w[col])}")
        if "limits" in w and w["limits"] is None:
            for col in ("stat_btcl", "stat_btcu"):
                if r[col] != "NA":
                    bad.append(f"{col} of {k} is {r[col]}, expected NA")
        if "limits" in w and w["limits"] is NotImplemented:
            lo, hi = r["stat_btcl"], r["stat_btcu"]
            try:
                if float(lo) > float(hi) + 1e-7:
                    bad.append(f"limits of {k}: {lo} > {hi}")
            except ValueError:
                pass
    return bad


def show(v):
    return v.value if isinstance(v, Loose) else v
