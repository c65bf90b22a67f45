"""Jobs: what users run.

A job is a plain dictionary: driver, parameters (file names relative to the world), the files
it needs, the name of its output and of other files it may write. The records the input file
was made from are kept, so that the reference model in model/reference.py can say what the output has
to contain. Structure comes from the run's choices, bulk numbers from a generator seeded with one choice.
"""
import copy
import datetime as dt
import itertools

import numpy as np

DRIVERS = ("agg_stat", "sum_stat", "scorecard", "agg_eclv", "agg_mode", "ee_series", "ee_cases")

# names that contain each other and names that look like numbers, also in one column with others
NAMES = [(5, ["M1", "M2", "gfs_v1.2"]), (2, ["M1", "M10", "M"]), (1, ["12", "GFS", "7"]),
         (1, ["24", "12", "7"]), (1, ["0.5", "1.5", "2.25"])]
LEADS = [30000, 0, 60000, 120000]
MASKS = ["EAST", "NMT", "CONUS"]
VARS = ["TMP", "DPT"]
LEV = "P100"
LEVS = [LEV, "P500"]
T0 = dt.datetime(2022, 5, 1)

# statistics per line type that the package can compute from the generated columns
STATS = {
    "sl1l2": ["FBAR", "OBAR", "ME", "RMSE", "MSE", "MAE", "FSTDEV", "OSTDEV", "PR_CORR", "MBIAS",
              "BCMSE", "BCRMSE", "MSESS", "ME2", "FOBAR", "FFBAR", "OOBAR", "SI", "ESTDEV",
              "SL1L2_TOTAL", "FE"],
    "ctc": ["CSI", "BASER", "ACC", "FBIAS", "FMEAN", "PODY", "POFD", "PODN", "FAR", "GSS", "HK",
            "HSS", "ODDS", "LODDS", "BAGSS", "EDS", "SEDS", "EDI", "SEDI", "ORSS", "CTC_TOTAL",
            "CTC_FN_ON", "CTC_FY_OY", "CTC_OY", "CTC_FN", "CTC_FN_OY", "CTC_FY_ON", "CTC_ON",
            "CTC_FY", "CTS_TOTAL", "ODDS1"],
    "grad": ["FGBAR", "OGBAR", "MGBAR", "EGBAR", "S1", "S1_OG", "FGOG_RATIO", "GRAD_TOTAL"],
    "vl1l2": ["VL1L2_BIAS", "VL1L2_FVAR", "VL1L2_OVAR", "VL1L2_SPEED_ERR", "VL1L2_MSVE",
              "VL1L2_RMSVE", "VL1L2_TOTAL"],
    "sal1l2": ["ANOM_CORR", "ANOM_CORR_RAW", "RMSFA", "RMSOA", "SAL1L2_TOTAL"],
    "ecnt": ["ECNT_RMSE", "ECNT_SPREAD", "ECNT_CRPS", "ECNT_ME", "ECNT_IGN", "ECNT_MAE",
             "ECNT_CRPSS", "ECNT_CRPSCL", "ECNT_ME_OERR", "ECNT_RMSE_OERR", "ECNT_SPREAD_OERR",
             "ECNT_SPREAD_PLUS_OERR", "ECNT_CRPS_EMP", "ECNT_CRPSCL_EMP", "ECNT_CRPSS_EMP",
             "ECNT_CRPS_EMP_FAIR", "ECNT_SPREAD_MD", "ECNT_MAE_OERR", "ECNT_N_GE_OBS",
             "ECNT_N_LT_OBS", "ECNT_ME_GE_OBS", "ECNT_ME_LT_OBS", "ECNT_BIAS_RATIO",
             "ECNT_TOTAL"],
    "nbr_cnt": ["NBR_FBS", "NBR_FSS", "NBR_AFSS", "NBR_UFSS", "NBR_F_RATE", "NBR_O_RATE",
                "NBR_CNT_TOTAL"],
    "val1l2": ["VAL1L2_ANOM_CORR", "VAL1L2_TOTAL"],
    "ssvar": ["SSVAR_FBAR", "SSVAR_OBAR", "SSVAR_ME", "SSVAR_MSE", "SSVAR_RMSE", "SSVAR_ME2",
              "SSVAR_FSTDEV", "SSVAR_BCMSE", "SSVAR_SPREAD", "SSVAR_PR_CORR", "SSVAR_ESTDEV",
              "SSVAR_OSTDEV", "SSVAR_BCRMSE", "SSVAR_MSESS", "SSVAR_ANOM_CORR", "SSVAR_TOTAL"],
    "nbr_ctc": ["NBR_PODY", "NBR_FAR", "NBR_CSI", "NBR_BASER", "NBR_ACC", "NBR_GSS",
                "NBR_HK", "NBR_HSS", "NBR_ODDS", "NBR_PODN", "NBR_POFD", "NBR_FBIAS", "NBR_FMEAN",
                "NBR_CTC_TOTAL"],
    "vcnt": ["VCNT_FBAR", "VCNT_OBAR", "VCNT_FS_RMS", "VCNT_MSVE", "VCNT_RMSVE", "VCNT_FDIR",
             "VCNT_SPEED_ERR", "VCNT_OS_RMS", "VCNT_FSTDEV", "VCNT_OSTDEV", "VCNT_ODIR",
             "VCNT_FBAR_SPEED", "VCNT_OBAR_SPEED", "VCNT_VDIFF_SPEED", "VCNT_SPEED_ABSERR",
             "VCNT_VDIFF_DIR", "VCNT_DIR_ERR", "VCNT_DIR_ABSER", "VCNT_ANOM_CORR",
             "VCNT_ANOM_CORR_UNCNTR"],
    "mctc": ["MCTS_HSS_EC"],
    "rps": ["RPS", "RPS_COMP", "RPSS", "RPS_TOTAL"],
    "pct": ["PSTD_ROC_AUC", "PSTD_NI", "PSTD_BASER", "PSTD_RELIABILITY", "PSTD_UNCERTAINTY",
            "PSTD_CALIBRATION", "PSTD_RESOLUTION", "PSTD_BRIER", "PSTD_BSS_SMPL", "PCT_TOTAL"],
}
# statistics of one probability bin
BIN_STATS = ("PSTD_RELIABILITY", "PSTD_RESOLUTION", "PSTD_BRIER", "PSTD_BSS_SMPL")
SUM_TYPES = ["sl1l2", "ctc", "grad", "vl1l2", "sal1l2", "val1l2", "nbrctc",
             "nbrcnt", "rps"]
# where the name of the line type or its statistics differ in summary jobs
SUM_STATS = {"sal1l2": "sl1l2", "nbrctc": "nbr_ctc", "nbrcnt": "nbr_cnt"}

FIELDS = {
    "sl1l2": ["fbar", "obar", "fobar", "ffbar", "oobar", "mae"],
    "ctc": ["fy_oy", "fy_on", "fn_oy", "fn_on"],
    "nbr_ctc": ["fy_oy", "fy_on", "fn_oy", "fn_on"],
    "grad": ["fgbar", "ogbar", "mgbar", "egbar"],
    "vl1l2": ["ufbar", "vfbar", "uobar", "vobar", "uvfobar", "uvffbar", "uvoobar",
              "f_speed_bar", "o_speed_bar"],
    "vcnt": ["ufbar", "vfbar", "uobar", "vobar", "uvfobar", "uvffbar", "uvoobar",
             "f_speed_bar", "o_speed_bar", "fa_speed_bar", "oa_speed_bar", "uvffabar",
             "uvooabar", "uvfoabar"],
    "sal1l2": ["fabar", "oabar", "foabar", "ffabar", "ooabar"],
    "ecnt": ["me", "rmse", "crps", "crpss", "ign", "spread", "me_oerr", "rmse_oerr",
             "spread_oerr", "spread_plus_oerr", "crpscl", "crps_emp", "crpscl_emp", "crpss_emp",
             "crps_emp_fair", "spread_md", "mae", "mae_oerr", "n_ge_obs", "me_ge_obs",
             "n_lt_obs", "me_lt_obs"],
    "rps": ["rps", "rpss", "rps_comp"],
    "pct": ["thresh_i", "oy_i", "on_i"],
    "mctc": ["n_cat", "ec_value"] + [f"{x}_{k}" for k in range(9)
                                     for x in ("i_value", "j_value", "fi_oj")],
    "nbr_cnt": ["fbs", "fss", "afss", "ufss", "f_rate", "o_rate"],
    "val1l2": ["ufabar", "vfabar", "uoabar", "voabar", "uvfoabar", "uvffabar", "uvooabar"],
    "ssvar": ["bin_i", "bin_n", "var_mean", "fbar", "obar", "fobar", "ffbar", "oobar"],
}


def r5(x):
    return float(np.round(x, 5))


BINS = (0.0, 0.25, 0.5, 0.75)


def numbers(line_type, g):
    """total and fields of one record."""
    n = int(g.integers(3, 60))
    if line_type in ("ctc", "nbr_ctc"):
        small = g.random() < 0.15
        v = [int(g.integers(0, 2 if small else 40)) for _ in range(4)]
        if sum(v) == 0:
            v[3] = 1
        return dict(total=sum(v), **dict(zip(FIELDS[line_type], v)))
    if line_type == "pct":
        return {"total": n}
    if line_type == "mctc":
        v = [[k // 3 + 1, k % 3 + 1, int(g.integers(0, 20))] for k in range(9)]
        v[4][2] += 1
        return dict(total=sum(x[2] for x in v),
                    **dict(zip(FIELDS["mctc"], [3, 0.25] + [y for x in v for y in x])))
    k = min(n, 8)
    f = g.normal(float(g.uniform(-5, 30)), 3.0, k)
    o = f + g.normal(0.5, 1.5, k)
    if line_type == "sl1l2":
        v = [f.mean(), o.mean(), (f * o).mean(), (f * f).mean(), (o * o).mean(), abs(f - o).mean()]
    elif line_type == "sal1l2":
        f, o = f - f.mean() + 0.3, o - o.mean() + 0.1
        v = [f.mean(), o.mean(), (f * o).mean(), (f * f).mean(), (o * o).mean()]
    elif line_type == "grad":
        f, o = abs(f), abs(o)
        v = [f.mean(), o.mean(), np.maximum(f, o).mean(), abs(f - o).mean()]
    elif line_type in ("vl1l2", "vcnt"):
        f2 = g.normal(1.0, 4.0, k)
        o2 = f2 + g.normal(0.2, 1.0, k)
        v = [f.mean(), f2.mean(), o.mean(), o2.mean(), (f * o + f2 * o2).mean(),
             (f * f + f2 * f2).mean(), (o * o + o2 * o2).mean(), np.hypot(f, f2).mean(),
             np.hypot(o, o2).mean()]
        if line_type == "vcnt":
            fa = abs(g.normal(4.0, 1.5, k))
            oa = abs(fa + g.normal(0.2, 1.0, k))
            v += [fa.mean(), oa.mean(), (fa * fa).mean(), (oa * oa).mean(), (fa * oa).mean()]
    elif line_type == "val1l2":
        f, o = f - f.mean() + 0.4, o - o.mean() + 0.2
        f2 = g.normal(0.3, 2.0, k)
        o2 = f2 + g.normal(0.1, 1.0, k)
        v = [f.mean(), f2.mean(), o.mean(), o2.mean(), (f * o + f2 * o2).mean(),
             (f * f + f2 * f2).mean(), (o * o + o2 * o2).mean()]
    elif line_type == "nbr_cnt":
        v = list(g.uniform(0.05, 0.9, 6))
    elif line_type == "ssvar":
        v = [1, max(2, n // 2), float(g.uniform(0.1, 4)), f.mean(), o.mean(), (f * o).mean(),
             (f * f).mean(), (o * o).mean()]
    elif line_type == "rps":
        v = [g.uniform(0.05, 0.5), g.uniform(-0.2, 0.8), 0.0]
        v[2] = 1 - v[0]
    else:
        v = [abs(x) + 0.1 for x in g.normal(1.0, 0.5, len(FIELDS[line_type]))]
        v[3] = min(v[3], 0.8)
        v[18], v[20] = int(g.integers(1, n)), int(g.integers(1, n))
    out = {"total": n}
    out.update({c: x if isinstance(x, int) else r5(x) for c, x in zip(FIELDS[line_type], v)})
    return out


BASE = ["model", "fcst_init_beg", "fcst_valid_beg", "fcst_lead", "fcst_lev", "vx_mask",
        "fcst_var", "stat_name", "stat_value"]


def names(ch, least, most):
    return ch.weighted(NAMES)[:ch.range(least, most)]


def lead_delta(lead):
    return dt.timedelta(hours=lead // 10000)


def records(ch, line_type, models, leads, masks, fvars, stats, n_valid, gaps, dup=False,
            levs=(LEV,)):
    """One record per model, lead, mask, variable, statistic and valid time, with gaps."""
    g = np.random.default_rng(ch.seed32())
    rows = []
    for m in models:
        for mask in masks:
            for lead in leads:
                for i in range(n_valid):
                    missing = g.random() < gaps
                    v = T0 + dt.timedelta(hours=12 * i)
                    for var, lev in itertools.product(fvars, levs):
                        if line_type == "pct":
                            reps = [{"thresh_i": t, "oy_i": int(g.integers(1, 20)),
                                     "on_i": int(g.integers(1, 20))}
                                    for t in BINS]
                        else:
                            reps = [{}]
                        base = numbers(line_type, g)
                        for st in stats:
                            if missing:
                                continue
                            for rep in reps:
                                r = {"model": m, "fcst_init_beg": str(v - lead_delta(lead)),
                                     "fcst_valid_beg": str(v), "fcst_lead": lead,
                                     "fcst_lev": lev, "vx_mask": mask, "fcst_var": var,
                                     "stat_name": st, "stat_value": None}
                                r.update(base)
                                r.update(rep)
                                rows.append(r)
    if dup and rows:
        rows.append(dict(rows[int(g.integers(0, len(rows)))]))
    return rows


def text(cols, rows):
    """A tab separated file."""
    def cell(x):
        return "NA" if x is None else (repr(x) if isinstance(x, float) else str(x))
    lines = ["\t".join(cols)]
    lines += ["\t".join(cell(r[c]) for c in cols) for r in rows]
    return ("\n".join(lines) + "\n").encode()


def columns(ch, cols, rows, extra=True):
    """The columns in the order of the file: sometimes another one, with columns no job needs."""
    if extra and ch.bool(0.2):
        for r in rows:
            r["obtype"] = "ADPSFC"
            r["fcst_perc"] = None
        cols = cols + ["obtype", "fcst_perc"]
    if ch.bool(0.25):
        g = np.random.default_rng(ch.seed32())
        cols = [cols[i] for i in g.permutation(len(cols))]
    return list(cols)


def boot_opts(ch, boot):
    """Number of iterations and the rest of the resampling settings."""
    on = ch.bool(0.4) if boot is None else boot
    p = {"num_iterations": ch.pick([20, 8, 33]) if on else 1, "method": "perc",
         "num_threads": 1, "alpha": ch.pick([0.05, 0.1, 0.3]),
         "random_seed": ch.pick([1, 0, 77, 2 ** 31 - 1]),
         "circular_block_bootstrap": ch.pick([True, False, "True", "False"])}
    return p


def agg_stat(ch, name, boot=None, line_types=None, plain=False, ee=None, agg_indy=None,
             derived=None, axis2=None, order=None, single=False, few=False):
    lt = ch.pick(line_types or ["sl1l2", "ctc", "grad", "vl1l2", "sal1l2", "ecnt", "vcnt",
                                "nbr_ctc", "rps", "pct", "nbr_cnt", "val1l2", "ssvar", "mctc"])
    models = names(ch, 1, 3)
    want_derived = (ch.bool(0.45) if derived is None else derived) and len(models) > 1 \
        and lt != "pct"
    masks = MASKS[:1] if want_derived and ch.bool(0.6) else MASKS[:ch.range(1, 2)]
    leads = LEADS[:ch.range(1, 3)]
    n_valid = ch.range(2, 4 if few else 7)
    gaps = ch.pick([0.0, 0.15, 0.4])
    st_all = STATS[lt]
    stats = sorted({ch.pick(st_all) for _ in range(1 if single else ch.range(1, 2))},
                   key=st_all.index)
    fvars = VARS[:1 if single or any(st in BIN_STATS for st in stats) else ch.range(1, 2)]
    levs = LEVS[:1 if single or few else ch.weighted([(4, 1), (1, 2)])]
    rows = records(ch, lt, models, leads, masks, fvars, stats, n_valid, gaps, levs=levs)
    if order is not None:
        rows = order(rows)
    cols = columns(ch, BASE + ["total"] + FIELDS[lt], rows)
    var = ch.pick(fvars)
    series = {"model": list(models)}
    mask_in_series = len(masks) > 1 and (want_derived or ch.bool(0.4))
    if mask_in_series:
        series["vx_mask"] = list(masks)
    indy = ch.pick(["fcst_lead", "fcst_lev"] + ([] if want_derived else ["fcst_valid_beg"])
                   + ([] if mask_in_series else ["vx_mask"]))
    if any(st in BIN_STATS for st in stats) or (lt == "pct" and ch.bool(0.4)):
        indy = "thresh_i"
    elif len(levs) > 1 and want_derived:
        indy = "fcst_lev"
    elif len(levs) > 1 and indy != "fcst_lev" and ch.bool():
        series["fcst_lev"] = list(levs)
    if indy == "fcst_lead":
        vals = [str(x) for x in leads]
        if ch.bool(0.15):
            vals.append("999000")
    elif indy == "fcst_valid_beg":
        vals = sorted({r["fcst_valid_beg"] for r in rows}) or [str(T0)]
        if len(vals) > 1 and ch.bool(0.3):
            vals = [":".join(vals[:2])] + vals[ch.pick([0, 2]):]
    elif indy == "fcst_lev":
        vals = list(levs)
    elif indy == "thresh_i":
        # every bin of the data is used, whatever is asked for
        vals = ch.pick([[str(t) for t in BINS], ["0"]])
    else:
        vals = list(masks)
    if not mask_in_series and indy != "vx_mask" and want_derived and len(masks) > 1:
        want_derived = False
    group = len(models) > 1 and not want_derived and ch.bool(0.15)
    if group:
        series["model"] = [models[0] + ":" + models[1]] + models[2:]
    pairs = want_derived and len(models) > 2 and ch.bool(0.2)
    if pairs:
        # two groups that are compared; resampling pairs their records, so both have two members
        series["model"] = [models[0] + ":" + models[1], models[1] + ":" + models[2]]
    agg_ok = lt not in ("pct", "ssvar", "mctc") and indy == "vx_mask" and len(masks) > 1 \
        and not want_derived and not group
    if agg_ok and (ch.bool(0.3) if agg_indy is None else agg_indy):
        vals = [";".join(masks)] + ch.pick([[], masks[:1]])
    elif mask_in_series and not want_derived and ch.bool(0.3) and ee is None and lt != "mctc":
        series["vx_mask"] = [";".join(masks)] + ch.pick([[], masks[:1]])
        ee = False
    p = boot_opts(ch, boot)
    p.update({
        "agg_stat_input": f"in/{name}.data", "agg_stat_output": f"out/{name}.txt",
        "indy_var": indy, "indy_vals": vals, "line_type": lt,
        "event_equal": ch.pick(["False", "True", False, True]) if ee is None else ee,
        "derived_series_1": [], "derived_series_2": [],
        "fcst_var_val_1": {var: list(stats)}, "fcst_var_val_2": {},
        "fixed_vars_vals_input": {}, "series_val_1": series, "series_val_2": {},
        "list_stat_1": list(stats), "list_stat_2": [],
    })
    if len(levs) == 1 and ch.bool(0.3):
        p["fixed_vars_vals_input"] = {"fcst_lev": {"fcst_lev_0": [LEV]}}
    if want_derived:
        der = []
        for _ in range(ch.range(1, 2)):
            st = st_b = ch.pick(stats)
            ops = ["DIFF", "RATIO", "SS", "SINGLE"]
            if p["num_iterations"] > 1:
                ops.append("DIFF_SIG")
            a, b = ("Group_y1_1", "Group_y1_2") if pairs else models[:2]
            mid = mid_b = (ch.pick(masks) + " ") if mask_in_series else ""
            # the compared series differ in the model, the mask or the statistic
            over = ch.weighted([(4, "model")] + ([(1, "mask")] if mask_in_series else [])
                               + ([(1, "stat")] if len(stats) > 1 else []))
            if over == "mask":
                b = a
                mid, mid_b = masks[0] + " ", masks[1] + " "
            elif over == "stat":
                b = a
                st, st_b = stats[:2]
            d = [f"{a} {mid}{var} {st}", f"{b} {mid_b}{var} {st_b}", ch.pick(ops)]
            if d not in der:
                der.append(d)
        p["derived_series_1"] = der
    if (ch.bool(0.2) if axis2 is None else axis2) and not plain and not group:
        st2 = ch.pick(stats)
        m = list(series["model"])
        p["series_val_2"] = {"model": ch.pick([m, m[:1], m[1:] or m])}
        if not want_derived and p["series_val_2"]["model"] == m[1:]:
            series["model"] = m[:1]     # the axes have no series in common
        if mask_in_series:
            p["series_val_2"]["vx_mask"] = list(series["vx_mask"])
        if "fcst_lev" in series:
            p["series_val_2"]["fcst_lev"] = list(levs)
        p["fcst_var_val_2"] = {ch.pick(fvars): [st2]}
        p["list_stat_2"] = [st2]
    if ch.bool(0.15):
        p["random_seed"] = ch.pick([None, "None"]) if p["num_iterations"] == 1 else \
            p["random_seed"]
    return {"driver": "agg_stat", "name": name, "params": p, "out": p["agg_stat_output"],
            "files": {p["agg_stat_input"]: text(cols, rows)}, "extra": [],
            "rows": rows, "cols": cols, "boot": p["num_iterations"] > 1}


def sum_stat(ch, name, boot=None, ee=None, order=None, line_types=None, **_):
    lt = ch.pick(line_types or SUM_TYPES)
    models = names(ch, 1, 3)
    leads = LEADS[:ch.range(1, 2)]
    masks = MASKS[:ch.range(1, 2)]
    st_all = STATS[SUM_STATS.get(lt, lt)]
    stats = sorted({ch.pick(st_all) for _ in range(ch.range(1, 2))}, key=st_all.index)
    if "MAE" in stats:
        stats = ["FBAR"]
    rt = {"nbrctc": "nbr_ctc", "nbrcnt": "nbr_cnt"}.get(lt, lt)
    rows = records(ch, rt, models, leads, masks, VARS[:1], stats, ch.range(1, 4),
                   ch.pick([0.0, 0.2, 0.4]))
    if order is not None:
        rows = order(rows)
    fields = [c for c in FIELDS[rt] if c != "mae"]
    cols = columns(ch, BASE + ["total"] + fields, rows)
    p = {"sum_stat_input": f"in/{name}.data", "sum_stat_output": f"out/{name}.txt",
         "line_type": lt, "indy_var": "fcst_lead", "indy_vals": [str(x) for x in leads],
         "event_equal": ch.pick(["False", "True", False, True]) if ee is None else ee,
         "series_val_1": {"model": list(models)}, "series_val_2": {},
         "fcst_var_val_1": {VARS[0]: list(stats)}, "fcst_var_val_2": {},
         "list_stat_1": list(stats), "list_stat_2": [],
         "fixed_vars_vals_input": {}}
    if len(masks) > 1 and ch.bool(0.5):
        p["series_val_1"]["vx_mask"] = list(masks)
    if len(models) > 1 and ch.bool(0.2):
        # the file holds more than the series ask for
        p["series_val_1"]["model"] = models[:-1]
    if ch.bool(0.2):
        p["series_val_1"]["fcst_lead"] = [str(x) for x in leads]
    return {"driver": "sum_stat", "name": name, "params": p, "out": p["sum_stat_output"],
            "files": {p["sum_stat_input"]: text(cols, rows)}, "extra": [], "rows": rows,
            "cols": cols, "fields": ["total"] + fields, "boot": False}


def scorecard(ch, name, boot=None, order=None, **_):
    models = names(ch, 2, 2)
    leads = [120000, 240000, 360000][:ch.range(1, 3)]
    masks = MASKS[:ch.range(1, 2)]
    levs = ["P200", "P850"][:ch.weighted([(3, 1), (1, 2)])]
    stat = ch.pick(["BCMSE", "RMSE", "ME", "CSI", "FBAR"])
    n = ch.range(3, 7)
    g = np.random.default_rng(ch.seed32())
    cols = ["stat_name", "stat_value", "fcst_var", "fcst_lev", "model", "fcst_valid_beg",
            "fcst_thresh", "vx_mask", "fcst_lead", "stat_ncl", "stat_ncu", "stat_bcl", "stat_bcu"]
    rows = []
    # sometimes nothing is known about a model in a region, or of a model at all
    lost = ch.weighted([(8, None), (1, (models[1], masks[0])), (1, (models[0], None))])
    for m, mask, lead, lev in itertools.product(models, masks, leads, levs):
        for i in range(n):
            if lost and m == lost[0] and lost[1] in (None, mask):
                continue
            rows.append({"stat_name": stat, "stat_value": r5(g.normal(10, 3)),
                         "fcst_var": "HGT", "fcst_lev": lev, "model": m,
                         "fcst_valid_beg": str(T0 + dt.timedelta(days=i)),
                         "fcst_thresh": "NA", "vx_mask": mask, "fcst_lead": lead,
                         "stat_ncl": "NA", "stat_ncu": "NA", "stat_bcl": "NA",
                         "stat_bcu": "NA"})
    if order is not None:
        rows = order(rows)
    cols = columns(ch, cols, rows, extra=False)
    der = []
    for lead, lev in itertools.product(leads, levs):
        op = ch.pick(["DIFF", "DIFF_SIG", "SINGLE"])
        der.append([f"{lev} {models[0]} {lead} HGT {stat}", f"{lev} {models[1]} {lead} HGT {stat}", op])
    # the lists of a job are in any order
    if ch.bool(0.3):
        der.reverse()
    if ch.bool(0.3):
        leads = leads[::-1]
        masks = masks[::-1]
    p = {"append_to_file": ch.pick([False, "False"]), "derived_series_1": der,
         "indy_var": "vx_mask", "indy_vals": list(masks), "line_type": "sl1l2",
         "list_stat_1": [stat], "ndays": ch.pick([10, 30, 60, 90]),
         "equalize_by_indep": True, "event_equal": False, "fcst_var_val_1": {"HGT": [stat]},
         "series_val_1": {"fcst_lead": [str(x) for x in leads], "fcst_lev": levs,
                          "model": list(models)},
         "stat_flag": ch.pick(["NCAR", "EMC"]),
         "sum_stat_input": f"in/{name}.data", "sum_stat_output": f"out/{name}.txt"}
    return {"driver": "scorecard", "name": name, "params": p, "out": p["sum_stat_output"],
            "files": {p["sum_stat_input"]: text(cols, rows)}, "extra": [], "rows": rows,
            "cols": cols, "boot": False}


def agg_eclv(ch, name, boot=None, ee=None, order=None, few=False, **_):
    models = names(ch, 1, 2)
    leads = LEADS[:ch.range(1, 2)]
    rows = records(ch, "ctc", models, leads, MASKS[:1], VARS[:1], ["ECLV"],
                   ch.range(2, 4 if few else 6), 0.0)
    if order is not None:
        rows = order(rows)
    cols = columns(ch, BASE + ["total"] + FIELDS["ctc"], rows)
    p = boot_opts(ch, boot)
    p.update({"agg_stat_input": f"in/{name}.data", "agg_stat_output": f"out/{name}.txt",
              "indy_var": "", "indy_vals": [], "line_type": "ctc",
              "event_equal": ch.pick(["False", "True"]) if ee is None else ee,
              "fixed_vars_vals_input": {}, "series_val_1": {"model": list(models)},
              "agg_stat1": ["ECLV"], "equalize_by_indep": ch.pick(["False", "True"]),
              "cl_step": ch.pick([0.25, 0.1, 0.05])})
    if len(leads) > 1 and ch.bool(0.5):
        p["series_val_1"]["fcst_lead"] = [str(x) for x in leads]
    return {"driver": "agg_eclv", "name": name, "params": p, "out": p["agg_stat_output"],
            "files": {p["agg_stat_input"]: text(cols, rows)}, "extra": [], "rows": rows,
            "cols": cols, "boot": p["num_iterations"] > 1}


MODE_COLS = ["model", "fcst_init", "fcst_valid", "fcst_lead", "fcst_var", "fcst_thr", "object_id",
             "object_cat", "area", "total", "fcst_flag", "simple_flag", "matched_flag",
             "object_type", "volume"]
PAIRS = ["FSA_ASA", "OSA_ASA", "ASM_ASA", "ASU_ASA", "FSM_FSA", "FSU_FSA", "OSM_OSA", "OSU_OSA",
         "FSM_ASM", "OSM_ASM", "OSU_ASU", "FSA_AAA", "OSA_AAA", "FSA_FAA", "FCA_FAA", "OSA_OAA",
         "OCA_OAA", "FCA_ACA", "FSA_OSA", "OSA_FSA", "ASA_ACA", "FCA_FSA", "FSA_FCA", "OCA_OSA",
         "OSA_OCA"]
OBJ = ["HITS", "MISSES", "FAS", "CSI", "PODY", "FAR"]
MODE_STATS = ["RATIO_" + x for x in PAIRS + ["OCA_ACA", "ACA_ASA", "FSU_ASU"]] \
    + ["AREARAT_" + x for x in PAIRS + ["OCA_ACA", "ACA_ASA"]] \
    + ["OBJ" + x for x in OBJ] + ["OBJA" + x for x in OBJ]
# statistics of the two-dimensional or of the three-dimensional objects only
MODE_STATS_D = ["2D_" + x for x in MODE_STATS] \
    + ["3D_RATIO_" + x for x in PAIRS + ["FSU_ASU"]] + ["3D_VOLRAT_" + x for x in PAIRS] \
    + ["3D_OBJ" + x for x in OBJ] + ["3D_OBJV" + x for x in OBJ]


def mode_records(ch, models, leads, n_valid, gaps, fvar="APCP_03"):
    g = np.random.default_rng(ch.seed32())
    rows = []
    for m in models:
        for lead in leads:
            for i in range(n_valid):
                if g.random() < gaps:
                    continue
                v = T0 + dt.timedelta(hours=12 * i)
                for k in range(int(g.integers(2, 6))):
                    fc = int(k % 2 == 0 or g.random() < 0.3)
                    mt = int(g.random() < 0.6)
                    rows.append({"model": m, "fcst_init": str(v - lead_delta(lead)),
                                 "fcst_valid": str(v), "fcst_lead": lead, "fcst_var": fvar,
                                 "fcst_thr": ">=0.1", "object_id": ("F" if fc else "O") + f"{k:03d}",
                                 "object_cat": ("CF" if fc else "CO") + f"{k if mt else 0:03d}",
                                 "area": int(g.integers(10, 500)),
                                 "total": 1, "fcst_flag": fc,
                                 "simple_flag": int(g.random() < 0.8), "matched_flag": mt,
                                 "object_type": "2d" if g.random() < 0.6 else "3d",
                                 "volume": int(g.integers(10, 900))})
    return rows


def agg_mode(ch, name, boot=None, order=None, multi=True, ee=None, **_):
    models = names(ch, 1, 2)
    leads = LEADS[:ch.range(1, 2)]
    n_valid = ch.range(2, 5)
    rows = mode_records(ch, models, leads, n_valid, ch.pick([0.0, 0.2]))
    if ch.bool(0.25):
        rows += mode_records(ch, models, leads, ch.range(1, 3), 0.0, fvar="REFC")
    if order is not None:
        rows = order(rows)
    st_all = MODE_STATS_D if ch.bool(0.4) else MODE_STATS
    stats = sorted({ch.pick(st_all) for _ in range(ch.range(1, 2) if multi else 1)},
                   key=st_all.index)
    cols = columns(ch, MODE_COLS, rows)
    p = boot_opts(ch, boot)
    p.update({"agg_stat_input": f"in/{name}.agg_stat_bootstrap",
              "agg_stat_output": f"out/{name}.txt", "indy_var": "fcst_lead",
              "indy_vals": [str(x) for x in leads], "line_type": "mode",
              "event_equal": ch.pick(["False", False, "True", True]) if ee is None else ee,
              "fixed_vars_vals_input": {},
              "series_val_1": {"model": list(models)}, "series_val_2": {},
              "fcst_var_val_1": {"APCP_03": list(stats)}, "fcst_var_val_2": {},
              "list_stat_1": list(stats), "list_stat_2": []})
    if len(models) > 1 and ch.bool(0.2):
        p["series_val_1"]["model"] = [":".join(models)]
    if ch.bool(0.15):
        p["series_val_1"]["fcst_thr"] = [">=0.1"]
    job = {"driver": "agg_mode", "name": name, "params": p, "out": p["agg_stat_output"],
           "files": {p["agg_stat_input"]: text(cols, rows)}, "extra": [],
           "rows": rows, "cols": cols, "boot": p["num_iterations"] > 1}
    if p["event_equal"] in (True, "True"):
        prev = mode_records(ch, models, leads, n_valid, ch.pick([0.0, 0.3]))
        for r in prev:
            r["equalize"] = f"{r['fcst_valid']} {r['fcst_lead']}"
        p["agg_stat_input_ee"] = f"in/{name}.ee"
        job["files"][p["agg_stat_input_ee"]] = text(MODE_COLS + ["equalize"], prev)
        job["prev"] = prev
        job["extra"] = [f"in/{name}.dataAfterEq"]
    return job


def ee_series(ch, name, order=None, axis2=None, **_):
    """The separate equalization job on data with one or two axes."""
    models = names(ch, 1, 3)
    leads = LEADS[:ch.range(1, 2)]
    masks = MASKS[:ch.range(1, 2)]
    rows = records(ch, "sl1l2", models, leads, masks, VARS[:1], ["FBAR"], ch.range(2, 5),
                   ch.pick([0.0, 0.2, 0.5]))
    if order is not None:
        rows = order(rows)
    cols = columns(ch, BASE + ["total"] + FIELDS["sl1l2"], rows)
    p = {"agg_stat_input": f"in/{name}.data", "agg_stat_output": f"out/{name}.txt",
         "indy_var": ch.pick(["fcst_lead", "vx_mask"]), "event_equal": "True",
         "indy_vals": [str(x) for x in leads],
         "series_val_1": {"model": list(models)}, "series_val_2": {},
         "fcst_var_val_1": {VARS[0]: ["FBAR"]}, "fcst_var_val_2": {},
         "fixed_vars_vals_input": {}, "list_stat_1": ["FBAR"], "list_stat_2": []}
    if p["indy_var"] == "vx_mask":
        p["indy_vals"] = list(masks)
    if len(masks) > 1 and p["indy_var"] != "vx_mask" and ch.bool(0.4):
        p["series_val_1"]["vx_mask"] = list(masks)
    if ch.bool(0.2):
        p["series_val_1"]["fcst_lead"] = [str(x) for x in leads]
    if len(models) > 2 and ch.bool(0.3):
        p["series_val_1"]["model"] = [models[0] + ":" + models[1]] + models[2:]
    if len(models) > 1 and ch.bool(0.15):
        # the file holds more than the series ask for
        p["series_val_1"]["model"] = models[:-1]
    if ch.bool(0.35):
        p["fixed_vars_vals_input"] = {"fcst_lev": {"fcst_lev_0": [LEV]}}
        if len(masks) > 1 and "vx_mask" not in p["series_val_1"] and p["indy_var"] != "vx_mask":
            p["fixed_vars_vals_input"]["vx_mask"] = {"vx_mask_0": list(masks)}
    if len(models) > 1 and (ch.bool(0.3) if axis2 is None else axis2):
        k = ch.range(1, len(models) - 1)
        p["series_val_1"] = {"model": models[:k]}
        p["series_val_2"] = {"model": models[k:]}
        p["fcst_var_val_2"] = {VARS[0]: ["FBAR"]}
        p["list_stat_2"] = ["FBAR"]
    return {"driver": "ee_series", "name": name, "params": p, "out": p["agg_stat_output"],
            "files": {p["agg_stat_input"]: text(cols, rows)}, "extra": [], "rows": rows,
            "cols": cols, "boot": False}


def ee_cases(ch, name, order=None, ee=None, **_):
    """The equalization job against the cases of an earlier one."""
    models = names(ch, 1, 3)
    leads = LEADS[:ch.range(1, 2)]
    n = ch.range(2, 5)
    rows = mode_records(ch, models, leads, n, ch.pick([0.0, 0.3]))
    prev = mode_records(ch, models, leads, n, ch.pick([0.0, 0.3, 0.5]))
    two = ch.bool(0.3)
    if two:
        rows += mode_records(ch, models, leads, n, 0.2, fvar="REFC")
        prev += mode_records(ch, models, leads, n, 0.3, fvar="REFC")
    if order is not None:
        rows = order(rows)
    for r in prev:
        r["equalize"] = f"{r['fcst_valid']} {r['fcst_lead']}"
    cols = columns(ch, MODE_COLS, rows)
    p = {"agg_stat_input": f"in/{name}.data", "agg_stat_input_ee": f"in/{name}.ee",
         "agg_stat_output": f"out/{name}.txt",
         "event_equal": ch.pick(["True", "True", "False"]) if ee is None else ee,
         "indy_var": "fcst_lead", "indy_vals": [str(x) for x in leads],
         "series_val_1": {"model": list(models)}, "series_val_2": {},
         "fcst_var_val_1": {"APCP_03": ["RATIO_FSA_ASA"]}, "fcst_var_val_2": {},
         "fixed_vars_vals_input": {}, "list_stat_1": ["RATIO_FSA_ASA"], "list_stat_2": []}
    if ch.bool(0.25):
        p["series_val_1"]["fcst_thr"] = [">=0.1"]
    if ch.bool(0.2):
        p["series_val_1"]["fcst_lead"] = [str(x) for x in leads]
    if two:
        p["series_val_2"] = {"model": models[:ch.range(1, len(models))]}
        p["fcst_var_val_2"] = {ch.pick(["REFC", "APCP_03"]): ["RATIO_FSA_ASA"]}
        p["list_stat_2"] = ["RATIO_FSA_ASA"]
    return {"driver": "ee_cases", "name": name, "params": p, "out": p["agg_stat_output"],
            "files": {p["agg_stat_input"]: text(cols, rows),
                      p["agg_stat_input_ee"]: text(MODE_COLS + ["equalize"], prev)},
            "extra": [], "rows": rows, "prev": prev, "cols": cols, "boot": False}


MAKE = {"agg_stat": agg_stat, "sum_stat": sum_stat, "scorecard": scorecard, "agg_eclv": agg_eclv,
        "agg_mode": agg_mode, "ee_series": ee_series, "ee_cases": ee_cases}
WEIGHT = {"agg_stat": 5, "sum_stat": 2, "scorecard": 2, "agg_eclv": 2, "agg_mode": 2,
          "ee_series": 1, "ee_cases": 1}

SCRIPT = {"agg_stat": "agg_stat.py", "sum_stat": "sum_stat.py", "scorecard": "scorecard.py",
          "agg_eclv": "agg_eclv.py", "agg_mode": "agg_stat_bootstrap.py",
          "ee_series": "agg_stat_event_equalize.py", "ee_cases": "agg_stat_eqz.py"}


def make_job(ch, name, drivers=DRIVERS, **opts):
    d = ch.weighted([(WEIGHT[x], x) for x in drivers])
    return MAKE[d](ch, name, **opts)


CLASSES = {"agg_stat": ("metcalcpy.agg_stat", "AggStat", "calculate_stats_and_ci"),
           "sum_stat": ("metcalcpy.sum_stat", "SumStat", "calculate_stats"),
           "scorecard": ("metcalcpy.scorecard", "Scorecard", "calculate_scorecard_data"),
           "agg_eclv": ("metcalcpy.agg_eclv", "AggEclv", "calculate_stats_and_ci"),
           "agg_mode": ("metcalcpy.agg_stat_bootstrap", "AggStatBootstrap", "calculate_values"),
           "ee_series": ("metcalcpy.agg_stat_event_equalize", "AggStatEventEqualize",
                         "calculate_values"),
           "ee_cases": ("metcalcpy.agg_stat_eqz", "AggStatEventEqz", "calculate_values")}


def open_driver(driver, params):
    """Creates the job's object in the calling (simulated) process; returns how to run it."""
    import importlib
    module, cls, method = CLASSES[driver]
    return getattr(getattr(importlib.import_module(module), cls)(params), method)


def run_driver(driver, params):
    """Runs a job in the calling (simulated) process."""
    return open_driver(driver, params)()


def load():
    """Imports everything jobs need, before the first fork."""
    import metcalcpy.agg_stat  # noqa: F401
    import metcalcpy.sum_stat  # noqa: F401
    import metcalcpy.scorecard  # noqa: F401
    import metcalcpy.agg_eclv  # noqa: F401
    import metcalcpy.agg_stat_bootstrap  # noqa: F401
    import metcalcpy.agg_stat_event_equalize  # noqa: F401
    import metcalcpy.agg_stat_eqz  # noqa: F401
    import runpy  # noqa: F401
    import argparse  # noqa: F401
    import yaml  # noqa: F401


def body(job):
    """The job as a function for a simulated process."""
    params = copy.deepcopy(job["params"])

    def call():
        run_driver(job["driver"], params)
        return None
    return call


def script_body(job, repo="/repo"):
    """The job as the stand-alone script with a parameter file."""
    import os
    path = os.path.join(repo, "metcalcpy", SCRIPT[job["driver"]])

    def call():
        import runpy
        import sys
        sys.argv = [path, job["yaml"]]
        runpy.run_path(path, run_name="__main__")
    return call


def with_yaml(job):
    """Adds the parameter file."""
    import yaml
    job = dict(job, files=dict(job["files"]))
    job["yaml"] = f"in/{job['name']}.yaml"
    job["files"][job["yaml"]] = yaml.safe_dump(job["params"], sort_keys=False).encode()
    return job


def lay_out(root, jobs):
    """Writes the files of jobs into the world."""
    import os
    os.makedirs(os.path.join(root, "in"), exist_ok=True)
    os.makedirs(os.path.join(root, "out"), exist_ok=True)
    for j in jobs:
        for rel, data in j["files"].items():
            os.makedirs(os.path.dirname(os.path.join(root, rel)), exist_ok=True)
            with open(os.path.join(root, rel), "wb") as f:
                f.write(data)


def parse(data):
    """(header, rows) of an output file."""
    if data is None:
        return None, []
    lines = data.decode("utf-8", "replace").split("\n")
    if lines and lines[-1] == "":
        lines.pop()
    rows = [ln.split("\t") for ln in lines]
    return (rows[0] if rows else None), rows[1:]
