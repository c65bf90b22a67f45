"""Calls of library functions on tables and arrays, for H02.

A call is (label, function, arguments). Functions that a version of the package does not have are left out.
"""
import importlib
import inspect

import numpy as np

from model import jobs

STAT_MODULES = ("ctc", "ecnt", "grad", "mcts", "mode_2d_arearat", "mode_2d_ratio", "mode_3d_ratio",
                "mode_3d_volrat", "mode_arearat", "mode_ratio", "nbrcnt", "nbrctc", "pstd", "rps",
                "sal1l2", "sl1l2", "ssvar", "val1l2", "vcnt", "vl1l2")

# statistics that take other arguments than a table and its column names
ODD = ("calculate_ctc_roc", "calculate_pct_roc", "calculate_economic_value", "calculate_eclv")

OTHERS = ("metcalcpy.util.utils", "metcalcpy.util.correlation", "metcalcpy.util.eclv_statistics",
          "metcalcpy.util.wald_wolfowitz_runs_test", "metcalcpy.util.met_stats",
          "metcalcpy.calc_difficulty_index", "metcalcpy.piecewise_linear", "metcalcpy.bootstrap",
          "metcalcpy.pre_processing.directional_means", "metcalcpy.pre_processing.waves",
          "metcalcpy.contributed.spacetime.spacetime",
          "metcalcpy.contributed.spacetime.spacetime_utils",
          "metcalcpy.contributed.tropical_diagnostics.utils",
          "metcalcpy.contributed.rmm_omi.compute_mjo_indices",
          "metcalcpy.contributed.mjo_enso.compute_mjo_enso",
          "metcalcpy.contributed.blocking_weather_regime.Blocking_WeatherRegime_util",
          "metcalcpy.contributed.blocking_weather_regime.Blocking",
          "metcalcpy.contributed.blocking_weather_regime.WeatherRegime",
          "metcalcpy.vertical_interp", "metcalcpy.process_tcrmw")


def module(name):
    try:
        return importlib.import_module(name)
    except ImportError:
        return None


def statistic_functions():
    out = []
    for m in STAT_MODULES:
        mod = module(f"metcalcpy.util.{m}_statistics")
        for name, f in sorted(vars(mod).items()) if mod else ():
            if name.startswith("calculate_") and inspect.isfunction(f) \
                    and f.__module__ == mod.__name__:
                ps = list(inspect.signature(f).parameters.values())
                if name not in ODD and sum(p.default is p.empty for p in ps) == 2 and len(ps) <= 3:
                    out.append((f"{m}.{name}", f, len(ps)))
    return out


STATS = []


def prepare():
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for m in OTHERS:
            module(m)
        STATS[:] = statistic_functions()
    # the first rolling and fft calls are slow
    np.fft.rfft(np.zeros(4))


def wide(ch):
    """A table with the columns of every line type."""
    import pandas as pd
    g = np.random.default_rng(ch.seed32())
    n = ch.range(1, 8)
    cols = sorted({c for f in jobs.FIELDS.values() for c in f} | {
        "total", "fcst_lead", "fa_speed_bar", "oa_speed_bar", "ufabar", "vfabar", "uoabar", "voabar",
        "uvfoabar", "uvffabar", "uvooabar", "var_mean", "fbs", "fss", "afss", "ufss", "f_rate",
        "o_rate", "area", "volume", "ec_value", "mse", "mse_oerr", "variance", "variance_oerr",
        "variance_plus_oerr", "rps_climo", "crps_climo", "T", "oy_total", "o_bar", "bin_n"})
    d = {c: g.uniform(0.1, 0.9, n) for c in cols}
    for c in ("fy_oy", "fy_on", "fn_oy", "fn_on", "total", "area", "volume", "oy_i", "on_i",
              "n_ge_obs", "n_lt_obs"):
        d[c] = g.integers(0 if c != "total" else 1, 30, n)
    d["thresh_i"] = np.arange(n) / n
    d["model"] = [f"M{i % 2}" for i in range(n)]
    d["fcst_valid_beg"] = [f"2022-05-{i + 1:02d} 00:00:00" for i in range(n)]
    d["fcst_valid"] = d["fcst_valid_beg"]
    d["object_id"] = [("F" if g.random() < 0.5 else "O") + f"{i:03d}" for i in range(n)]
    d["object_cat"] = [("CF" if g.random() < 0.5 else "CO") + f"{int(g.integers(0, 3)):03d}"
                       for _ in range(n)]
    d["object_type"] = ["2d" if g.random() < 0.5 else "3d" for _ in range(n)]
    for c in ("fcst_flag", "simple_flag", "matched_flag"):
        d[c] = g.integers(0, 2, n)
    df = pd.DataFrame(d)
    if ch.bool(0.3):
        # some numbers are missing
        for _ in range(ch.range(1, 3)):
            c = cols[int(g.integers(len(cols)))]
            if df[c].dtype == float:
                df.loc[int(g.integers(n)), c] = np.nan
    return df


def statistics(ch):
    """Several statistics of one array."""
    df = wide(ch)
    if ch.bool(0.3):
        num = df.select_dtypes("number")
        values, cols = num.to_numpy(dtype=float), num.columns.to_numpy()
    else:
        values, cols = df.to_numpy(), df.columns.to_numpy()
    out = []
    for _ in range(ch.range(5, 60) if STATS else 0):
        label, f, k = STATS[ch.int(len(STATS))]
        out.append((label, f, [values, cols] + ([ch.bool()] if k == 3 else [])))
    return out


def field(g, nt, nlat, nlon, lon0=0.0):
    import pandas as pd
    import xarray as xr
    return xr.DataArray(g.normal(size=(nt, nlat, nlon)), dims=("time", "lat", "lon"), coords={
        "time": pd.date_range("2020-01-01", periods=nt, freq="D"),
        "lat": np.linspace(-20, 20, nlat), "lon": lon0 + np.arange(nlon) * 360.0 / nlon})


def numeric(ch):
    """One function on arrays."""
    g = np.random.default_rng(ch.seed32())
    n = ch.range(4, 12)
    x, y = g.normal(size=n), g.normal(size=n)
    u = module("metcalcpy.util.utils")
    c = module("metcalcpy.util.correlation")
    what = ch.pick(["corr", "acf", "remove", "runs", "revision", "std_err", "lons", "permutations",
                    "derived", "difficulty", "piecewise", "economic", "roc", "bootstrap", "means",
                    "waves", "cross", "spectra", "flip", "rmm", "filter", "regimes", "filtered_rows",
                    "interp", "tcrmw", "enso", "indices", "eof", "blocking", "groups"])
    args, name, mod = None, None, u
    if what == "corr":
        if ch.bool(0.3):
            y = y.copy()
            y[0] = np.nan
        name, mod = "corr", c
        how = ch.pick(["pearson", "spearman", "kendall", "bicor", "percbend"])
        return [(f"{what}:{how}", lambda a, b: c.corr(a, b, method=how), [x, y])]
    if what == "acf":
        vals = ch.pick([x, list(x), [None] + list(x)])
        name, mod, args = "acf", c, [vals, ch.pick(["correlation", "covariance"]), None]
    elif what == "remove":
        z = x.copy()
        z[1] = np.nan
        return [("remove_na", lambda a, b: c.remove_na(a, b, paired=True), [z, y]),
                ("remove_none", lambda a: c.remove_none(a), [[None] + list(z)])]
    elif what == "runs":
        name, mod = "runs_test", module("metcalcpy.util.wald_wolfowitz_runs_test")
        args = [ch.pick([list(x), [None] + list(x)]), "two.sided", ch.pick(["median", "mean"])]
    elif what == "revision":
        import pandas as pd
        name = "calculate_mtd_revision_stats"
        args = [pd.DataFrame({"stat_value": x, "revision_id": [i // 3 for i in range(n)]}), 1]
    elif what == "std_err":
        name = ch.pick(["compute_std_err_from_mean", "compute_std_err_from_sum", "autocor_coef",
                        "compute_std_err_from_median_no_variance_inflation_factor",
                        "compute_std_err_from_median_variance_inflation_factor"])
        args = [list(x)]
    elif what == "lons":
        lon = np.arange(0, 360, 30)
        if ch.bool():
            lon = lon[::-1].copy()
        if ch.bool():
            name, args = "convert_lon_360_to_180", [ch.pick([lon, lon.astype(float)])]
        else:
            name, args = "convert_lons_indices", [lon.astype(float), -180, 360]
    elif what == "permutations":
        d = {"a": ["1", "2"], "b": ["x"], "c": ["p", "q", "r"][:ch.range(1, 3)], "e": []}
        if ch.bool():
            name, args = "create_permutations_mv", [d, 0]
        else:
            d.pop("e")
            name, args = "create_permutations", [list(d.values())]
    elif what == "derived":
        name, args = "calc_derived_curve_value", [list(x), list(y),
                                                  ch.pick(["DIFF", "RATIO", "SS", "ETB", "SINGLE"])]
    elif what == "difficulty":
        name, mod = "forecast_difficulty", module("metcalcpy.calc_difficulty_index")
        mu = abs(g.normal(10, 4, (n, 3))) + 0.5
        sig = abs(g.normal(2, 1, (n, 3))) + 0.1
        if ch.bool(0.3):
            mu[0, 0] = np.nan
        args = [sig, mu, 9.0, g.normal(10, 4, (n, 3, 5)), None, ch.pick([1e-3, 0.7])]
    elif what == "piecewise":
        p = module("metcalcpy.piecewise_linear")

        def call(xs, ys, at):
            f = p.PiecewiseLinear(xs, ys, left=0.0, right=0.0)
            return f.values(at), f.get_ymax()
        xs, ys = [3.0, 9.0, 12.0], [0.0, 1.5, 0.5]
        if ch.bool():
            xs, ys = np.array(xs), np.array(ys)
        return [(what, call, [xs, ys, g.uniform(0, 15, (3, 4))])]
    elif what == "economic":
        s = module("metcalcpy.util.ctc_statistics")
        e = module("metcalcpy.util.eclv_statistics")
        cl = np.array([0.9, 0.3, 0.5, 0.1])[:ch.range(2, 4)]
        tab = g.integers(1, 20, (n, 4)).astype(float)
        cols = np.array(["fy_oy", "fy_on", "fn_oy", "fn_on"])
        base = ch.pick([0, 1])
        return [("calculate_economic_value", lambda v, k: s.calculate_economic_value(v, k, base == 1),
                 [tab.sum(axis=0), cl]),
                ("calculate_eclv", lambda v, k, q: e.calculate_eclv(v, k, None, "ctc", q, base),
                 [tab, cols, cl]),
                ("calculate_economic_value default", lambda v: s.calculate_economic_value(v),
                 [tab.sum(axis=0)])]
    elif what == "roc":
        import pandas as pd
        name, mod = "calculate_ctc_roc", module("metcalcpy.util.ctc_statistics")
        t = [">1", ">3", ">2", "<=4"]
        args = [pd.DataFrame({"fcst_thresh": [t[i % len(t)] for i in range(n)],
                              "fcst_valid_beg": [f"d{i}" for i in range(n)], "fcst_lead": 3,
                              **{k: g.integers(1, 20, n) for k in ("fy_oy", "fy_on", "fn_oy", "fn_on")}}),
                ch.bool()]
    elif what == "bootstrap":
        b = module("metcalcpy.bootstrap")
        seed = ch.int(1000)

        def call(v):
            np.random.seed(seed)
            r = b.bootstrap_and_value(v, b.mean, num_iterations=10, block_length=ch_block,
                                      save_distributions=True)
            return [r.value, r.lower_bound, r.upper_bound, list(r.distributions)]
        ch_block = ch.pick([1, 3])
        return [(what, call, [x.reshape(n, 1)])]
    elif what == "means":
        m = module("metcalcpy.pre_processing.directional_means")
        f = field(g, 2, 5, 6)
        d = f.rename({"lat": "latitude", "lon": "longitude"})
        if ch.bool():
            return [("zonal_mean", m.zonal_mean, [d])]
        return [("meridional_mean", lambda a: m.meridional_mean(a, -20, 20), [d])]
    elif what == "waves":
        m = module("metcalcpy.pre_processing.waves")
        d = field(g, 2, 3, 8).rename({"lon": "longitude"})
        name = ch.pick(["zonal_wave_coeffs", "zonal_wave_ampl_phase", "zonal_wave_contributions"])
        w = ch.pick([None, [1, 2]])
        return [(name, lambda a, k: getattr(m, name)(a, waves=k), [d, w])]
    elif what == "cross":
        m = module("metcalcpy.contributed.spacetime.spacetime")
        shp = (ch.pick([8, 9]), 4, ch.pick([6, 7]))
        a, b2 = g.normal(size=shp), g.normal(size=shp)
        lat = np.array([-15.0, -5.0, 5.0, 15.0])
        return [("mjo_cross_segment", lambda p, q: m.mjo_cross_segment(p, q), [a, b2]),
                ("get_symmasymm", lambda p, q, o=ch.pick(["symm", "asymm"]): m.get_symmasymm(p, q, o),
                 [a, lat]),
                ("kf_filter", lambda p: m.kf_filter(p, 1, 2.5, 6.0, 1, 3, 8, 90, "Kelvin"),
                 [g.normal(size=(16, 12))])]
    elif what == "spectra":
        # the functions that recompute entries of a spectra array do so in place, as documented
        m = module("metcalcpy.contributed.spacetime.spacetime")
        return [("smooth121_1D", lambda p: m.smooth121_1D(p), [abs(g.normal(size=n))])]
    elif what == "flip":
        m = module("metcalcpy.contributed." + ch.pick(["spacetime.spacetime_utils",
                                                       "tropical_diagnostics.utils"]))
        d = field(g, 2, 3, 8, lon0=ch.pick([0.0, -180.0]))
        lon = d["lon"]
        return [("lonFlip", lambda a, b2: m.lonFlip(a, b2), [d, lon])]
    elif what == "rmm":
        m = module("metcalcpy.contributed.rmm_omi.compute_mjo_indices")
        d = field(g, 12, 2, 6).isel(lat=0)
        return [("rem_120day_mean", lambda a: m.rem_120day_mean(a, a["time"].values), [d]),
                ("zon_avg_variance", lambda a: m.zon_avg_variance(a), [d]),
                ("taper_vector_to_zero", lambda a: m.taper_vector_to_zero(a, 3), [g.normal(size=20)])]
    elif what == "filter":
        m = module("metcalcpy.contributed.rmm_omi.compute_mjo_indices")
        if ch.bool(0.9):
            d = field(g, 12, 2, 6)
            eof = d.isel(time=[0, 1]).drop_vars("time")
            return [("regress", lambda v, a, b2: m.regress_vector_onto_eofs(v, a, b2),
                     [g.normal(size=6), g.normal(size=6), g.normal(size=6)]),
                    ("zon_avg_variance", lambda a: m.zon_avg_variance(a), [eof])]
        d = field(g, 12, 1, 1)
        if ch.bool():
            return [("spectral filter", lambda a: m.perform_3dim_spectral_filtering(
                a, 1.0, 20, 96, -720, 720), [field(g, 12, 1, 4)])]
        return [("bandpass_filter_3D", lambda a: m.bandpass_filter_3D(a, a["time"].values, 20, 96), [d])]
    elif what == "regimes":
        m = module("metcalcpy.contributed.blocking_weather_regime.Blocking_WeatherRegime_util")
        k = g.normal(size=(3, 4, 5))
        return [("reorder_fcst_regimes", lambda *a: m.reorder_fcst_regimes(*a),
                 [k, np.array([50.0, 30.0, 20.0]), g.integers(1, 4, (2, 6)).astype(float), 3, [2, 3, 1]]),
                ("reorder_fcst_regimes_correlate", lambda *a: m.reorder_fcst_regimes_correlate(*a),
                 [k, k[::-1].copy(), np.array([50.0, 30.0, 20.0]),
                  g.integers(1, 4, (2, 6)).astype(float), 3])]
    elif what == "filtered_rows":
        df = wide(ch)
        v, cols = df.to_numpy(), df.columns.to_numpy()
        flt = {"simple_flag": 1, "fcst_flag": 0}
        return [("column_data_by_name", lambda *a: u.column_data_by_name(*a), [v, cols, "total"]),
                ("column_data_by_name_value", lambda *a: u.column_data_by_name_value(*a), [v, cols, flt]),
                ("nrow_column_data_by_name_value",
                 lambda *a: u.nrow_column_data_by_name_value(*a), [v, cols, flt]),
                ("get_total_values", lambda *a: u.get_total_values(*a), [v, cols, True])]
    elif what == "interp":
        return interp(ch, g)
    elif what == "tcrmw":
        import argparse
        import xarray as xr
        m = module("metcalcpy.process_tcrmw")
        dims = {"range": 2, "azimuth": 4, "pressure": 2, "track_point": ch.range(1, 2)}
        ds = xr.Dataset({v: (list(dims), g.normal(size=list(dims.values())))
                         for v in ("UGRD", "VGRD", "TMP")},
                        coords={k: np.arange(k2) * 10.0 for k, k2 in dims.items()})
        a = argparse.Namespace(T="TMP", u="UGRD", v="VGRD")
        return [(what, lambda d: m.compute_wind_components(a, d), [ds])]
    elif what == "enso":
        m = module("metcalcpy.contributed.mjo_enso.compute_mjo_enso")
        u2, v2 = field(g, 12, 5, 4), field(g, 12, 5, 4)
        return [("calc_wpower_MJO", m.calc_wpower_MJO, [u2, v2, field(g, 12, 5, 4), field(g, 12, 5, 4)]),
                ("calc_tau_MJO", m.calc_tau_MJO,
                 [field(g, 12, 5, 4), field(g, 4, 5, 4), g.normal(size=(3, 20)), g.normal(size=(3, 20))])]
    elif what == "indices":
        m = module("metcalcpy.contributed.rmm_omi.compute_mjo_indices")
        a, b2, c2 = (field(g, 12, 1, 6).isel(lat=0, drop=True) for _ in range(3))
        e1, e2 = (field(g, 3, 1, 6).isel(lat=0, drop=True) for _ in range(2))
        return [("rmm", lambda o, x1, x2, f1, f2, q, r: m.rmm(o, x1, x2, o["time"].values, 1, f1, f2, q, r),
                 [a, b2, c2, e1, e2, [15.0, 1.8, 4.8], [8.6, 8.4]]),
                ("mjo_cross", lambda p, q: module("metcalcpy.contributed.spacetime.spacetime").mjo_cross(
                    p, q, 8, -2), [g.normal(size=(20, 2, 6)), g.normal(size=(20, 2, 6))])]
    elif what == "eof":
        import os
        os.environ["SCRIPT_OUTPUT_BASE"] = "/nonexistent"
        os.environ["FCST_NUM_PCS"] = "3"
        os.environ["FCST_WR_NUMBER"] = "2"
        m = module("metcalcpy.contributed.blocking_weather_regime.WeatherRegime")
        w = m.WeatherRegimeCalculation("FCST")
        z = g.normal(size=(3, 4, 2, 3))
        lat, lon = np.array([20.0, 50.0]), np.array([0.0, 10.0, 20.0])
        return [("Calc_EOF", lambda a: w.Calc_EOF(a), [z]),
                ("weights_detrend", lambda *a: w.weights_detrend(*a), [lat, lon, z]),
                ("reconstruct_heights", lambda *a: w.reconstruct_heights(*a),
                 [g.normal(size=(3, 2, 3)), g.normal(size=(12, 3)), (12, 6)]),
                ("run_K_means", lambda a: w.run_K_means(a, {}, (3, 4, 2, 3)), [z.reshape(12, 6)]),
                ("compute_wr_freq", lambda a: w.compute_wr_freq(a),
                 [g.integers(1, 3, (2, 9)).astype(float)])]
    elif what == "blocking":
        m = module("metcalcpy.contributed.blocking_weather_regime.Blocking")
        b = m.BlockingCalculation("FCST")
        ibl = np.zeros((1, 8, 360))
        at = ch.int(300)
        ibl[0, 1:8, at:at + 25] = 1
        ibl[0, 2, at + 3] = 0
        return [("run_Calc_GIBL", lambda *a: b.run_Calc_GIBL(*a), [ibl, np.arange(360)]),
                ("run_Calc_Blocks", lambda p, q: b.run_Calc_Blocks(p, b.run_Calc_GIBL(p, q), q, None),
                 [ibl, np.arange(360)]),
                ("run_mod_blocking1d", lambda *a: b.run_mod_blocking1d(*a),
                 [g.normal(size=(2, 91, 6)), np.full(6, 45.0), np.arange(91)[::-1], np.arange(6), "PH"])]
    elif what == "groups":
        import pandas as pd
        df = pd.DataFrame({"model": [f"M{i % 3}" for i in range(n)], "vx_mask": "FULL",
                           "fcst_valid_beg": [f"2022-05-{i // 3 + 1:02d} 00:00:00" for i in range(n)],
                           "fcst_lead": 30000, "stat_name": "MAE", "fcst_var": "TMP", "total": 10,
                           **{k: g.uniform(0.1, 0.9, n) for k in jobs.FIELDS["sl1l2"] if k != "total"}})
        sv = {"model": ch.pick([["M0;M1", "M2"], ["M0", "M1"], ["M0;M1;M2"]]), "vx_mask": ["FULL"]}
        return [("aggregate_field_values", lambda a, b2: u.aggregate_field_values(a, b2, "sl1l2"), [sv, df]),
                ("select_series_data", lambda a, b2: u.select_series_data(a, b2), [sv, df])]
    f = getattr(mod, name, None)
    return [] if f is None else [(f"{what}:{name}", f, args)]


def interp(ch, g):
    """Heights of pressure levels and interpolation to heights."""
    import xarray as xr
    m = module("metcalcpy.vertical_interp")
    lev = np.array([1000.0, 850.0, 700.0, 500.0])[:ch.range(2, 4)]
    k = len(lev)
    co = {"lev": ("lev", lev, {"units": "hPa"}), "lat": [0.0, 1.0], "lon": [0.0, 1.0]}
    two = {"lat": co["lat"], "lon": co["lon"]}
    cfg = {"vertical_dim_name": "lev", "vertical_levels": [100, 1500, 3000][:ch.range(1, 3)],
           "vertical_level_units": "meter"}
    temp = xr.DataArray(280 + g.normal(size=(k, 2, 2)), dims=("lev", "lat", "lon"), coords=co,
                        attrs={"units": "K"})
    rh = xr.DataArray(g.uniform(0.1, 0.9, (k, 2, 2)), dims=("lev", "lat", "lon"), coords=co,
                      attrs={"units": "dimensionless"})
    geo = xr.DataArray(g.uniform(0, 50, (2, 2)), dims=("lat", "lon"), coords=two)
    sp = xr.DataArray(101000 + g.normal(size=(2, 2)), dims=("lat", "lon"), coords=two,
                      attrs={"units": "Pa"})
    z = xr.DataArray(np.sort(g.uniform(0, 4000, (k, 2, 2)), axis=0), dims=("lev", "lat", "lon"),
                     coords=co, attrs={"units": "meter"})
    return [("height_from_pressure", m.height_from_pressure, [cfg, geo, sp, temp, rh]),
            ("vertical_interp", lambda c, a, b: m.vertical_interp("T", c, a, b), [cfg, z, temp])]
