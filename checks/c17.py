"""C17: evaluation of farm results"""

import warnings

import numpy as np
import pandas as pd
import xarray as xr

import foxes
import foxes.variables as FV
import foxes.constants as FC

from harness.core import rng_of
from harness.scen import Scenario, engine_ctx, random_spec, make_curve

PROPERTY = "C17"
RULE = (
    "farm results of mixed farms (power units, nominal powers, weights per state or per state and turbine, "
    "calm states, time series of various steps) reduced by every function of FarmResultsEval and compared with "
    "explicit sums; non-trivial with more than one state, turbine and distinct weights"
)
ASSUMES = ["state weights are used as given, they sum to one in the results of a calculation"]
REQUIRED_EVENTS = [
    "weights:states", "weights:turbines", "weights:uniform", "yield:timeseries", "yield:hours", "yield:annual",
    "yield:ambient", "capacity", "efficiency", "farm-yield", "uncertainty", "mixed-units", "mixed-types",
    "nan-states", "calm", "delta_t", "single-state", "speed-up",
]


def cases(tier, seed):
    n = 130 if tier == "quick" else 1800
    out = []
    for i in range(n):
        rng = rng_of(PROPERTY, seed, i)
        sp = random_spec(
            rng, int(rng.integers(1 << 31)), n_t=(1, 7), n_s=(2, 12), states=["timeseries", "table", "mh"],
            wakes=("Jensen", "Bastankhah2014"), tik=False,
            sup=["linear", "quadratic", "max"], pwakes=(None,), grounds=False, rotors=("centre", "grid4"),
        )
        if i % 9 == 0:
            sp["n_s"] = 1
        sp.update(
            wt=bool(rng.random() < 0.3), units=bool(rng.random() < 0.5), calm=bool(rng.random() < 0.4),
            dt_min=float(rng.choice([1, 10, 30, 60, 1440])), engine=["numpy", [None, 2][int(rng.integers(0, 2))]],
        )
        out.append(sp)
    return out


UNITS = {"W": 1.0, "kW": 1e3, "MW": 1e6}


def run(spec, rec):
    scn = Scenario(spec)
    rng = rng_of("c17", spec["seed"])
    n_s, n_t = scn.n_s, scn.n_t
    mb = foxes.ModelBook()
    pn, pu = [], []
    for k, t in enumerate(scn.types):
        u = "kW"
        cur = t["curve"].copy()
        if spec["units"]:
            u = str(rng.choice(["W", "kW", "MW"]))
            cur["P"] *= 1e3 / UNITS[u]
        kw = {}
        p = float(cur["P"].max())
        if rng.random() < 0.5:  # else: taken from the curve
            p = p * float(rng.choice([1.0, 1.02]))
            kw["P_nominal"] = p
        mb.turbine_types[t["name"]] = foxes.models.turbine_types.PCtFile(
            cur, D=t["D"], H=t["H"], rho=t["rho"], P_unit=u, **kw
        )
        pn.append(p)
        pu.append(UNITS[u])
    if spec["calm"]:
        rec.event("calm")
        scn.ws[rng.integers(0, n_s)] = 1.0
        scn.ws[rng.integers(0, n_s)] = 40.0
        if hasattr(scn, "mh_ws"):
            scn.mh_ws[rng.integers(0, n_s)] = 1.5
    pn, pu = np.array(pn)[scn.ttype], np.array(pu)[scn.ttype]
    if len(set(pu)) > 1:
        rec.event("mixed-units")
    if len(set(scn.ttype)) > 1:
        rec.event("mixed-types")
    with engine_ctx(spec["engine"][0], 2, spec["engine"][1], None):
        algo = scn.algo(mbook=mb)
        fr = algo.calc_farm()
    if spec["wt"]:
        w = rng.uniform(0.1, 1, (n_s, n_t))
        w /= w.sum(axis=0)
        fr[FV.WEIGHT] = ((FC.STATE, FC.TURBINE), w)
        rec.event("weights:turbines")
    else:
        w = fr[FV.WEIGHT].values
        w = np.repeat(w[:, None], n_t, 1) if w.ndim == 1 else w
        if spec["states"] == "table":
            w0 = scn.weight
            rec.event("weights:states")
        else:
            w0 = np.full(n_s, 1 / n_s)
            rec.event("weights:uniform")
        rec.close(w, np.repeat(w0[:, None], n_t, 1), "weights", "weights in farm results")
    w = w.copy()
    if spec["seed"] % 4 == 0:
        # speed-ups: more power than without wakes
        rec.event("speed-up")
        a = fr[FV.AMB_P].values.copy()
        fr[FV.AMB_P] = (fr[FV.AMB_P].dims, a * rng.choice([1.0, 0.6], a.shape))
    if n_s > 1 and n_t > 1:
        rec.nontrivial()
    if n_s == 1:
        rec.event("single-state")
    copy = fr.copy(deep=True)
    o = foxes.output.FarmResultsEval(fr)
    V = [FV.P, FV.REWS, FV.AMB_P, FV.CT]
    X = {v: fr[v].values.copy() for v in V}
    tol = dict(rtol=1e-9, atol=1e-12)

    def frame(got, exp, key, index, iname):
        rec.check(list(got.index) == list(index) if index.dtype.kind != "M" else np.all(got.index.to_numpy() == index), key + "|index", f"{key}: index {got.index}")
        for v, e in exp.items():
            rec.close(got[v].to_numpy(), e, key, f"{key} of {v}", **tol)
        rec.check(set(got.columns) == set(exp), key + "|columns", f"{key}: columns {list(got.columns)}")
        rec.event(key)

    ti = np.arange(n_t)
    frame(o.calc_states_mean(V), {v: (w * x).sum(0) for v, x in X.items()}, "states-mean", ti, FC.TURBINE)
    frame(o.calc_states_mean(FV.P), {FV.P: (w * X[FV.P]).sum(0)}, "states-mean-1", ti, FC.TURBINE)
    frame(o.calc_states_mean(V, use_weights=False), {v: x.sum(0) / n_s for v, x in X.items()}, "states-mean-nw", ti, FC.TURBINE)
    frame(o.calc_states_sum(V), {v: x.sum(0) for v, x in X.items()}, "states-sum", ti, FC.TURBINE)
    frame(
        o.calc_states_std(V), {v: np.sqrt(((x - x.mean(0)) ** 2).mean(0)) for v, x in X.items()}, "states-std", ti, FC.TURBINE
    )
    ops = dict(zip(V, rng.permutation(["min", "max", "weights", "sum"])))
    f = dict(min=lambda x, ax: x.min(ax), max=lambda x, ax: x.max(ax), sum=lambda x, ax: x.sum(ax), mean_no_weights=lambda x, ax: x.mean(ax))
    frame(
        o.reduce_states(dict(ops)),
        {v: (w * X[v]).sum(0) if p == "weights" else f[p](X[v], 0) for v, p in ops.items()}, "reduce-states", ti, FC.TURBINE,
    )
    st = fr[FC.STATE].values if FC.STATE in fr.coords else np.arange(n_s)
    opt = dict(zip(V, rng.permutation(["min", "max", "mean_no_weights", "sum"])))
    frame(o.reduce_turbines(dict(opt)), {v: f[p](X[v], 1) for v, p in opt.items()}, "reduce-turbines", st, FC.STATE)
    frame(o.calc_turbine_mean(V), {v: x.mean(1) for v, x in X.items()}, "turbine-mean", st, FC.STATE)
    frame(o.calc_turbine_sum(V), {v: x.sum(1) for v, x in X.items()}, "turbine-sum", st, FC.STATE)

    # full reductions
    def red(x, so, to):
        a = (w * x).sum(0) if so == "weights" else f[so](x, 0)
        return f[to](a, 0)

    sops = {v: str(rng.choice(["weights", "sum", "min", "max", "mean_no_weights"])) for v in V}
    tops = {v: str(rng.choice(["sum", "min", "max", "mean_no_weights"])) for v in V}
    got = o.reduce_all(dict(sops), dict(tops))
    for v in V:
        rec.close(got[v], red(X[v], sops[v], tops[v]), "reduce-all|" + tops[v], f"reduce_all {sops[v]}, {tops[v]} of {v}", **tol)
    got = o.calc_farm_sum(V)
    for v in V:
        rec.close(got[v], X[v].sum(), "farm-sum", f"calc_farm_sum of {v}", **tol)
    got = o.calc_farm_mean(V)
    for v in V:
        rec.close(got[v], (w * X[v]).sum(0).mean(), "farm-mean", f"calc_farm_mean of {v}", **tol)
    rec.close(o.calc_mean_farm_power(), (w * X[FV.P]).sum(), "mean-power", "mean farm power", **tol)
    rec.close(o.calc_mean_farm_power(ambient=True), (w * X[FV.AMB_P]).sum(), "mean-power", "mean ambient farm power", **tol)

    # yield in GWh
    PW = {False: (w * X[FV.P]).sum(0) * pu, True: (w * X[FV.AMB_P]).sum(0) * pu}
    ts = spec["states"] in ("timeseries", "mh")
    yv = {False: FV.YLD, True: FV.AMB_YLD}
    for amb in (False, True):
        if amb:
            rec.event("yield:ambient")
        kw, hours = {}, None
        if ts:
            step = np.timedelta64(int(round(spec["dt_min"] * 60)), "s")
            if n_s == 1 or rng.random() < 0.3:
                dt = np.timedelta64(int(rng.integers(1, 7200)), "s").astype("timedelta64[ns]")
                kw["delta_t"] = dt
                rec.event("delta_t")
            else:
                dt = step
            hours = ((n_s - 1) * step + dt) / np.timedelta64(1, "s") / 3600
            rec.event("yield:timeseries")
        annual = bool(rng.random() < 0.5)
        if not ts:
            if not annual or rng.random() < 0.5:
                hours = float(rng.choice([1, 24, 8760, 1000.5]))
                kw["hours"] = hours
                rec.event("yield:hours")
            else:
                hours = 8760.0
        e = PW[amb] * (8760.0 if annual else hours) / 1e9
        if annual:
            rec.event("yield:annual")
        if rng.random() < 0.7 or len(set(pu)) > 1:
            kw["algo"] = algo
        else:
            kw["P_unit_W"] = float(pu[0])
        y = o.calc_turbine_yield(annual=annual, ambient=amb, **kw)
        frame(y, {yv[amb]: e}, "yield", ti, FC.TURBINE)
        # farm
        unc = None if rng.random() < 0.5 else float(rng.uniform(0.01, 0.2))
        m = rng.integers(0, 2)
        if m == 0:
            q = o.calc_farm_yield(turbine_yield=y, power_uncert=unc)
            tot = e.sum()
        else:
            q = o.calc_farm_yield(annual=True, ambient=amb, power_uncert=unc, **kw)
            tot = PW[amb].sum() * 8760 / 1e9
        rec.event("farm-yield")
        if unc is None:
            rec.close(q, tot, f"farm-yield|{'amb' if amb else ''}", "farm yield", **tol)
        else:
            rec.event("uncertainty")
            rec.close(np.array(q, dtype=float), tot * np.array([1, 1 - 0.675 * unc, 1 - 1.282 * unc]), "farm-yield-P", "farm yield, P75, P90", **tol)

    # efficiency
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        e = np.where(X[FV.P] < 1e-10, 0.0, np.minimum(X[FV.P] / np.maximum(X[FV.AMB_P], 1e-12), 1))
    fe = (w * X[FV.P]).sum() / max((w * X[FV.AMB_P]).sum(), 1e-14)
    rec.close(o.calc_farm_efficiency(), min(fe, 1), "farm-efficiency", "farm efficiency", **tol)
    rec.check(all(v in fr and np.array_equal(fr[v].values, copy[v].values, equal_nan=copy[v].dtype.kind == "f") for v in copy), "mutated", "evaluation changed the farm results")
    o.add_efficiency(verbosity=0)
    rec.close(fr[FV.EFF].values, e, "efficiency", "efficiency", **tol)
    rec.event("efficiency")
    # capacity
    for amb in (False, True):
        v, c = (FV.AMB_P, FV.AMB_CAP) if amb else (FV.P, FV.CAP)
        if rng.random() < 0.7:
            o.add_capacity(algo, ambient=amb, verbosity=0)
        else:
            o.add_capacity(P_nom=[float(x) for x in pn], ambient=amb, verbosity=0)
        rec.close(fr[c].values, X[v] / pn[None], "capacity", f"{c}", **tol)
        rec.event("capacity")
    rec.check(all(np.array_equal(fr[v].values, copy[v].values, equal_nan=copy[v].dtype.kind == "f") for v in copy), "mutated", "evaluation changed the farm results")

    # the weighted contraction skips states with missing values and renormalizes
    A = rng.uniform(-2, 5, (n_s, n_t))
    B = rng.uniform(-2, 5, (n_s, n_t))
    good = np.ones(n_s, bool)
    if n_s > 2 and rng.random() < 0.7:
        k = rng.integers(0, n_s)
        A[k, rng.integers(0, n_t)] = np.nan
        good[k] = False
        rec.event("nan-states")
    ww = w[good] * (w.sum(0) / w[good].sum(0))[None]
    for rhs, ax in (("t", 0), ("", None)):
        rec.close(o.weinsum(rhs, A), (ww * A[good]).sum(ax), "weinsum", f"weinsum {rhs}", **tol)
        rec.close(o.weinsum(rhs, A, B), (ww * (A * B)[good]).sum(ax), "weinsum2", f"weinsum {rhs} of a product", **tol)
        rec.close(o.weinsum(rhs, FV.P, B), (w * X[FV.P] * B).sum(ax), "weinsum3", f"weinsum {rhs} of P and field", **tol)
    w2 = fr[FV.WEIGHT].values
    rec.close(w2 if w2.ndim == 2 else np.repeat(w2[:, None], n_t, 1), w, "mutated-weights", "weights after evaluation", rtol=0, atol=0)
    rec.sample = dict(spec=spec)
