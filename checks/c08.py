"""C08: algorithms agree where they describe the same flow"""

import numpy as np
import foxes
import foxes.variables as FV
import foxes.constants as FC

from harness.core import rng_of
from harness.scen import Scenario, random_spec, engine_ctx, lighten
from harness.cmp import compare, max_deficit

PROPERTY = "C08"
RULE = (
    "the same random farm and states calculated with Downwind, Iterative and Sequential, and "
    "again with calc_points at the turbine hubs; non-trivial when turbines are in wakes"
)
ASSUMES = [
    "wind wakes independent of wake-added TI, except in the iterative-only comparisons",
    "thrust curve smoothing at cut-in of the iterative algorithm switched off",
]
REQUIRED_EVENTS = ["iterative", "sequential", "hub-points", "self-consistent", "criteria-list", "under-relaxed", "waked-turbines"]
NOCUT = dict(mod_cutin=dict(modify_ct=False, modify_P=False))


def cases(tier, seed):
    n = 110 if tier == "quick" else 1100
    out = []
    for i in range(n):
        rng = rng_of(PROPERTY, seed, i)
        mode = ["iter", "seq", "hub", "self"][i % 4]
        sp = random_spec(
            rng,
            rng.integers(1 << 31),
            states=["timeseries", "table", "mh", "field"],
            n_t=(2, 8),
            n_s=(2, 6),
            tik=mode in ("self", "seq"),
            frames=("rotor_wd", "rotor_wd", "rotor_wd", "streamlines_100"),
        )
        sp["mode"] = mode
        if mode not in ("self", "seq") and sp["wakes"][0].startswith("Bastankhah2016"):
            sp["wakes"] = sp["wakes"][:1]
        if mode == "hub":
            sp["rotor"] = "centre"
            sp["pwakes"] = ["centre", "rotor_points"][rng.integers(0, 2)]
        if mode in ("seq", "hub"):
            sp["cls"] = "Downwind"
        lighten(sp)
        if sp["frame"].startswith("stream") and mode == "seq":
            sp["n_t"], sp["n_s"] = 2, 2
        out.append(sp)
    for i in range(10 if tier == "quick" else 100):
        # wind directions of the turbines on both sides of north
        rng = rng_of(PROPERTY, seed, "north", i)
        sp = random_spec(rng, rng.integers(1 << 31), states=["mh", "field", "field"], n_t=(3, 8), n_s=(2, 5), tik=False, frames=("rotor_wd",))
        sp["mode"], sp["wd_about"] = "iter", [0.0, 0.0, 359.0, 2.0, 180.0][i % 5]
        if sp["wakes"][0].startswith("Bastankhah2016"):
            sp["wakes"] = sp["wakes"][:1]
        lighten(sp)
        out.append(sp)
    out.append(dict(mode="sweep", seed=3))
    for ep in ("pre_wake", "last", "first", "pre_rotor", "post_rotor"):
        out.append(dict(mode="urelax", entry=ep, seed=3))
    return out


def run_sweep(spec, rec):
    """wind wakes that grow with wake-added TI: Downwind versus the converged iterative solution"""
    farm = foxes.WindFarm()
    for x in range(4):
        farm.add_turbine(
            foxes.Turbine(xy=[600.0 * x, 20.0 * x], turbine_models=["NREL5MW"]), verbosity=0
        )
    res = []
    for cls, kw in (("Downwind", {}), ("Iterative", NOCUT)):
        with engine_ctx("single"):
            a = getattr(foxes.algorithms, cls)(
                farm,
                foxes.input.states.SingleStateStates(ws=9.0, wd=270.0, ti=0.05, rho=1.225),
                wake_models=["Bastankhah2014_linear_ka02", "CrespoHernandez_max_k004"],
                verbosity=0,
                **kw,
            )
            if cls == "Iterative":
                a.conv_crit = foxes.algorithms.iterative.models.ConvVarDelta({FV.REWS: 1e-10, FV.TI: 1e-10})
            res.append(a.calc_farm()[FV.REWS].values)
    rec.event("sweep")
    rec.close(res[0], res[1], "downwind-multi-model-sweep", "REWS with wake growth from wake-added TI, Downwind and Iterative", rtol=1e-6)


def run_urelax_entry(spec, rec):
    """under-relaxation before the ambient calculations of each iteration"""
    farm = foxes.WindFarm()
    for x in range(4):
        farm.add_turbine(
            foxes.Turbine(xy=[600.0 * x, 20.0 * x], turbine_models=["NREL5MW"]), verbosity=0
        )
    res = []
    for ep in (None, spec["entry"]):
        with engine_ctx("single"):
            a = foxes.algorithms.Iterative(
                farm,
                foxes.input.states.SingleStateStates(ws=9.0, wd=270.0, ti=0.05, rho=1.225),
                wake_models=["Jensen_linear_k007"],
                verbosity=0,
                **NOCUT,
            )
            if ep is not None:
                a.set_urelax(ep, CT=0.4)
            try:
                res.append(a.calc_farm())
            except Exception as e:
                rec.event("oracle:urelax-entry")
                rec.violate(f"urelax-entry|{ep}", f"set_urelax('{ep}', CT=0.4): {type(e).__name__}: {e}")
                return
    compare(rec, res[1], res[0], f"urelax-entry|{spec['entry']}", "with under-relaxation", rtol=1e-5, atol=1e-5)


def run(spec, rec):
    if spec["mode"] == "urelax":
        return run_urelax_entry(spec, rec)
    if spec["mode"] == "sweep":
        return run_sweep(spec, rec)
    scn = Scenario(spec)
    rng = rng_of("c08", spec["seed"])
    mode = spec["mode"]
    pts = scn.points(12)
    p3 = np.tile(pts[None], (scn.n_s, 1, 1))
    cs = [None, 1, 2, 3][rng.integers(0, 4)]

    def strict(a):
        a.conv_crit = foxes.algorithms.iterative.models.ConvVarDelta(
            {FV.REWS: 1e-10, FV.TI: 1e-11, FV.CT: 1e-11}
        )
        return a

    wake = 0
    if mode == "iter":
        with engine_ctx("numpy", 2, cs, None):
            a = scn.algo("Downwind")
            fr0 = a.calc_farm()
            pr0 = a.calc_points(fr0, p3)
            a = strict(scn.algo("Iterative", **NOCUT))
            fr = a.calc_farm()
            pr = a.calc_points(fr, p3)
        rec.event("iterative")
        compare(rec, fr, fr0, "farm", "Iterative vs Downwind", rtol=1e-7, atol=1e-7)
        compare(rec, pr, pr0, "points", "Iterative vs Downwind", rtol=1e-7, atol=1e-7)
        wake = max_deficit(fr0)
    elif mode == "seq":
        with engine_ctx("numpy", 2, cs, None):
            a = strict(scn.algo("Iterative", **NOCUT))
            fr0 = a.calc_farm()
            pr0 = a.calc_points(fr0, p3)
        with engine_ctx("single"):
            a = strict(scn.algo("Sequential", points=pts, **NOCUT))
            n = 0
            for fres, pres in a:
                rec.check(fres.sizes[FC.STATE] == 1, "one-state", f"{dict(fres.sizes)}")
                rec.close(fres[FC.STATE].values, fr0[FC.STATE].values[n : n + 1], "state-label", "label of the current state")
                for v in (FV.REWS, FV.P, FV.TI):
                    rec.close(fres[v].values[0], fr0[v].values[n], f"step|{v}", f"state {n}", rtol=1e-7, atol=1e-7)
                rec.close(pres[FV.WS].values[0], pr0[FV.WS].values[n], "step|WS", f"state {n}", rtol=1e-7, atol=1e-7)
                for v in (FV.REWS, FV.P, FV.TI):
                    rec.close(a.cur_farm_results[v].values, fres[v].values, f"current|{v}", f"current farm results, state {n}")
                for v in (FV.WS, FV.TI):
                    rec.close(a.cur_point_results[v].values, pres[v].values, f"current|{v}", f"current point results, state {n}")
                n += 1
            fr, pr, fd = a.farm_results, a.point_results, a.farm_results_downwind
        rec.event("sequential")
        o = fr[FV.ORDER].values.astype(int)
        for v in (FV.REWS, FV.P, FV.TI, FV.X):
            rec.close(fd[v].values, np.take_along_axis(fr[v].values, o, 1), f"downwind-order|{v}", "results in downwind order")
        rec.check(n == scn.n_s, "n-states", f"{n} states visited, {scn.n_s} exist")
        only = set(fr0.data_vars) & set(fr.data_vars)
        compare(rec, fr[sorted(only)], fr0[sorted(only)], "farm", "Sequential vs Iterative", rtol=1e-7, atol=1e-7)
        only = set(pr0.data_vars) & set(pr.data_vars)
        rec.check({FV.WS, FV.WD, FV.TI, FV.AMB_WS} <= only, "point-vars", f"{sorted(only)}")
        compare(rec, pr[sorted(only)], pr0[sorted(only)], "points", "Sequential vs Iterative", rtol=1e-7, atol=1e-7)
        wake = max_deficit(fr0)
    elif mode == "hub":
        cls = spec["cls"]
        with engine_ctx("numpy", 2, cs, None):
            a = scn.algo(cls)
            fr = a.calc_farm()
            hubs = np.stack([fr[v].values for v in (FV.X, FV.Y, FV.H)], axis=-1)
            pr = a.calc_points(fr, hubs)
        rec.event("hub-points", int(np.prod(hubs.shape[:2])))
        rec.close(hubs[..., 0], np.tile(scn.xy[None, :, 0], (scn.n_s, 1)), "hub|x", "turbine positions")
        rec.close(hubs[..., 1], np.tile(scn.xy[None, :, 1], (scn.n_s, 1)), "hub|y", "turbine positions")
        ok = np.ones(hubs.shape[:2], dtype=bool)
        # turbines do not feel those further downstream in the downwind algorithm
        # for non-uniform flow the order is not that of the local wind directions
        if spec["states"] in ("field",) or spec["frame"] != "rotor_wd":
            dws = np.abs(pr[FV.WS].values - fr[FV.REWS].values)
            o = fr[FV.ORDER].values.astype(int)
            ok[:] = False
            ok[np.arange(scn.n_s), o[:, -1]] = True
            if spec["frame"] != "rotor_wd":
                ok[:] = False
        for v, w in ((FV.REWS, FV.WS), (FV.TI, FV.TI), (FV.AMB_REWS, FV.AMB_WS), (FV.AMB_TI, FV.AMB_TI), (FV.RHO, FV.RHO)):
            if v in fr and w in pr:
                m = ok if not v.startswith("AMB") else None
                rec.close(fr[v].values, pr[w].values, f"hub|{v}", f"{cls} {v} of the turbine and {w} at its hub", rtol=1e-7, atol=1e-7, mask=m)
        wake = max_deficit(fr)
    elif mode == "self":
        # the converged iterative solution does not depend on the convergence path
        with engine_ctx("numpy", 2, cs, None):
            a = strict(scn.algo("Iterative", **NOCUT))
            fr0 = a.calc_farm()
            b = scn.algo("Iterative", conv_crit=None, max_it=3 * scn.n_t + 6, **NOCUT)
            fr1 = b.calc_farm()
        rec.event("self-consistent")
        # a list of criteria holds when all of them hold
        M = foxes.algorithms.iterative.models
        loose = [M.ConvVarDelta({FV.REWS: 1e2, FV.WD: 10.0}), M.ConvVarDelta({FV.TI: 1.0, FV.CT: 5.0})]
        crits = loose + [M.ConvVarDelta({FV.REWS: 1e-10}), M.ConvVarDelta({FV.TI: 1e-11, FV.CT: 1e-11})]
        crits = [crits[i] for i in rng.permutation(4)]
        e = scn.algo("Iterative", **NOCUT)
        e.conv_crit = M.ConvCritList(crits[:2])
        for c in crits[2:]:
            e.conv_crit.add_crit(c)
        with engine_ctx("numpy", 2, cs, None):
            fr4 = e.calc_farm()
        rec.event("criteria-list")
        rec.check(e.iterations == a.iterations, "criteria-list|iterations", f"{e.iterations} iterations with a list of criteria, {a.iterations} with the same in one")
        compare(rec, fr4, fr0, "criteria-list", "Iterative with a list of criteria", rtol=1e-6, atol=1e-6)
        compare(rec, fr1, fr0, "farm", "Iterative, converged vs fixed number of iterations", rtol=1e-6, atol=1e-6)
        rec.check(a.iterations < a.max_it, "converged", f"{a.iterations} iterations of {a.max_it}")
        with engine_ctx("single"):
            c = scn.algo("Iterative", **NOCUT)
            fr2 = c.calc_farm()
        with engine_ctx("threads", 2, cs, None):
            d = strict(scn.algo("Iterative", max_it=400, **NOCUT))
            urel = {[FV.CT, FV.REWS][rng.integers(0, 2)]: float(rng.uniform(0.1, 0.6))}
            if rng.random() < 0.4:
                urel[FV.TI] = float(rng.uniform(0.1, 0.6))
            d.set_urelax(["pre_wake", "last"][rng.integers(0, 2)], **urel)
            fr3 = d.calc_farm()
        rec.event("under-relaxed", d.iterations > a.iterations)
        rec.check(d.iterations < d.max_it, "urelax-converged", f"{urel}: {d.iterations} iterations of {d.max_it}")
        rec.check(d.iterations >= a.iterations, "urelax-active", f"{urel}: {d.iterations} iterations, {a.iterations} without")
        compare(rec, fr3, fr0, "urelax", f"Iterative with under-relaxation {urel}", rtol=1e-6, atol=1e-6)
        compare(rec, fr2, fr0, "default-criterion", "Iterative with the default convergence criterion", rtol=2e-3, atol=2e-3, skip=(FV.P,))
        wake = max_deficit(fr0)
    rec.event("waked-turbines", int(wake > 1e-3))
    rec.nontrivial(wake > 1e-3)
    rec.sample = dict(spec=spec, max_deficit=wake)
