"""C07: causality of wakes and independence of ambient results from wakes"""

import numpy as np
import pandas as pd
import foxes
import foxes.variables as FV
import foxes.constants as FC

from harness.core import rng_of
from harness.scen import Scenario, random_spec, engine_ctx, lighten, WS_SUPER
from harness.cmp import compare, max_deficit, SKIP
from checks.c10 import WIND

PROPERTY = "C07"
RULE = (
    "random farm without blockage models; turbines and points without upstream turbines, ambient "
    "results, results after removal of all turbines further downstream, sign and bounds of wake "
    "effects; non-trivial when some turbine or point is affected by wakes"
)
ASSUMES = ["no induction models, no yawed turbines (except the dedicated case)"]
REQUIRED_EVENTS = [
    "unaffected-turbines",
    "affected-turbines",
    "truncated-farms",
    "upstream-points",
    "ambient-calculations",
    "no-thrust-states",
    "rotor-plane-points",
]
SUP = [s for s in WS_SUPER]


def cases(tier, seed):
    n = 150 if tier == "quick" else 1500
    out = []
    for i in range(n):
        rng = rng_of(PROPERTY, seed, i)
        sp = random_spec(
            rng,
            rng.integers(1 << 31),
            states=["timeseries", "table", "mh", "field", "single"],
            n_t=(2, 8),
            n_s=(2, 6),
            frames=("rotor_wd", "rotor_wd", "rotor_wd", "streamlines_100"),
        )
        sp["wakes"][0] = sp["wakes"][0].replace(
            sp["wakes"][0].split("_", 1)[1].rsplit("_", 1)[0], SUP[i % len(SUP)], 1
        )
        sp["cls"] = str(rng.choice(["Downwind", "Downwind", "Iterative"]))
        lighten(sp)
        sp["weak"] = bool(rng.random() < 0.5)
        out.append(sp)
    for i in range(40 if tier == "quick" else 400):
        out.append(dict(mode="plane", seed=seed, i=i))
    out.append(dict(mode="yaw-projection", seed=1))
    return out


def run_yaw(spec, rec):
    """two equal turbines with equal yaw misalignment, outside of each other's wake"""
    mb = foxes.ModelBook()
    m = foxes.models.turbine_models.SetFarmVars(pre_rotor=True)
    m.add_var(FV.YAWM, np.full((1, 2), 30.0))
    mb.turbine_models["set_yawm"] = m
    farm = foxes.WindFarm()
    for x in (0.0, 100.0):
        farm.add_turbine(
            foxes.Turbine(xy=[x, 100 * x], turbine_models=["set_yawm", "yawm2yaw", "NREL5MW"]),
            verbosity=0,
        )
    with engine_ctx("single"):
        fr = foxes.algorithms.Downwind(
            farm,
            foxes.input.states.SingleStateStates(ws=8.0, wd=270.0, ti=0.1, rho=1.225),
            wake_models=["Jensen_linear_k007"],
            mbook=mb,
            verbosity=0,
        ).calc_farm()
    rec.event("yawed-pair")
    for v in (FV.REWS, FV.P, FV.CT):
        a = fr[v].values[0]
        rec.close(a[1], a[0], "yaw-projection", f"{v} of two equal yawed turbines in free flow", rtol=1e-9)


def run_plane(spec, rec):
    """rotors side by side, and points exactly in rotor planes"""
    rng = rng_of(PROPERTY, spec["seed"], "plane", spec["i"])
    w = WIND[spec["i"] % len(WIND)]
    wakes = [f"{w}_{SUP[int(rng.integers(0, len(SUP)))]}_k004"]
    if rng.random() < 0.6:
        wakes.append(str(rng.choice(["CrespoHernandez_max_k004", "IECTI2019k_quadratic_k004", "IECTI2005_quadratic"])))
    n_t = int(rng.integers(1, 5))
    wd0 = float(rng.choice([0.0, 90.0, 180.0, 270.0]))
    D, H = 126.0, 90.0
    side = np.array([0.0, 1.0]) if wd0 in (90.0, 270.0) else np.array([1.0, 0.0])
    down = np.array([1.0, 0.0]) if wd0 in (90.0, 270.0) else np.array([0.0, 1.0])
    q = np.cumsum(rng.uniform(0.55, 1.3, n_t)) * D
    org = np.round(rng.uniform(-3000, 3000, 2))
    xy = org + q[:, None] * side
    wd = np.array([wd0, (wd0 + 180.0) % 360, wd0])
    sgn = np.where(np.isin(wd, (0.0, 90.0)), -1.0, 1.0)  # along 'down'
    farm = foxes.WindFarm()
    for t in range(n_t):
        farm.add_turbine(foxes.Turbine(xy=xy[t], turbine_models=["NREL5MW"]), verbosity=0)
    n_p = 12
    t = rng.integers(0, n_t, n_p)
    r, a = rng.uniform(0.0, 0.48, n_p) * D, rng.uniform(0, 2 * np.pi, n_p)
    P = np.zeros((3, n_p, 3))
    P[..., :2] = xy[t] + (r * np.cos(a))[:, None] * side
    P[..., 2] = H + r * np.sin(a)
    off = np.where(np.arange(n_p) < 6, 0.0, np.where(np.arange(n_p) < 9, -1e-3, 1.0))
    P[..., :2] += off[None, :, None] * sgn[:, None, None] * down
    ws = rng.uniform(5, 12, 3)
    st = foxes.input.states.StatesTable(
        pd.DataFrame({FV.WS: ws, FV.WD: wd, FV.TI: rng.uniform(0.04, 0.15, 3)}),
        output_vars=[FV.WS, FV.WD, FV.TI, FV.RHO], fixed_vars={FV.RHO: 1.225},
    )
    kw = {}
    if rng.random() < 0.5:
        kw["partial_wakes"] = str(rng.choice(["centre", "rotor_points", "grid9"]))
    if rng.random() < 0.3:
        kw["ground_models"] = "ground_mirror"
    cls = str(rng.choice(["Downwind", "Downwind", "Iterative"]))
    frame = str(rng.choice(["rotor_wd", "rotor_wd", "yawed_k004", "streamlines_100"]))
    with engine_ctx("numpy", 2, 1 if rng.random() < 0.5 else None, None):
        algo = getattr(foxes.algorithms, cls)(
            farm, st, wakes, rotor_model=str(rng.choice(["centre", "grid9"])), wake_frame=frame, verbosity=0, **kw
        )
        fr = algo.calc_farm()
        pr = algo.calc_points(fr, P)
    what = f"{wakes} {frame} {cls} {kw}"
    if frame != "streamlines_100":
        for v in (FV.REWS, FV.TI, FV.P, FV.CT):
            rec.close(fr[v].values, fr[FV.var2amb[v]].values, f"side-by-side-{v}", what, rtol=1e-9, atol=1e-12)
    for v in (FV.WS, FV.TI):
        d = pr[v].values - pr[FV.var2amb[v]].values
        rec.close(d[:, :9], np.zeros((3, 9)), f"rotor-plane-{v}", what, rtol=0, atol=1e-9)
    rec.event("rotor-plane-points", 27)
    d = np.abs(pr[FV.WS].values - pr[FV.AMB_WS].values)[:, 9:]
    rec.nontrivial(bool(np.any(d > 1e-3)))


def run(spec, rec):
    if spec.get("mode") == "plane":
        return run_plane(spec, rec)
    if spec.get("mode") == "yaw-projection":
        return run_yaw(spec, rec)
    scn = Scenario(spec)
    rng = rng_of("c07", spec["seed"])
    lull = np.zeros(scn.n_s, dtype=bool)
    if spec["weak"] and spec["states"] in ("timeseries", "table"):
        lull[int(rng.integers(0, scn.n_s))] = True
        scn.ws[lull] = 0.7  # below cut-in
    stream = spec["frame"].startswith("stream")
    pts = scn.points(30)
    # points upstream of the farm, in the first state
    wd0 = np.deg2rad(scn.wd)
    up = -np.stack([-np.sin(wd0), -np.cos(wd0)], axis=-1)  # against the flow
    c = scn.xy.mean(axis=0)
    R = np.linalg.norm(scn.xy - c, axis=-1).max()
    p3 = np.tile(pts[None], (scn.n_s, 1, 1))
    for k in range(6):
        lat = rng.uniform(-1, 1, scn.n_s)[:, None] * R * np.stack([-up[:, 1], up[:, 0]], axis=-1)
        p3[:, k, :2] = c + up * (1.35 * R + 60.0) + lat
    cls = spec["cls"]

    with engine_ctx("numpy", 2, [None, 1, 3][rng.integers(0, 3)], None):
        over = dict(mod_cutin=dict(modify_ct=False, modify_P=False)) if cls == "Iterative" else {}
        algo = scn.algo(cls, **over)
        fr = algo.calc_farm()
        pr = algo.calc_points(fr, p3)
        algo = scn.algo(cls, **over)
        fa = algo.calc_farm(ambient=True)
        pa = algo.calc_points(fa, p3, ambient=True)

    # ambient variables are those of the calculation without wakes
    rec.event("ambient-calculations")
    for res, ra, what in ((fr, fa, "farm"), (pr, pa, "points")):
        for v in map(str, ra.data_vars):
            if v in SKIP:
                continue
            if v in FV.amb2var and v in res:
                if FV.amb2var[v] in ra:
                    rec.close(ra[v].values, ra[FV.amb2var[v]].values, f"ambient-run|{v}", f"{what} {v} of the run without wakes", rtol=1e-10, atol=1e-10)
                # the iterative algorithm does not re-evaluate these
                rec.close(res[v].values, ra[v].values, f"ambient-indep|{v}", f"{what} {cls} {v} with and without wakes", rtol=1e-9, atol=1e-9)

    # which turbines can feel others: rotor centre with positive distance
    # along the local wind direction of a source
    X = fr[FV.X].values if FV.X in fr else np.tile(scn.xy[None, :, 0], (scn.n_s, 1))
    Y = fr[FV.Y].values if FV.Y in fr else np.tile(scn.xy[None, :, 1], (scn.n_s, 1))
    wd = np.deg2rad(fr[FV.AMB_WD].values)
    n = np.stack([-np.sin(wd), -np.cos(wd)], axis=-1)  # (s, t, 2)
    xy = np.stack([X, Y], axis=-1)
    dx = np.einsum("stud,std->stu", xy[:, None, :, :] - xy[:, :, None, :], n)  # source t, target u
    if stream or spec["states"] in ("field", "mh"):
        free = np.zeros((scn.n_s, scn.n_t), dtype=bool)
        if FV.ORDER in fr:
            o = fr[FV.ORDER].values.astype(int)
            free[np.arange(scn.n_s), o[:, 0]] = True
        free = free & (stream | np.all(dx < 1e-6, axis=1))
    else:
        free = np.all(dx < 1e-6, axis=1)
    vrs = [v for v in fr.data_vars if v in FV.var2amb and FV.var2amb[v] in fr]
    D = {v: fr[v].values - fr[FV.var2amb[v]].values for v in vrs}
    for v in vrs:
        rec.close(D[v][free], 0 * D[v][free], f"upstream-turbine|{v}", f"{cls} {v} of turbines without upstream turbines", atol=1e-9)
        rec.close(D[v][lull], 0 * D[v][lull], f"no-thrust|{v}", f"{cls} {v} in states below cut-in", atol=1e-9)
    rec.event("unaffected-turbines", int(free.sum()))
    aff = np.abs(D[FV.REWS]) > 1e-3
    rec.event("affected-turbines", int(aff.sum()))
    rec.event("no-thrust-states", int(lull.sum()))
    rec.nontrivial(bool(aff.any()))
    # sign of effects
    rec.check(np.all(D[FV.REWS] <= 1e-8), "deficit-sign|REWS", f"wind speed above ambient by {np.nanmax(D[FV.REWS])}", n=D[FV.REWS].size)
    rec.check(np.all(D[FV.TI] >= -1e-10), "ti-sign|TI", f"TI below ambient by {np.nanmin(D[FV.TI])}", n=D[FV.TI].size)
    rec.check(np.all(D[FV.P] <= 1e-6), "power-sign|P", f"power above ambient by {np.nanmax(D[FV.P])}", n=D[FV.P].size)
    dws = pr[FV.WS].values - pr[FV.AMB_WS].values
    dti = pr[FV.TI].values - pr[FV.AMB_TI].values
    rec.check(np.all(dws <= 1e-8), "deficit-sign|WS", f"point wind speed above ambient by {np.nanmax(dws)}", n=dws.size)
    rec.check(np.all(dti >= -1e-10), "ti-sign|points", f"point TI below ambient by {np.nanmin(dti)}", n=dti.size)
    if len(spec["wakes"]) == 1:
        rec.close(dti, 0 * dti, "ti-untouched", "TI without TI wake model", atol=1e-12)
    if "_lim" in spec["wakes"][0] and spec["ground"] is None:
        w = pr[FV.WS].values
        rec.check(np.all(w >= -1e-9), "lim|WS", f"negative wind speed {np.nanmin(w)} with limited superposition", n=w.size)
    wpr = pr[FV.WD].values - pr[FV.AMB_WD].values
    rec.close(wpr, 0 * wpr, "wd-untouched", "wind direction in wakes", atol=1e-9)

    # points: no source upstream
    px = np.einsum("stpd,std->stp", p3[:, None, :, :2] - xy[:, :, None, :], n)
    pf = np.all(px < (-20.0 if not stream else -150.0), axis=1)
    if stream or spec["states"] in ("field", "mh"):
        pf &= np.all(px < -0.3 * R - 100, axis=1)
    rec.close(dws[pf], 0 * dws[pf], "upstream-points", "wind speed at points without upstream turbines", atol=1e-10)
    rec.close(dti[pf], 0 * dti[pf], "upstream-points|TI", "TI at points without upstream turbines", atol=1e-10)
    rec.event("upstream-points", int(pf.sum()))

    # removal of turbines further downstream
    if FV.ORDER in fr:
        o = fr[FV.ORDER].values.astype(int)
        for s in rng.permutation(scn.n_s)[: 1 if stream else 2]:
            m = int(rng.integers(1, scn.n_t)) if scn.n_t > 1 else 1
            keep = np.sort(o[s, :m])
            # further downstream in every frame
            rest = o[s, m:]
            if not stream and np.any(dx[s][np.ix_(rest, keep)] > -1.0):
                continue
            with engine_ctx("single"):
                algo = scn.algo(
                    cls, farm=scn.farm(order=keep), states=scn.states(sel=[s]), **over
                )
                f2 = algo.calc_farm()
            rec.event("truncated-farms")
            itol = 1e-9 if cls == "Downwind" else 2e-4
            for v in vrs:
                rec.close(
                    f2[v].values[0], fr[v].values[s][keep], f"truncation|{v}",
                    f"{cls} state {s}: {v} of the first {m} turbines without those further downstream",
                    rtol=itol, atol=itol * (1 if v != FV.P else 10),
                )
    rec.event("wake:" + spec["wakes"][0].split("_")[0])
    rec.sample = dict(spec=spec, max_deficit=float(-D[FV.REWS].min()))
