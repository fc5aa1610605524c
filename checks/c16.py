"""C16: vertical profiles and point data models"""

import numpy as np
import pandas as pd

import foxes
import foxes.variables as FV
import foxes.constants as FC

from harness.core import rng_of
from harness.scen import engine_ctx, make_curve

PROPERTY = "C16"
RULE = (
    "states with random vertical profiles and point models evaluated on random heights, judged against "
    "Monin-Obukhov similarity, power law and tabulated profiles; non-trivial when values change with height"
)
ASSUMES = ["von Karman constant 0.41", "stable profiles are cut at the Obukhov length"]
PROF = ["neutral", "stable", "unstable", "log", "log", "shear", "uniform", "data", "none"]
REQUIRED_EVENTS = ["profile:" + p for p in sorted(set(PROF))] + [
    "ustar-input", "ref-input", "near-neutral-states", "point:tke2ti", "point:ustar2ti", "point:setuniform",
    "point:deltas", "below-z0", "profile-object", "profile-name", "states:single", "states:table",
] + [f"data-profile:{m}" for m in range(5)]
K = 0.41


def cases(tier, seed):
    n = 160 if tier == "quick" else 2400
    out = []
    for i in range(n):
        rng = rng_of(PROPERTY, seed, i)
        out.append(
            dict(
                seed=int(rng.integers(1 << 31)), prof=PROF[i % len(PROF)], m=i // len(PROF) % 5,
                states=str(rng.choice(["single", "table", "table", "timeseries"])), n_s=int(rng.integers(2, 9)),
                n_p=int(rng.integers(2, 7)), ustar=bool(rng.random() < 0.4),
                pm=[None, "tke2ti", "ustar2ti", "setuniform", "deltas"][i % 5 if rng.random() < 0.8 else 0],
                engine=[["numpy", 2, [None, 1, 3][int(rng.integers(0, 3))], [None, 2][int(rng.integers(0, 2))]],
                        ["single", 1, None, None], ["threads", 2, 2, None]][int(rng.integers(0, 3))],
            )
        )
    return out


def psi(z, L):
    """stability function, nan or zero L is neutral"""
    z, L = np.broadcast_arrays(np.asarray(z, float), np.asarray(L, float))
    out = np.zeros(z.shape)
    with np.errstate(all="ignore"):
        st = L > 0
        out = np.where(st, -5 * np.minimum(z, L) / L, out)
        un = L < 0
        x = np.where(un, 1 - 16 * z / np.where(un, L, 1.0), 1.0) ** 0.25
        out = np.where(
            un, 2 * np.log((1 + x) / 2) + np.log((1 + x * x) / 2) - 2 * np.arctan(x) + np.pi / 2, out
        )
    return out


def phi(z, z0, L):
    return np.log(np.maximum(z, z0) / z0) - psi(z, L)


def run(spec, rec):
    rng = rng_of("c16", spec["seed"])
    n = 1 if spec["states"] == "single" else spec["n_s"]
    prof = spec["prof"]
    rec.event("profile:" + prof)
    rec.event("states:" + ("single" if spec["states"] == "single" else "table"))
    c = lambda a: np.asarray(a)[:, None]
    ws, wd = rng.uniform(4, 14, n), rng.uniform(0, 360, n)
    ti, rho = rng.uniform(0.03, 0.2, n), rng.uniform(1.1, 1.3, n)
    z0, href = 10 ** rng.uniform(-4, 0, n), rng.uniform(20, 150, n)
    us = rng.uniform(0.1, 0.8, n)
    L = rng.uniform(10, 2000, n)
    if prof == "unstable":
        L = -L
    if prof == "log":
        L = L * rng.choice([-1, 1], n)
        if n > 1:
            L[rng.integers(0, n)] = np.nan if spec["states"] != "single" else 0.0
            L[rng.integers(0, n)] = rng.choice([0.0, np.nan, 1e7, -1e7])
            rec.event("near-neutral-states", int((~(np.abs(L) > 0)).sum()))
    if prof == "neutral":
        L = np.full(n, np.nan)
    cols = {FV.WS: ws, FV.WD: wd, FV.TI: ti, FV.RHO: rho}
    ov = [FV.WS, FV.WD, FV.TI, FV.RHO]
    profiles, kwargs = {}, {}
    types = dict(
        neutral="ABLLogNeutralWsProfile", stable="ABLLogStableWsProfile", unstable="ABLLogUnstableWsProfile",
        log="ABLLogWsProfile",
    )
    VP = foxes.models.vertical_profiles
    tz = tv = None
    if prof in types:
        d = dict(type=types[prof])
        cols[FV.Z0] = z0
        if prof != "neutral":
            cols[FV.MOL] = L
        if spec["ustar"]:
            rec.event("ustar-input")
            d["ustar_input"] = True
            cols[FV.USTAR] = us
            if rng.random() < 0.5 and spec["pm"] != "setuniform":
                del cols[FV.WS]  # then wind speeds come from the profile only
                rec.event("profile-only")
            us_ = us
        else:
            rec.event("ref-input")
            cols[FV.H] = href
        fws = lambda z: (
            c(us) / K * phi(z, c(z0), c(L)) if spec["ustar"]
            else c(ws) * phi(z, c(z0), c(L)) / phi(c(href), c(z0), c(L))
        )
        profiles[FV.WS] = d
    elif prof == "shear":
        sh = rng.uniform(-0.1, 0.5, n)
        cols[FV.H], cols[FV.SHEAR] = href, sh
        profiles[FV.WS] = dict(type="ShearedProfile")
        fws = lambda z: c(ws) * (z / c(href)) ** c(sh)
    elif prof == "uniform":
        profiles[FV.WS] = dict(type="UniformProfile", variable=FV.WS)
        fws = lambda z: c(ws) + 0 * z
    elif prof == "data":
        tz = np.array([1.0, 30.0, 80.0, 140.0, 500.0])
        tv = np.cumsum(rng.uniform(0.5, 3, 5)) + 2
        perm = rng.permutation(5)
        df = pd.DataFrame(index=pd.Index(tz[perm], name="z"), data={"WS": tv[perm], "u": 2 * tv[perm], "h": tz[perm]})
        m = spec["m"]
        rec.event(f"data-profile:{m}")
        if m == 0:
            d = dict(data_source=df, variable="WS")
        elif m == 1:
            d = dict(data_source=df, variable="WS", col_z="h", col_var="WS")
        elif m == 2:
            df.to_csv("prof.csv")
            d = dict(data_source="prof.csv", variable="WS", col_z="z")
        else:
            d = dict(data_source=np.stack([tz[perm], 7 + 0 * tz, tv[perm]]), variable="WS")
            if m == 4:  # same as the default columns
                d.update(col_z=0, col_var=2)
        profiles[FV.WS] = dict(type="DataProfile", **d)
        fws = lambda z: np.interp(z, tz, tv) + 0 * c(ws)
    else:
        fws = lambda z: c(ws) + 0 * z
    if profiles:
        d = profiles[FV.WS]
        m = rng.integers(0, 3)
        if m == 1:
            d = dict(d)
            profiles[FV.WS] = getattr(VP, d.pop("type"))(**d)
            rec.event("profile-object")
        elif m == 2 and len(d) == 1:
            profiles[FV.WS] = d["type"]
            rec.event("profile-name")
    # a second profile, for another variable
    fti = lambda z: c(ti) + 0 * z
    if spec["pm"] is None and rng.random() < 0.5 and prof != "none":
        a = rng.uniform(0.05, 0.2, 3)
        profiles[FV.TI] = VP.DataProfile(
            pd.DataFrame(index=[0.0, 100.0, 600.0], data={FV.TI: a}), FV.TI
        )
        if rng.random() < 0.5:
            cols.pop(FV.TI)
        fti = lambda z: np.interp(z, [0.0, 100.0, 600.0], a) + 0 * c(ws)
        rec.event("two-profiles")
    # point models
    models, mb_add = [], {}
    PM = foxes.models.point_models
    pm = spec["pm"]
    tke = rng.uniform(0.2, 2, n)
    mx = None
    pars = {}
    if pm == "tke2ti":
        cols[FV.TKE] = tke
        cols.pop(FV.TI)
        ov = [FV.WS, FV.WD, FV.RHO, FV.TKE]
        models = [PM.TKE2TI()]
        fti = lambda z: np.sqrt(1.5 * c(tke)) / fws(z)
    elif pm == "ustar2ti":
        cols[FV.USTAR] = us
        cols.pop(FV.TI)
        ov = [FV.WS, FV.WD, FV.RHO, FV.USTAR]
        mx = None if rng.random() < 0.4 else float(rng.uniform(0.05, 0.2))
        models = [PM.Ustar2TI(max_ti=mx)]
        fti = lambda z: np.minimum(c(us) / K / fws(z), np.inf if mx is None else mx)
    elif pm == "setuniform":
        rec.event("setuniform")
        m = rng.integers(0, 3)
        v0, v1 = rng.uniform(0.03, 0.2, n), rng.uniform(1.1, 1.3, n)
        if m == 0:
            v0[:], v1[:] = v0[0], v1[0]
            src = {FV.TI: float(v0[0]), FV.RHO: float(v1[0])}
            kw = {}
        else:
            src = pd.DataFrame({"mti": v0, FV.RHO: v1, "x": 1.0, "MYQ": 2.0 * v0})
            src.index.name = "state"
            kw = dict(var2col={FV.TI: "mti"})
            if m == 2:
                if rng.random() < 0.5:
                    src.to_csv("uni.csv")
                else:
                    src.to_csv("uni.csv", index=False, sep=";")
                    kw["pd_read_pars"] = dict(index_col=None, sep=";")
                src = "uni.csv"
        vs = [FV.TI, FV.RHO] + (["MYQ"] if m else [])
        models = [PM.SetUniformData(src, [vs[k] for k in rng.permutation(len(vs))], **kw)]
        fti = lambda z: c(v0) + 0 * z
        rho = v1
    if spec["states"] == "single":
        ST = foxes.input.states.SingleStateStates
        if pm == "tke2ti" or pm == "ustar2ti":
            rec.event("single-fallback")
        args = {k: float(v[0]) for k, v in cols.items() if k not in (FV.WS, FV.WD, FV.TI, FV.RHO)}
        kw = {k.lower(): float(cols[k][0]) for k in (FV.WS, FV.WD, FV.TI, FV.RHO) if k in cols}
        if pm in ("tke2ti", "ustar2ti"):
            x = FV.TKE if pm == "tke2ti" else FV.USTAR
            profiles[x] = VP.DataProfile(pd.DataFrame(index=[0.0, 1000.0], data={x: [args[x]] * 2}), x)
        states = ST(profiles=profiles, **kw, **args)
    else:
        if spec["states"] == "table":
            cls, idx = foxes.input.states.StatesTable, pd.Index(np.arange(n), name="state")
        else:
            cls, idx = foxes.input.states.Timeseries, pd.date_range("2022-01-01", periods=n, freq="10min")
        df = pd.DataFrame(index=idx, data={("c_" + k): v for k, v in cols.items()})
        v2c = {k: "c_" + k for k in cols}
        states = cls(df, output_vars=[str(v) for v in rng.permutation(ov)], var2col=v2c, profiles=profiles)
    late = pm == "deltas" or (pm is not None and rng.random() < 0.0)
    if models:
        rec.event("point:" + pm)
        states = states + models[0] if rng.random() < 0.5 else states + models
    H, D = float(rng.uniform(60, 140)), 80.0
    farm = foxes.WindFarm()
    xy = rng.uniform(0, 2000, (3, 2))
    for i in range(3):
        farm.add_turbine(foxes.Turbine(xy=xy[i], turbine_models=["TT"]), verbosity=0)
    mb = foxes.ModelBook()
    cur = make_curve(rng)
    mb.turbine_types["TT"] = foxes.models.turbine_types.PCtFile(cur, D=D, H=H)
    p = np.c_[rng.uniform(0, 2000, (spec["n_p"], 2)), rng.uniform(2, 400, spec["n_p"])]
    if prof in ("neutral", "stable", "log") and pm != "deltas" and rng.random() < 0.3:
        p[0, 2] = 0.5 * z0.min()
        rec.event("below-z0")
    wakes = ["Jensen_linear_k004"] if pm == "deltas" else []
    with engine_ctx(*spec["engine"]):
        algo = foxes.algorithms.Downwind(farm, states, wake_models=wakes, mbook=mb, verbosity=0)
        fr = algo.calc_farm()
        cp = {}
        if pm == "deltas":
            norm = bool(rng.random() < 0.5)
            p[0] = np.r_[xy[0], H]
            cp["point_models"] = [PM.WakeDeltas([FV.WS, FV.TI], normalize=norm)]
            if rng.random() < 0.5:
                mb.point_models["deltas"] = cp["point_models"][0]
                cp["point_models"] = ["deltas"]
        pr = algo.calc_points(fr, np.tile(p[None], (n, 1, 1)), **cp)
    z = np.tile(p[None, :, 2], (n, 1))
    zh = np.full((n, 3), H)
    msg = f"{prof} {spec['states']} {pm}"
    for res, zz, where in ((fr, zh, "farm"), (pr, z, "points")):
        ew = fws(zz)
        g = res[FV.AMB_REWS if where == "farm" else FV.AMB_WS].values
        ok = np.ones(g.shape, bool)
        if where == "points" and "below-z0" in rec.events:
            ok[:, 0] = False
            # nothing blows inside of the roughness layer, up to the stability term
            if prof == "neutral":
                rec.check(np.all(np.abs(g[:, 0]) < 1e-12), "below-z0", f"{msg}: wind speed {g[:, 0]} below z0")
        rec.close(g, ew, f"ws|{where}", f"{msg}: ambient WS at {where}", rtol=1e-8, mask=ok)
        rec.close(res[FV.AMB_TI].values, fti(zz), f"ti|{where}", f"{msg}: ambient TI at {where}", rtol=1e-8, mask=ok)
        rec.close(res[FV.AMB_RHO].values, c(rho) + 0 * zz, f"rho|{where}", f"{msg}: ambient RHO at {where}", rtol=1e-10)
        rec.close(res[FV.AMB_WD].values, c(wd) + 0 * zz, f"wd|{where}", f"{msg}: ambient WD at {where}", rtol=1e-10)
        rec.event("values", g.size)
        if np.ptp(ew, axis=1).max() > 1e-3:
            rec.nontrivial()
    if prof == "none":
        rec.nontrivial()
    if pm == "deltas":
        rec.event("point:deltas")
        for v in (FV.WS, FV.TI):
            a, w = pr["AMB_" + v].values, pr[v].values
            rec.close(
                pr[f"DELTA_{v}"].values, (w - a) / (a if norm else 1.0), "deltas", f"wake deltas of {v}", rtol=1e-10
            )
        rec.event("wakes", int((pr[FV.WS].values < pr[FV.AMB_WS].values - 1e-6).sum()))
    # the reference value is found at the reference height
    if prof in ("neutral", "stable", "unstable", "log", "shear") and FV.H in cols:
        states2 = states
        with engine_ctx("numpy", 2, 3, None):
            algo = foxes.algorithms.Downwind(farm, states2, wake_models=[], mbook=mb, verbosity=0)
            fr = algo.calc_farm()
            q = np.zeros((n, 1, 3))
            q[:, 0, :2] = xy.mean(axis=0)
            q[:, 0, 2] = href
            pr = algo.calc_points(fr, q)
        rec.event("reference-height")
        rec.close(pr[FV.AMB_WS].values[:, 0], ws, "reference", f"{msg}: WS at the reference height", rtol=1e-8)
    rec.sample = dict(spec=spec)
