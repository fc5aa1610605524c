"""C13: turbine types deliver their power and thrust curves"""

import numpy as np
import pandas as pd
from scipy.interpolate import RegularGridInterpolator

import foxes
import foxes.variables as FV
import foxes.constants as FC

from harness.core import rng_of
from harness.scen import Scenario, engine_ctx, make_curve

PROPERTY = "C13"
RULE = (
    "farms of random turbine types (all classes, data frames and files, density and yaw exponents, "
    "wind speed variables, units) in states from standstill to storm; power and thrust are compared "
    "with direct interpolation of the curves; non-trivial when partial load and standstill occur"
)
ASSUMES = ["air density and TI inside of the range of two-dimensional tables"]
REQUIRED_EVENTS = ["partial-load", "below-cutin", "above-cutout", "yaw-corrected", "density-corrected", "nominal-power",
    "cutin-ramps", "cutin-unmodified",
]
KINDS = ["pct", "pct_csv", "pct2", "pct2_csv", "cpct", "cpct_csv", "cpct2", "cpct2_csv", "wsrho2", "wsti2", "lookup", "tbl", "static", "null"]


def cases(tier, seed):
    n = 140 if tier == "quick" else 1400
    out = []
    for i in range(n):
        rng = rng_of(PROPERTY, seed, i)
        out.append(
            dict(
                seed=int(rng.integers(1 << 31)),
                n_t=int(rng.integers(1, 4)),
                n_s=int(rng.integers(6, 20)),
                kinds=[KINDS[i % len(KINDS)]] + [str(x) for x in rng.choice(KINDS, 2)],
                states="timeseries",
                profile=str(rng.choice(["shear", "abl_neutral"])),
                rotor=str(rng.choice(["centre", "grid9", "level5"])),
                wakes=["Bastankhah2014_linear_k004"] if rng.random() < 0.6 else [],
                yaw=bool(rng.random() < 0.5),
                cls=str(rng.choice(["Downwind", "Downwind", "Iterative"])),
            )
        )
    for i in range(16 if tier == "quick" else 160):
        rng = rng_of(PROPERTY, seed, "cut", i)
        out.append(
            dict(
                mode="cutin",
                seed=int(rng.integers(1 << 31)),
                n_t=1,
                n_s=3,
                states="timeseries",
                two=bool(i % 2),
                mct=[True, True, False][i // 2 % 3],
                mP=[False, True, True][i // 2 % 3],
                args=[{}, dict(steps=10), dict(a=0.6, b=0.52), dict(iterations=200)][rng.integers(0, 4)],
            )
        )
    return out


def interp(x, xp, yp):
    """piecewise linear, zero outside of the data"""
    x = np.asarray(x, float)
    o = np.argsort(xp)
    xp, yp = np.asarray(xp, float)[o], np.asarray(yp, float)[o]
    j = np.clip(np.searchsorted(xp, x, side="right") - 1, 0, len(xp) - 2)
    t = (x - xp[j]) / (xp[j + 1] - xp[j])
    y = yp[j] * (1 - t) + yp[j + 1] * t
    return np.where((x < xp[0]) | (x > xp[-1]), 0.0, y)


class Expected:
    def __init__(self, P, CT, **k):
        self.P, self.CT = P, CT
        self.__dict__.update(k)


def make(kind, rng, i):
    """a turbine type and its specification"""
    TT = foxes.models.turbine_types
    c = make_curve(rng)
    D = float(np.round(rng.uniform(90, 170), 1))
    H = float(np.round(D / 2 + rng.uniform(30, 60), 1))
    rho0 = [None, 1.225, 1.1][rng.integers(0, 3)]
    p_ct = [1.0, 1.0, 2.0, None][rng.integers(0, 4)]
    p_P = [1.88, 1.88, 3.0, None][rng.integers(0, 4)]
    wct, wp = [(FV.REWS2, FV.REWS3), (FV.REWS, FV.REWS), (FV.REWS, FV.REWS3)][rng.integers(0, 3)]
    unit = ["kW", "W", "MW"][rng.integers(0, 3)]
    fac = {"kW": 1.0, "W": 1e3, "MW": 1e-3}[unit]
    kw = dict(p_ct=p_ct, p_P=p_P, var_ws_ct=wct, var_ws_P=wp)
    shuf = rng.permutation(len(c))
    tol = 1e-9

    def ws_ct(f, rho=None):
        w = f[wct].copy()
        if rho is not None:
            w = w * (f[FV.RHO] / rho) ** 0.5
        if FV.YAWM in f and p_ct is not None:
            w = w * np.cos(np.deg2rad(f[FV.YAWM])) ** (p_ct / 2)
        return w

    def ws_P(f, rho=None):
        w = f[wp].copy()
        if rho is not None:
            w = w * (f[FV.RHO] / rho) ** (1 / 3)
        if FV.YAWM in f and p_P is not None:
            w = w * np.cos(np.deg2rad(f[FV.YAWM])) ** (p_P / 3)
        return w

    nominal = None
    fn = f"Model{i}-D{D}-H{H}".replace(".", "d")
    if kind in ("pct", "pct_csv"):
        d = c.copy()
        d["P"] *= fac
        ren = {}
        if kind == "pct" and rng.random() < 0.5:
            ren = dict(ws="v", P="power", ct="c")
            kw.update(col_ws="v", col_P="power", col_ct="c")
        src = d.iloc[shuf].rename(columns=ren)
        if kind == "pct":
            t = TT.PCtFile(src, rho=rho0, D=D, H=H, P_unit=unit, **kw)
        else:
            src.to_csv(fn + ".csv", index=False)
            t = TT.PCtFile(fn + ".csv", rho=rho0, P_unit=unit, **kw)
        P = lambda f: interp(ws_P(f, rho0), d["ws"], d["P"])
        C = lambda f: interp(ws_ct(f), d["ws"], d["ct"])
        nominal = d["P"].max()
    elif kind in ("pct2", "pct2_csv"):
        c2 = make_curve(rng)
        d = c.copy()
        d["P"] *= fac
        if kind == "pct2":
            t = TT.PCtFromTwo(d[["ws", "P"]].iloc[shuf], c2[["ws", "ct"]], rho=rho0, D=D, H=H, P_unit=unit, **kw)
        else:
            d[["ws", "P"]].to_csv(fn.replace("-D", "-P-D") + ".csv", index=False)
            c2[["ws", "ct"]].to_csv(fn.replace("-D", "-ct-D") + ".csv", index=False)
            t = TT.PCtFromTwo(
                fn.replace("-D", "-P-D") + ".csv", fn.replace("-D", "-ct-D") + ".csv", rho=rho0, P_unit=unit, **kw
            )
        P = lambda f: interp(ws_P(f, rho0), d["ws"], d["P"])
        C = lambda f: interp(ws_ct(f), c2["ws"], c2["ct"])
        nominal = d["P"].max()
    elif kind in ("cpct", "cpct_csv", "cpct2", "cpct2_csv"):
        rho1 = [1.225, 1.1][rng.integers(0, 2)]
        A = np.pi * (D / 2) ** 2
        d = c.copy()
        d["cp"] = d["P"] * 1e3 / (0.5 * rho1 * A * d["ws"] ** 3)
        if kind == "cpct":
            t = TT.CpCtFile(d[["ws", "cp", "ct"]].iloc[shuf], rho=rho1, D=D, H=H, P_unit=unit, **kw)
        elif kind == "cpct_csv":
            d[["ws", "cp", "ct"]].iloc[shuf].to_csv(fn + ".csv", index=False)
            t = TT.CpCtFile(fn + ".csv", rho=rho1, P_unit=unit, **kw)
        elif kind == "cpct2":
            t = TT.CpCtFromTwo(d[["ws", "cp"]].iloc[shuf], d[["ws", "ct"]], rho=rho1, D=D, H=H, P_unit=unit, **kw)
        else:
            d[["ws", "cp"]].iloc[shuf].to_csv(fn.replace("-D", "-cp-D") + ".csv", index=False)
            d[["ws", "ct"]].to_csv(fn.replace("-D", "-ct-D") + ".csv", index=False)
            t = TT.CpCtFromTwo(
                fn.replace("-D", "-cp-D") + ".csv", fn.replace("-D", "-ct-D") + ".csv", rho=rho1, P_unit=unit, **kw
            )
        P = lambda f: 0.5 * rho1 * A * interp(ws_P(f, rho1), d["ws"], d["cp"]) * ws_P(f, rho1) ** 3 * 1e-3 * fac
        C = lambda f: interp(ws_ct(f), d["ws"], d["ct"])
        rho0 = rho1
        w = np.linspace(d["ws"].min(), d["ws"].max(), 200001)
        nominal = (0.5 * rho1 * A * interp(w, d["ws"], d["cp"]) * w**3 * 1e-3 * fac).max()
        tol = 2e-4
    elif kind in ("wsrho2", "wsti2"):
        g = np.round(np.linspace(0.8, 1.45, 4), 3) if kind == "wsrho2" else np.array([0.0, 0.06, 0.15, 0.6, 3.0])
        g2 = np.round(np.linspace(0.75, 1.5, 5), 3) if kind == "wsrho2" else np.array([0.0, 0.1, 0.2, 3.0])
        if kind == "wsrho2":
            tp = c["P"].to_numpy()[:, None] * np.minimum(g / 1.225, 1.15)[None]
            tc = c["ct"].to_numpy()[:, None] * (1 + 0.05 * np.sin(9 * g2))[None]
        else:
            tp = c["P"].to_numpy()[:, None] * (1 - 0.05 * np.minimum(g, 1))[None]
            tc = c["ct"].to_numpy()[:, None] * (1 - 0.2 * np.minimum(g2, 1))[None]
        tp = tp * fac
        cw = c["ws"].to_numpy()
        if rng.random() < 0.5:
            cw2 = np.r_[cw[:-1], cw[-1] + 3.0]  # thrust data beyond cut-out
        else:
            cw2 = cw
        dP = pd.DataFrame(tp, index=pd.Index(cw, name="ws"), columns=[str(x) for x in g])
        dC = pd.DataFrame(tc, index=pd.Index(cw2, name="ws"), columns=[str(x) for x in g2])
        v = FV.RHO if kind == "wsrho2" else FV.TI
        cls = TT.WsRho2PCtFromTwo if kind == "wsrho2" else TT.WsTI2PCtFromTwo
        # rows and columns of tables come in any order:
        if rng.random() < 0.6:
            dP = dP.iloc[rng.permutation(len(dP)), rng.permutation(len(g))]
            dC = dC.iloc[rng.permutation(len(dC)), rng.permutation(len(g2))]
        if kind == "wsti2":
            kw["rho"] = rho0
        else:
            rho0 = None
        if rng.random() < 0.5:
            t = cls(dP, dC, D=D, H=H, P_unit=unit, P_nominal=float(tp.max()), **kw)
        else:
            dP.to_csv(fn.replace("-D", "-P-D") + ".csv")
            dC.to_csv(fn.replace("-D", "-ct-D") + ".csv")
            t = cls(
                fn.replace("-D", "-P-D") + ".csv", fn.replace("-D", "-ct-D") + ".csv", P_unit=unit,
                P_nominal=float(tp.max()), **kw,
            )
        rP = RegularGridInterpolator((cw, g), tp, bounds_error=False, fill_value=0.0)
        rC = RegularGridInterpolator((cw2, g2), tc, bounds_error=False, fill_value=0.0)
        P = lambda f: rP(np.stack([ws_P(f, rho0), f[v]], axis=-1))
        C = lambda f: rC(np.stack([ws_ct(f, rho0), f[v]], axis=-1))
        nominal = tp.max()
    elif kind == "lookup":
        g = np.array([0.0, 0.06, 0.15, 0.6, 3.0])
        cw = c["ws"].to_numpy()
        tp = c["P"].to_numpy()[:, None] * (1 - 0.05 * np.minimum(g, 1))[None] * fac
        tc = c["ct"].to_numpy()[:, None] * (1 - 0.2 * np.minimum(g, 1))[None]
        A, B = np.meshgrid(cw, g, indexing="ij")
        d = pd.DataFrame({"v": A.ravel(), "TI": B.ravel(), "P": tp.ravel(), "CT": tc.ravel()})
        d = d.sample(frac=1, random_state=int(rng.integers(1000))).reset_index(drop=True)
        t = TT.FromLookupTable(
            d, input_vars=[FV.REWS, FV.TI], varmap={FV.REWS: "v"}, rho=rho0, D=D, H=H, P_unit=unit,
            P_nominal=float(tp.max()), **kw,
        )
        rP = RegularGridInterpolator((cw, g), tp, bounds_error=False, fill_value=0.0)
        rC = RegularGridInterpolator((cw, g), tc, bounds_error=False, fill_value=0.0)
        P = lambda f: rP(np.stack([ws_P(f, rho0), f[FV.TI]], axis=-1))
        C = lambda f: rC(np.stack([ws_ct(f), f[FV.TI]], axis=-1))
        nominal = tp.max()
    elif kind == "tbl":
        pr = c["P"].max() / 1e3
        with open(f"m{i}.tbl", "w") as f:
            f.write("45\n")
            f.write(f"{H} {D} 0.03 {pr}\n")
            for _, r in c.iterrows():
                f.write(f"{r['ws']} {r['ct']} {r['P']}\n")
        rho0 = 1.225
        t = TT.TBLFile(f"m{i}.tbl", **kw)
        P = lambda f: interp(ws_P(f, rho0), c["ws"], c["P"])
        C = lambda f: interp(ws_ct(f), c["ws"], c["ct"])
        nominal = pr * 1e3
    elif kind == "static":
        fnm = ["NREL-5MW-D126-H90.csv", "DTU-10MW-D178d3-H119.csv", "IWT-7d5MW-D164-H100.csv"][rng.integers(0, 3)]
        p = foxes.StaticData().get_file_path("power_ct_curve", fnm, check_raw=False)
        d = pd.read_csv(p)
        t = TT.PCtFile(fnm, rho=rho0, **kw)
        P = lambda f: interp(ws_P(f, rho0), d["ws"], d["P"])
        C = lambda f: interp(ws_ct(f), d["ws"], d["ct"])
        q = fnm[:-4].split("-")
        D, H = float(q[2][1:].replace("d", ".")), float(q[3][1:].replace("d", "."))
        nominal = float(q[1][:-2].replace("d", ".")) * 1e3
    elif kind == "null":
        t = TT.NullType(D=D, H=H, needs_rews2=True, needs_rews3=True)
        return t, None, D, H, None, None, 0
    return t, Expected(P, C), D, H, rho0, nominal, tol


def run_cutin(spec, rec):
    """
    continuous cut-in: the modified curve equals the given one from the cut-in wind
    speed on, and rises continuously from zero below; the other one is untouched
    """
    scn = Scenario(spec)
    rng = rng_of("c13cut", spec["seed"])
    n_s = 120
    c = make_curve(rng)
    c2 = make_curve(rng) if spec["two"] else c
    D, H = 120.0, 95.0
    TT = foxes.models.turbine_types
    kw = dict(D=D, H=H, var_ws_ct=FV.REWS, var_ws_P=FV.REWS)
    mct, mP = spec["mct"], spec["mP"]

    def cut(x, y, eps):
        x, y = np.asarray(x), np.asarray(y)
        return int(np.argmax(y >= eps))

    ict, iP = cut(c2["ws"], c2["ct"], 1e-5), cut(c["ws"], c["P"], 0.1)
    if not spec["two"] and mct and mP:
        ict = iP = min(ict, iP)
    wct, wP = float(c2["ws"].iloc[ict]), float(c["ws"].iloc[iP])
    ws = np.sort(np.r_[
        rng.uniform(0.01, max(wct, wP), 60), rng.uniform(min(wct, wP), 14, 40), rng.uniform(14, 32, 14),
        wct, wct - 1e-4, wP, wP - 1e-4, 1e-3, 0.05,
    ])
    st = foxes.input.states.ScanStates({FV.WS: ws, FV.WD: [270.0], FV.TI: [0.08], FV.RHO: [1.2]})
    res = {}
    args = {a: b for a, b in spec["args"].items()}
    for cls in ("Downwind", "Iterative"):
        mb = foxes.ModelBook()
        if spec["two"]:
            t = TT.PCtFromTwo(c[["ws", "P"]].copy(), c2[["ws", "ct"]].copy(), **kw)
        else:
            t = TT.PCtFile(c.copy(), **kw)
        mb.turbine_types["Q"] = t
        farm = foxes.WindFarm()
        farm.add_turbine(foxes.Turbine(xy=[0.0, 0.0], turbine_models=["Q"]), verbosity=0)
        over = dict(mod_cutin=dict(modify_ct=mct, modify_P=mP, **args)) if cls == "Iterative" else {}
        with engine_ctx("numpy", 2, [None, 7][rng.integers(0, 2)], None):
            algo = getattr(foxes.algorithms, cls)(
                farm=farm, states=st, mbook=mb, wake_models=["Jensen_linear_k007"], verbosity=0, **over
            )
            fr = algo.calc_farm()
        rec.close(fr[FV.REWS].values[:, 0], ws, f"REWS|cutin-{cls}", "wind speed")
        res[cls] = {v: fr[v].values[:, 0] for v in (FV.P, FV.CT)}
    for v, mod, w0, cc in ((FV.P, mP, wP, c["P"]), (FV.CT, mct, wct, c2["ct"])):
        a, b = res["Iterative"][v], res["Downwind"][v]
        k = f"{v}|cutin-{'two' if spec['two'] else 'one'}"
        sc = float(cc.max())
        if not mod:
            rec.close(a, b, k + "-unmodified", f"{v} of the unmodified curve, cut-in {w0}", rtol=1e-9, atol=1e-9 * sc)
            rec.event("cutin-unmodified")
            continue
        hi = ws >= w0
        rec.close(a, b, k + "-above", f"{v} above cut-in {w0}", rtol=1e-9, atol=1e-9 * sc, mask=hi)
        y0 = float(interp(np.array([w0]), (c2 if v == FV.CT else c)["ws"], cc)[0])
        lo = ~hi
        rec.check(np.all((a[lo] >= -1e-12 * sc) & (a[lo] <= y0 * (1 + 1e-9))), k + "-range", f"{v} below cut-in outside of 0..{y0}", n=int(lo.sum()))
        rec.check(np.all(np.diff(a[lo]) >= -1e-9 * sc), k + "-monotone", f"{v} does not rise below cut-in", n=int(lo.sum()))
        e = ws == w0 - 1e-4
        rec.check(np.all(np.abs(a[e] - y0) <= 0.02 * y0), k + "-jump", lambda: f"{v} jumps at cut-in {w0}: {a[e]} to {y0}")
        e = ws < 0.002
        rec.check(np.all(a[e] <= 0.02 * y0), k + "-zero", lambda: f"{v} = {a[e]} at zero wind speed, {y0} at cut-in")
        m = lo & (ws > 0.8 * w0)
        rec.check(np.any(a[m] > 0.3 * y0) or y0 == 0, k + "-ramp", f"{v} does not rise before cut-in")
        rec.event("cutin-ramps", int(y0 > 0))
    rec.nontrivial()


def run(spec, rec):
    if spec.get("mode") == "cutin":
        return run_cutin(spec, rec)
    scn = Scenario(spec)
    rng = rng_of("c13", spec["seed"])
    n_s, n_t = scn.n_s, scn.n_t
    scn.ws = rng.uniform(0.5, 30, n_s)
    scn.ws[: n_s // 2] = rng.uniform(3.5, 13, n_s // 2)
    scn.ws[-1] = 0.9
    scn.ws[-2] = 32.0
    scn.rho = rng.uniform(0.95, 1.32, n_s)
    kinds = spec["kinds"][:n_t]
    types = [make(k, rng, i) for i, k in enumerate(kinds)]
    mb = foxes.ModelBook()
    for i, t in enumerate(types):
        mb.turbine_types[f"Q{i}"] = t[0]
    pre = []
    gam = rng.uniform(-30, 30, (n_s, n_t))
    if spec["yaw"]:
        m = foxes.models.turbine_models.SetFarmVars(pre_rotor=True)
        m.add_var(FV.YAWM, gam)
        mb.turbine_models["set_yawm"] = m
        pre = ["set_yawm"]
    over = {}
    ovD = rng.random(n_t) < 0.2
    farm = foxes.WindFarm()
    for i in range(n_t):
        kw = dict(D=types[i][2] * 1.1, H=types[i][3] * 1.05) if ovD[i] else {}
        farm.add_turbine(
            foxes.Turbine(xy=scn.xy[i], turbine_models=pre + [f"Q{i}"], **kw), verbosity=0
        )
    # a type that provides no thrust cannot make wakes
    wakes = [] if "null" in kinds else spec["wakes"]
    cls = "Downwind" if "null" in kinds else spec["cls"]
    if cls == "Iterative":
        over["mod_cutin"] = dict(modify_ct=False, modify_P=False)
    with engine_ctx("numpy", 2, [None, 1, 4][rng.integers(0, 3)], None):
        algo = scn.algo(cls, farm=farm, mbook=mb, wake_models=wakes, **over)
        fr = algo.calc_farm()
    for i, (t, e, D, H, rho0, nom, tol) in enumerate(types):
        k = kinds[i]
        rec.close(fr[FV.D].values[:, i], D * (1.1 if ovD[i] else 1), f"D|{k}", "rotor diameter")
        rec.close(fr[FV.H].values[:, i], H * (1.05 if ovD[i] else 1), f"H|{k}", "hub height")
        if e is None:
            continue
        rec.event("kind:" + k)
        for amb in ("", "AMB_"):
            f = {v: fr[amb + v].values[:, i] for v in (FV.REWS, FV.REWS2, FV.REWS3, FV.TI, FV.RHO) if amb + v in fr}
            if spec["yaw"]:
                f[FV.YAWM] = gam[:, i]
                rec.event("yaw-corrected")
            if rho0 is not None:
                rec.event("density-corrected")
            sc = np.nanmax(np.abs(e.P(f))) + 1e-3
            a, b = fr[amb + FV.P].values[:, i], e.P(f)
            # coarse types: cut-in and cut-out are jumps
            edge = np.zeros(n_s, dtype=bool)
            if tol > 1e-6:
                f1 = {v: x * (1.0002 if "REWS" in v else 1) for v, x in f.items()}
                f2 = {v: x * (0.9998 if "REWS" in v else 1) for v, x in f.items()}
                edge = (e.P(f1) == 0) != (e.P(f2) == 0)
            rec.close(a[~edge], b[~edge], f"{amb}P|{k}", f"power of {k}", rtol=tol, atol=tol * sc)
            rec.close(fr[amb + FV.CT].values[:, i], e.CT(f), f"{amb}CT|{k}", f"thrust of {k}", rtol=1e-9, atol=1e-9)
            rec.event("partial-load", int(((b > 0.02 * sc) & (b < 0.95 * sc)).sum()))
            rec.event("below-cutin", int(((b == 0) & (f[FV.REWS] < 5)).sum()))
            rec.event("above-cutout", int(((b == 0) & (f[FV.REWS] > 20)).sum()))
        rec.close(t.P_nominal, nom, f"P_nominal|{k}", f"nominal power of {k} in {t.P_unit}", rtol=1e-3)
        rec.event("nominal-power")
        rec.nontrivial()
    rec.sample = dict(spec=spec, P=fr[FV.P].values[:, 0].tolist()[:5] if FV.P in fr else None)
