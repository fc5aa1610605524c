"""C10: a single wake follows the documented formulas of the chosen wake model"""

import numpy as np
import foxes
import foxes.variables as FV
import foxes.constants as FC

from harness.core import rng_of
from harness.scen import Scenario, engine_ctx, WS_SUPER, TI_SUPER
from harness import ref

PROPERTY = "C10"
RULE = (
    "one turbine of random type, random yaw, inflow, and one wind plus possibly one TI wake "
    "model under every superposition; wind speed and TI at random points in the wake are compared "
    "with an independent implementation of the published formulas; non-trivial when points "
    "inside of the wake were compared"
)
ASSUMES = ["published formulas as implemented in harness/ref.py"]
REQUIRED_EVENTS = ["points-in-wake", "ti-in-wake", "yawed", "near-wake", "states-with-zero-ct", "bent-centrelines", "points-in-wake-ix",
    "limited-points",
]

WIND = [
    "Jensen",
    "Bastankhah2014",
    "Bastankhah2014B",
    "Bastankhah025",
    "Bastankhah025B",
    "Bastankhah2016",
    "Bastankhah2016B",
    "TurbOPark",
    "TurbOParkB",
]
TI = ["CrespoHernandez", "IECTI2019k", "IECTI2005k", "IECTI2019", "IECTI2005"]
LIMS = [
    ("WSLinear", None), ("WSLinearLocal", None), ("WSQuadratic", None), ("WSQuadraticLocal", None), ("WSPow", 3),
    ("WSPowLocal", 4), ("WSMax", None), ("WSMaxLocal", None), ("WSProduct", None),
]
KS = ["k002", "k004", "k0075", "ambka02", "ambka04", "ka02", "ka04_kb001", "ambka03_kb0005", ""]


def cases(tier, seed):
    n = 270 if tier == "quick" else 4000
    out = []
    for i in range(n):
        rng = rng_of(PROPERTY, seed, i)
        sp = dict(
            seed=int(rng.integers(1 << 31)),
            n_t=1,
            n_s=int(rng.integers(3, 9)),
            states=str(rng.choice(["timeseries", "table", "single"])),
        )
        if rng.random() < 0.4:
            sp["profile"] = "shear"
        w = WIND[i % len(WIND)]
        k = KS[(i // len(WIND)) % len(KS)]
        s = WS_SUPER[i % len(WS_SUPER)]
        sp["wakes"] = [f"{w}_{s}" + (f"_{k}" if k else "")]
        if rng.random() < 0.6:
            t = TI[rng.integers(0, len(TI))]
            ts = TI_SUPER[rng.integers(0, len(TI_SUPER))]
            tk = str(rng.choice([x for x in KS if x]))
            sp["wakes"].append(f"{t}_{ts}" + ("" if t in TI[3:] else f"_{tk}"))
        sp["frame"] = str(rng.choice(["rotor_wd", "rotor_wd", "yawed"]))
        sp["pwakes"] = "centre"
        sp["rotor"] = str(rng.choice(["centre", "centre", "level4", "grid9"]))
        sp["yaw"] = bool(rng.random() < 0.6) or sp["frame"] == "yawed"
        sp["ground"] = [None, None, "ground_mirror", "blh_mirror_h500"][rng.integers(0, 4)]
        sp["kmodel"] = None if k else str(rng.choice(["kTI_03", "kTI_amb_02_001"]))
        out.append(sp)
    for i in range(12 if tier == "quick" else 80):
        rng = rng_of(PROPERTY, seed, "cl", i)
        out.append(
            dict(
                mode="centreline",
                seed=int(rng.integers(1 << 31)),
                n_t=int(rng.integers(2, 5)),
                n_s=int(rng.integers(2, 5)),
                layout="row",
                states="timeseries",
                frame=["yawed", "yawed", "rotor_wd"][i % 3],
            )
        )
    for i in range(40 if tier == "quick" else 400):
        rng = rng_of(PROPERTY, seed, "ix", i)
        sup = WS_SUPER[i % len(WS_SUPER)]
        t = TI[i % len(TI)]
        ts = TI_SUPER[rng.integers(0, len(TI_SUPER))]
        tk = "" if t in TI[3:] else "_k00" + str(rng.integers(2, 9))
        out.append(
            dict(
                mode="ix",
                seed=int(rng.integers(1 << 31)),
                n_t=1,
                n_s=int(rng.integers(1, 5)),
                states="timeseries",
                sup=sup,
                k=["04", "06", "09"][i % 3],
                dx=[5, 3, 7.3, 4.1][rng.integers(0, 4)],
                ti_var=[FV.TI, FV.TI, FV.AMB_TI][rng.integers(0, 3)],
                ind=["Madsen", "Betz"][rng.integers(0, 2)],
                wakes=[f"TurbOPark_{sup}_k", f"{t}_{ts}{tk}"],
                frame=["rotor_wd", "rotor_wd", "yawed"][rng.integers(0, 3)],
                pwakes="centre",
                rotor="centre",
                ground=None,
            )
        )
    for i in range(28 if tier == "quick" else 280):
        rng = rng_of(PROPERTY, seed, "lim", i)
        cls, pw = LIMS[i % len(LIMS)]
        loc = cls.endswith("Local") or cls == "WSProduct"
        n_t = int(rng.integers(1, 5)) if loc or i % 2 else 1
        out.append(
            dict(
                mode="lim",
                seed=int(rng.integers(1 << 31)),
                n_t=n_t,
                n_s=int(rng.integers(1, 5)),
                layout="row",
                states="timeseries",
                cls=cls,
                pow=pw,
                amb=None if loc else bool(n_t > 1 or rng.random() < 0.5),
                lims=[(True, False), (False, True), (True, True)][rng.integers(0, 3)],
                rotor=str(rng.choice(["centre", "grid4"])),
                pwakes="centre",
            )
        )
    return out


def run_lim(spec, rec):
    """
    the limits of wind superpositions bound the waked wind speed: with wakes that do
    not depend on the waked wind speed at turbines the limited result is the unlimited
    one, clipped
    """
    scn = Scenario(spec)
    rng = rng_of("c10lim", spec["seed"])
    for t in scn.types:
        t["curve"] = t["curve"].copy()
        t["curve"]["ct"] = 0.6
    lo = float(np.round(rng.uniform(0.55, 0.8) * scn.ws.mean(), 2)) if spec["lims"][0] else None
    hi = float(np.round(rng.uniform(0.8, 0.97) * scn.ws.mean(), 2)) if spec["lims"][1] else None
    if lo is not None and hi is not None and lo > hi:
        lo, hi = hi, lo
    D, H = scn.types[0]["D"], scn.types[0]["H"]
    N = 80
    pts = np.zeros((scn.n_s, N, 3))
    for s in range(scn.n_s):
        n = ref.wd2vec(scn.wd[s])
        l = np.array([-n[1], n[0]])
        j = rng.integers(0, scn.n_t, N)
        pts[s, :, :2] = scn.xy[j] + rng.uniform(1.5, 9, N)[:, None] * D * n + rng.normal(0, 0.5, N)[:, None] * D * l
        pts[s, :, 2] = np.clip(H + rng.normal(0, 0.4, N) * D, 1.0, None)
    out = []
    for lim in (None, (lo, hi)):
        mb = scn.mbook()
        kw = {}
        if spec["pow"]:
            kw["pow"] = spec["pow"]
        if spec["amb"] is not None:
            kw["scale_amb"] = spec["amb"]
        if lim:
            kw.update({a: b for a, b in zip(("lim_low", "lim_high"), lim) if b is not None})
        mb.wake_superpositions["sup"] = getattr(foxes.models.wake_superpositions, spec["cls"])(**kw)
        mb.wake_models["wm"] = foxes.models.wake_models.wind.JensenWake(superposition="sup", k=0.05)
        with engine_ctx("numpy", 2, [None, 1, 2][rng.integers(0, 3)], None):
            algo = scn.algo("Downwind", mbook=mb, wake_models=["wm"])
            fr = algo.calc_farm()
            pr = algo.calc_points(fr, pts)
        rec.check(np.allclose(fr[FV.CT].values[fr[FV.CT].values > 1e-3], 0.6), "CT|lim", "constant thrust")
        out.append((fr[FV.CT].values > 1e-3, pr[FV.WS].values, pr[FV.AMB_WS].values))
    (c0, w0, a0), (c1, w1, a1) = out
    if not np.array_equal(c0, c1):
        # the limits moved a turbine out of its operating range
        rec.event("thrust-changed")
        return
    rec.close(a1, a0, "AMB_WS|lim", "ambient wind speed", rtol=1e-12, atol=1e-12)
    inw = np.abs(w0 - a0) > 1e-6
    x = w0.copy()
    if lo is not None:
        x = np.maximum(x, lo)
    if hi is not None:
        x = np.minimum(x, hi)
    rec.close(
        w1, x, f"WS|limits-{spec['cls']}", f"wind speed with limits {lo}, {hi}, unlimited result clipped",
        rtol=1e-9, atol=1e-9, mask=inw,
    )
    rec.event("limited-points", int((np.abs(x - w0) > 1e-3)[inw].sum()))
    rec.event("points-in-wake", int(inw.sum()))
    rec.nontrivial(bool((np.abs(x - w0) > 1e-3)[inw].any()))


def run_ix(spec, rec):
    """
    TurbOPark with integrated TI: sigma = eps D + A * integral of TI along the
    centreline. The real code integrates in steps of dx; the exact integral then
    differs by at most dx times the total variation of TI up to the next step
    """
    scn = Scenario(spec)
    rng = rng_of("c10ix", spec["seed"])
    D, H = scn.types[0]["D"], scn.types[0]["H"]
    N = 60
    k = float("0." + spec["k"])
    pts = np.zeros((scn.n_s, N, 3))
    xs = np.zeros((scn.n_s, N))
    for s in range(scn.n_s):
        n = ref.wd2vec(scn.wd[s])
        l = np.array([-n[1], n[0]])
        xs[s] = rng.uniform(-1.0, 12, N) * D
        y = rng.normal(0, 0.6, N) * D
        pts[s, :, :2] = scn.xy[0] + xs[s][:, None] * n + y[:, None] * l
        pts[s, :, 2] = np.clip(H + rng.normal(0, 0.4, N) * D, 1.0, None)
    mb = scn.mbook()
    mb.wake_models["ix"] = foxes.models.wake_models.wind.TurbOParkWakeIX(
        superposition="ws_" + spec["sup"], dx=spec["dx"], induction=spec["ind"], k=k, ti_var=spec["ti_var"],
    )
    if spec["ti_var"] == FV.TI and spec["k"] == "04":
        # as named by users
        name = f"TurbOParkIX_{spec['sup']}_k004_dx{int(spec['dx'])}"
        spec = dict(spec, ind="Madsen", dx=int(spec["dx"]))
        rec.event("ix-by-name")
    else:
        name = "ix"
    with engine_ctx("numpy", 2, [None, 1, 2][rng.integers(0, 3)], None):
        algo = scn.algo("Downwind", mbook=mb, wake_models=[name, spec["wakes"][1]])
        fr = algo.calc_farm()
        pr = algo.calc_points(fr, pts)
    nw = 0
    for s in range(scn.n_s):
        T = [ref_turbine(scn, 0, 0.0, spec)]
        r = ref.RefFarm(
            T, scn.wd[s], scn.ti[s], scn.rho[s], amb_fun(scn, s),
            [spec["wakes"][0] + "004", spec["wakes"][1]], rotor="centre", pwakes="centre",
        )
        r.run()
        t = T[0]
        for v in ("REWS", "TI", "CT"):
            rec.close(fr[v].values[s, 0], t[v], f"{v}|farm-ix", f"state {s} turbine {v}", rtol=1e-8, atol=1e-8)
        # TI along the centreline and its integral
        W = r.W[1]
        g = np.linspace(0, 12.1 * D, 6001)
        xm = 0.5 * (g[1:] + g[:-1])
        f = np.full(len(xm), scn.ti[s])
        if spec["ti_var"] == FV.TI:
            for i, x in enumerate(xm):
                d, m = W.eval(x, np.zeros(1), np.zeros(1), t)
                acc = ref.sup_ti(W.sup, d, m, np.zeros(1))
                f[i] += ref.fin_ti(W.sup, acc, np.full(1, scn.ti[s]))[0]
        I = np.append(0.0, np.cumsum(f) * (g[1] - g[0]))
        tv = np.append(0.0, np.cumsum(np.abs(np.diff(np.append(f[0], f)))))
        ct = t["CT"]
        beta = None
        if ct > 1e-8:
            a = ref.ct2a(spec["ind"], ct)
            beta = (1 - a) / (1 - 2 * a)
        cand = []
        for e in (-1.01, -0.5, 0.0, 0.5, 1.01):

            def gauss(x, src):
                ix = np.interp(x, g, I) + e * spec["dx"] * np.interp(x + spec["dx"], g, tv)
                sg = 0.25 * np.sqrt(beta) * D + k * ix
                return max(-2 * ref.ct2a(spec["ind"], ct / (8 * (sg / D) ** 2)), -1.0), sg

            r.W[0].gauss = gauss
            cand.append(r.points(pts[s])[0])
        lo, hi = np.min(cand, axis=0), np.max(cand, axis=0)
        w = 0.05 * (hi - lo) + 1e-6
        ws = pr[FV.WS].values[s]
        bad = ~((ws >= lo - w) & (ws <= hi + w))
        rec.check(
            not bad.any(), "WS|TurbOParkIX",
            lambda: f"state {s}, {name}, dx={spec['dx']}, {spec['ti_var']}: at x/D={xs[s][bad][0] / D:.2f} got {ws[bad][0]}, "
            f"expected {lo[bad][0]} to {hi[bad][0]}", n=N,
        )
        m = np.abs(hi - r.amb_ws(pts[s, :, 2])) > 1e-3
        nw += int(m.sum())
        rec.event("ix-width-rel-1e-3", int((hi - lo)[m].max(initial=0) * 1000))
    rec.event("points-in-wake-ix", nw)
    rec.nontrivial(nw > 0)
    rec.sample = dict(spec=spec, points_in_wake=nw)


def run_centreline(spec, rec):
    """
    the centreline points of a wake frame are those with zero lateral wake
    coordinates, at the requested downstream distances; observed wherever the
    real calculation asks for centreline points
    """
    scn = Scenario(spec)
    rng = rng_of("c10cl", spec["seed"])
    gam = rng.uniform(5, 28, (scn.n_s, scn.n_t)) * rng.choice([-1, 1], (scn.n_s, scn.n_t))
    mb = scn.mbook()
    m = foxes.models.turbine_models.SetFarmVars(pre_rotor=True)
    m.add_var(FV.YAWM, gam)
    mb.turbine_models["set_yawm"] = m
    fr = mb.wake_frames[spec["frame"]]
    orig = fr.get_centreline_points
    seen = []

    def probe(algo, mdata, fdata, downwind_index, x, *a, **k):
        p = orig(algo, mdata, fdata, downwind_index, x, *a, **k)
        c = fr.get_wake_coos(
            algo, mdata, fdata, foxes.core.TData.from_points(p.copy()), downwind_index
        )[:, :, 0]
        rec.close(c[..., 0], x, "centreline-x", "downstream distance of centreline points", rtol=1e-9, atol=1e-6)
        rec.close(c[..., 1:], 0 * c[..., 1:], "centreline-offset", "lateral coordinates of centreline points", atol=1e-6, rtol=0)
        seen.append(float(np.abs(np.diff(np.arctan2(*(p[:, 1:, :2] - p[:, :1, :2]).T), axis=0)).max()))
        return p

    fr.get_centreline_points = probe

    def mod(i, kw):
        kw["turbine_models"] = ["set_yawm", "yawm2yaw"] + kw["turbine_models"]
        return kw

    with engine_ctx("single"):
        algo = scn.algo(
            "Downwind", farm=scn.farm(mod=mod), mbook=mb, wake_frame=spec["frame"],
            wake_models=["TurbOParkIX_linear_k004_dx40", "CrespoHernandez_max_k004"],
        )
        algo.calc_farm()
    rec.event("centreline-calls", len(seen))
    rec.event("bent-centrelines", sum(1 for a in seen if a > 1e-3))
    rec.nontrivial(len(seen) > 0)


def ref_turbine(scn, i, gamma, spec):
    t = scn.types[scn.ttype[i]]
    return dict(
        x=float(scn.xy[i, 0]),
        y=float(scn.xy[i, 1]),
        H=t["H"],
        D=t["D"],
        ws=t["curve"]["ws"].to_numpy(),
        P_curve=t["curve"]["P"].to_numpy(),
        ct_curve=t["curve"]["ct"].to_numpy(),
        rho=t["rho"],
        gamma=float(gamma),
    )


def amb_fun(scn, s):
    if scn.prof == "shear":
        sh = 0.1 + 0.5 * scn.prof_z0[s]
        return lambda z: scn.ws[s] * (np.maximum(np.asarray(z, float), 0) / 90.0) ** sh
    return lambda z: np.full(len(np.atleast_1d(z)), scn.ws[s])


def km(name):
    """'kTI_amb_02_001' -> dict(ka, kb, amb)"""
    p = name.split("_")[1:]
    amb = p[0] == "amb"
    p = p[1:] if amb else p
    f = lambda x: float("0." + x[1:])
    return dict(ka=f(p[0]), kb=f(p[1]) if len(p) > 1 else 0.0, amb=amb)


def run(spec, rec):
    if spec.get("mode") == "centreline":
        return run_centreline(spec, rec)
    if spec.get("mode") == "ix":
        return run_ix(spec, rec)
    if spec.get("mode") == "lim":
        return run_lim(spec, rec)
    scn = Scenario(spec)
    rng = rng_of("c10", spec["seed"])
    if spec["states"] != "single":
        scn.ws[0] = 1.0  # below cut-in: no thrust
        rec.event("states-with-zero-ct")
    gam = rng.uniform(-25, 25, (scn.n_s, 1)) if spec["yaw"] else np.zeros((scn.n_s, 1))
    D = scn.types[0]["D"]
    H = scn.types[0]["H"]
    N = 90
    mb = scn.mbook()
    tm = []
    if spec["yaw"]:
        m = foxes.models.turbine_models.SetFarmVars(pre_rotor=True)
        m.add_var(FV.YAWM, gam)
        mb.turbine_models["set_yawm"] = m
        tm = ["set_yawm", "yawm2yaw"]
        rec.event("yawed")
    post = [spec["kmodel"]] if spec["kmodel"] else []

    def mod(i, kw):
        kw["turbine_models"] = tm + kw["turbine_models"] + post
        return kw

    # points around the wake
    pts = np.zeros((scn.n_s, N, 3))
    for s in range(scn.n_s):
        n = ref.wd2vec(scn.wd[s])
        l = np.array([-n[1], n[0]])
        x = rng.uniform(-1.5, 14, N) * D
        x[:10] = rng.uniform(0.05, 2.5, 10) * D
        x[10:40] = rng.uniform(0.5, 6, 30) * D
        y = rng.normal(0, 0.8, N) * D
        pts[s, :, :2] = scn.xy[0] + x[:, None] * n + y[:, None] * l
        pts[s, :, 2] = np.clip(H + rng.normal(0, 0.5, N) * D, 1.0, None)
    frame = spec["frame"]
    over = dict(wake_frame="yawed" if frame == "yawed" else frame)
    with engine_ctx("numpy", 2, [None, 1, 2][rng.integers(0, 3)], None):
        algo = scn.algo("Downwind", farm=scn.farm(mod=mod), mbook=mb, **over)
        fr = algo.calc_farm()
        pr = algo.calc_points(fr, pts)
    nw = nti = 0
    for s in range(scn.n_s):
        T = [ref_turbine(scn, 0, gam[s, 0], spec)]
        r = ref.RefFarm(
            T, scn.wd[s], scn.ti[s], scn.rho[s], amb_fun(scn, s), spec["wakes"],
            rotor=spec["rotor"], pwakes="centre", ground=spec["ground"],
            deflect=ref.parse_k("_".join(spec["wakes"][0].split("_")[1:])) if frame == "yawed" else None,
        )
        if frame == "yawed":
            r.deflect = r.W[0].k
        # K variable from the turbine model
        if spec["kmodel"]:
            p = km(spec["kmodel"])
            nr = len(ref.rotor_points(spec["rotor"])[1])
            r.finish(T[0], np.zeros(nr), np.zeros(nr))
            T[0]["K"] = p["ka"] * (scn.ti[s]) + p["kb"]
        r.run()
        t = T[0]
        tol = 1e-8 if spec["rotor"] == "centre" else 2e-4
        for v in ("REWS", "REWS2", "REWS3", "TI", "P", "CT"):
            if v in fr:
                rec.close(fr[v].values[s, 0], t[v], f"{v}|farm", f"state {s} turbine {v}", rtol=tol, atol=tol)
        # continue with the turbine values of the real code, to judge the wake alone
        for v in ("REWS", "TI", "CT"):
            t[v] = float(fr[v].values[s, 0])
            t["AMB_" + v] = float(fr["AMB_" + v].values[s, 0])
        ws, ti = r.points(pts[s])
        rec.close(pr[FV.WS].values[s], ws, f"WS|{r.W[0].kind}", f"state {s} {spec['wakes']}", rtol=1e-7, atol=1e-7)
        rec.close(pr[FV.TI].values[s], ti, f"TI|{r.W[-1].kind}", f"state {s} {spec['wakes']}", rtol=1e-7, atol=1e-7)
        rec.close(pr[FV.AMB_WS].values[s], r.amb_ws(pts[s, :, 2]), "AMB_WS", f"state {s}", rtol=1e-7, atol=1e-7)
        dw = np.abs(ws - r.amb_ws(pts[s, :, 2])) > 1e-3
        nw += int(dw.sum())
        nti += int((ti - scn.ti[s] > 1e-5).sum())
        if r.W[0].kind.startswith("Bastankhah2016"):
            rec.event("near-wake")
    rec.event("points-in-wake", nw)
    rec.event("ti-in-wake", nti)
    rec.nontrivial(nw > 0)
    rec.sample = dict(spec=spec, points_in_wake=nw, ti_in_wake=nti)
