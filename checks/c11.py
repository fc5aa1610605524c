"""C11: wakes of a whole farm follow from the chosen models, superpositions and partial wakes"""

import numpy as np
import foxes
import foxes.variables as FV

from harness.core import rng_of
from harness.scen import Scenario, engine_ctx, WS_SUPER, TI_SUPER
from harness import ref
from checks.c10 import WIND, TI, ref_turbine, amb_fun

PROPERTY = "C11"
RULE = (
    "random farms with mixed turbine types, one wind and possibly one TI wake model, every "
    "superposition, rotor model, partial wakes and ground model; farm results and points are "
    "compared with an independent scalar simulator, turbine by turbine in downwind order; "
    "non-trivial when a turbine stands in the wakes of several others"
)
ASSUMES = [
    "published wake formulas as implemented in harness/ref.py",
    "only the most upstream turbine is yawed",
    "wake growth from wake-added TI is compared for the converged iterative algorithm only",
]
REQUIRED_EVENTS = [
    "multi-wake-turbines",
    "partial-wakes",
    "two-wind-models",
    "mixed-diameters",
    "iterative",
    "mirror",
    "deflected",
]
PW = [None, "rotor_points", "centre", "grid9", "grid16", "axiwake4", "axiwake7", "top_hat"]
KS = ["k002", "k004", "k0075", "ambka02", "ambka04", "ambka03_kb0005"]


def cases(tier, seed):
    n = 220 if tier == "quick" else 2200
    out = []
    for i in range(n):
        rng = rng_of(PROPERTY, seed, i)
        sp = dict(
            seed=int(rng.integers(1 << 31)),
            n_t=int(rng.integers(2, 7)),
            n_s=int(rng.integers(2, 6)),
            n_types=int(rng.integers(1, 4)),
            layout=str(rng.choice(["random", "row", "row"])),
            box=2.6,
            states=str(rng.choice(["timeseries", "table"])),
        )
        if rng.random() < 0.4:
            sp["profile"] = "shear"
        w = WIND[i % len(WIND)]
        pw = PW[rng.integers(0, len(PW))]
        if pw == "top_hat":
            w = "Jensen"
        if pw and pw.startswith("axi"):
            w = str(rng.choice([x for x in WIND if not x.startswith("Bastankhah2016")]))
        sp["pwakes"] = pw
        s = WS_SUPER[(i // 3) % len(WS_SUPER)]
        it = rng.random() < (0.6 if w.startswith("Bastankhah2016") else 0.3)
        k = str(rng.choice(["ka02", "ka04_kb001"] if it and rng.random() < 0.7 else KS))
        sp["wakes"] = [f"{w}_{s}_{k}"]
        # in one downwind sweep the WS wakes must not depend on wake-added TI
        if rng.random() < 0.6 and pw != "top_hat" and (it or not w.startswith("Bastankhah2016")):
            t = TI[rng.integers(0, len(TI))]
            ts = TI_SUPER[rng.integers(0, len(TI_SUPER))]
            sp["wakes"].append(f"{t}_{ts}" + ("" if t in TI[3:] else "_" + str(rng.choice(KS))))
        if pw == "top_hat" and rng.random() < 0.6:
            sp["wakes"].append(f"CrespoHernandez_{TI_SUPER[rng.integers(0, 5)]}_k004")
        sp["rotor"] = str(rng.choice(["centre", "centre", "level3", "level5", "grid4", "grid16"]))
        sp["ground"] = [None, None, None, "ground_mirror", "blh_mirror_h500"][rng.integers(0, 5)]
        sp["frame"] = "yawed" if rng.random() < 0.3 else "rotor_wd"
        sp["yaw"] = sp["frame"] == "yawed" or rng.random() < 0.15
        sp["iter"] = bool(it)
        if it:
            sp["yaw"] = False
            sp["frame"] = "rotor_wd"
            # several wind deficit models at once
            r2 = rng_of(PROPERTY, seed, i, "second")
            if r2.random() < 0.5:
                w2 = WIND[r2.integers(0, len(WIND))]
                sp["wakes"].insert(
                    int(r2.integers(0, 2)), f"{w2}_{WS_SUPER[r2.integers(0, len(WS_SUPER))]}_{KS[r2.integers(0, len(KS))]}"
                )
                sp["two"] = True
        elif pw is None or pw in ("rotor_points", "centre", "grid9", "grid16"):
            r2 = rng_of(PROPERTY, seed, i, "second")
            if r2.random() < 0.6:
                w2 = [x for x in WIND if not x.startswith("Bastankhah2016")]
                w2 = w2[r2.integers(0, len(w2))]
                sp["wakes"].insert(
                    int(r2.integers(0, 2)), f"{w2}_{WS_SUPER[r2.integers(0, len(WS_SUPER))]}_{KS[r2.integers(0, len(KS))]}"
                )
                sp["two"] = True
                sp["n_t"] = 2  # one sweep per model: the sources are not waked
        out.append(sp)
    return out


def run(spec, rec):
    scn = Scenario(spec)
    rng = rng_of("c11", spec["seed"])
    gam = np.zeros((scn.n_s, scn.n_t))
    for s in range(scn.n_s):
        n = ref.wd2vec(scn.wd[s])
        first = int(np.argmin(scn.xy @ n))
        if spec["yaw"]:
            gam[s, first] = rng.uniform(8, 28) * rng.choice([-1, 1])
    mb = scn.mbook()
    tm = []
    if spec["yaw"]:
        m = foxes.models.turbine_models.SetFarmVars(pre_rotor=True)
        m.add_var(FV.YAWM, gam)
        mb.turbine_models["set_yawm"] = m
        tm = ["set_yawm", "yawm2yaw"]

    def mod(i, kw):
        kw["turbine_models"] = tm + kw["turbine_models"]
        return kw

    cls = "Iterative" if spec["iter"] else "Downwind"
    # the iterative algorithm smoothes the thrust curve at cut-in, unless told otherwise
    over = dict(mod_cutin=dict(modify_ct=False, modify_P=False)) if spec["iter"] else {}
    P = scn.points(24)
    pts = np.zeros((scn.n_s, 24, 3))
    pts[:] = P[None]
    cs = [None, 1, 2][rng.integers(0, 3)]
    with engine_ctx("numpy", 2, cs, None):
        algo = scn.algo(cls, farm=scn.farm(mod=mod), mbook=mb, **over)
        if spec["iter"]:
            algo.conv_crit = foxes.algorithms.iterative.models.ConvVarDelta(
                {FV.REWS: 1e-9, FV.TI: 1e-10, FV.CT: 1e-10}
            )
        fr = algo.calc_farm()
        pr = algo.calc_points(fr, pts)
    multi = 0
    names = [str(x) for x in fr["tname"].values]
    rec.check(names == [f"WT_{i:03d}" for i in range(scn.n_t)], "turbine-order", f"{names}")
    sens = spec["iter"]
    for s in range(scn.n_s):
        T = [ref_turbine(scn, i, gam[s, i], spec) for i in range(scn.n_t)]
        r = ref.RefFarm(
            T, scn.wd[s], scn.ti[s], scn.rho[s], amb_fun(scn, s), spec["wakes"],
            rotor=spec["rotor"], pwakes=spec["pwakes"], ground=spec["ground"],
        )
        if spec["frame"] == "yawed":
            r.deflect = r.W[0].k
            rec.event("deflected", int(np.any(np.abs(gam[s]) > 0)))
        r.run()
        tol = 1e-7 if spec["rotor"] == "centre" and not grid_like(r, spec) else 1.5e-3
        if sens:
            tol = max(tol, 1e-5)
        for v in ("REWS", "REWS2", "REWS3", "TI", "CT", "P", "AMB_REWS", "AMB_TI", "AMB_CT", "AMB_P"):
            if v in fr:
                want = np.array([t[v] for t in T])
                # P and CT amplify wind speed differences by the slope of the curves
                sc = 40.0 if v in ("P", "AMB_P") else 5.0 if v in ("CT", "AMB_CT") else 1.0
                if v in ("P", "AMB_P") and tol > 1e-6:
                    atol = tol * 3000.0
                else:
                    atol = tol * sc
                ok = np.ones(len(T), bool)
                if spec.get("two"):  # the sum of two deficits can exceed the wind speed
                    ok = np.array([t["REWS"] > 0.3 for t in T])
                rec.close(
                    fr[v].values[s], want, mask=ok, key=f"{v}|{r.wmod(r.W[0])[:4]}",
                    msg=f"state {s} {spec['wakes']}", rtol=tol * sc, atol=atol,
                )
        D = np.array([t["D"] for t in T])
        nw = [sum(1 for u in T if r.pos(u)[0] < r.pos(t)[0] - 1 and abs(r.pos(u)[1] - r.pos(t)[1]) < D.max()) for t in T]
        multi += sum(1 for x in nw if x > 1)
        rec.event("partial-wakes", int(np.sum(np.abs(fr["REWS"].values[s] - fr["AMB_REWS"].values[s]) > 1e-4)))
        for i, t in enumerate(T):
            for v in ("REWS", "TI", "CT", "AMB_REWS", "AMB_TI", "AMB_CT"):
                if v in fr:
                    t[v] = float(fr[v].values[s, i])
        r.W = [ref.WakeSpec(w) for w in spec["wakes"]]
        ws, ti = r.points(pts[s])
        rec.close(pr[FV.WS].values[s], ws, "WS-points", f"state {s} {spec['wakes']}", rtol=1e-7, atol=1e-7)
        rec.close(pr[FV.TI].values[s], ti, "TI-points", f"state {s} {spec['wakes']}", rtol=1e-7, atol=1e-7)
    rec.event("multi-wake-turbines", multi)
    rec.event("two-wind-models", int(spec.get("two", False)))
    rec.event("mixed-diameters", int(scn.n_types > 1))
    if spec["iter"]:
        rec.event("iterative")
    if spec["ground"]:
        rec.event("mirror")
    rec.event("rotor:" + spec["rotor"])
    rec.event("pwakes:" + str(spec["pwakes"]))
    rec.nontrivial(multi > 0)
    rec.sample = dict(spec=spec, multi=multi)


def grid_like(r, spec):
    return any(r.wmod(W).startswith("grid") for W in r.W)
