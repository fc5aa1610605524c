"""C24: names in the model book yield the models they describe"""

import contextlib
import io
import numpy as np
import pandas as pd
import foxes
import foxes.variables as FV

from harness.core import rng_of
from harness.cmp import compare
from harness.scen import Scenario, engine_ctx, WS_SUPER, TI_SUPER

PROPERTY = "C24"
RULE = (
    "random names of all kinds of models (all wake models with all superpositions and wake growth notations, rotors, "
    "partial wakes, frames, turbine and ground models, superpositions) in random order, used in the same farm as an "
    "object made by the documented constructor; names that describe nothing; random templates of own factories; "
    "non-trivial when a farm calculation by name was compared with one by constructor"
)
ASSUMES = ["notation of numbers as documented by the hints of the factories: 004 is 0.04, 12 is 12"]
REQUIRED_EVENTS = [
    "wake-name", "ti-name", "k", "ka", "ka-kb", "ambka", "ambka-kb", "no-k", "rotor-name", "partial-name", "frame-name", "tmodel-name",
    "superposition-name", "induction-name", "ground-name", "unknown-refused", "factory-template", "factory-refused", "examples", "stored",
    "deficit", "toc", "dynamic-name",
    "static-types", "fixed-names",
]
NUM = {"004": 0.04, "0075": 0.075, "002": 0.02, "011": 0.11, "0055": 0.055}
NUMA = {"04": 0.4, "02": 0.2, "038": 0.38, "005": 0.05, "1": 1.0}
NUMB = {"001": 0.01, "0003": 0.003, "004": 0.04, "002": 0.02}
KINDS = ["wake", "wake", "wake", "ti", "rotor", "partial", "frame", "tmodel", "superposition", "induction", "ground", "dynamic"]


def cases(tier, seed):
    n = 120 if tier == "quick" else 2400
    out = []
    for i in range(n):
        rng = rng_of(PROPERTY, seed, i)
        out.append(dict(kind="names", sub=KINDS[i % len(KINDS)], seed=int(rng.integers(1 << 31)), n_t=int(rng.integers(2, 5)), n_s=int(rng.integers(2, 5))))
    for i in range(n // 2):
        rng = rng_of(PROPERTY, seed, "f", i)
        out.append(dict(kind=["factory", "book"][i % 2], seed=int(rng.integers(1 << 31))))
    for i in range(4 if tier == "quick" else 40):
        out.append(dict(kind="ttypes", seed=int(rng_of(PROPERTY, seed, "t", i).integers(1 << 31))))
    return out


def pick(rng, d):
    k = list(d)[int(rng.integers(len(d)))]
    return k, d[k]


def kpart(rng, rec):
    q = str(rng.choice(["k", "ka", "ka-kb", "ambka", "ambka-kb", "no-k"]))
    rec.event(q)
    a, av = pick(rng, NUMA)
    b, bv = pick(rng, NUMB)
    if q == "k":
        c, v = pick(rng, NUM)
        return f"_k{c}", dict(k=v)
    if q == "ka":
        return f"_ka{a}", dict(ka=av, ti_var=FV.TI)
    if q == "ka-kb":
        return f"_ka{a}_kb{b}", dict(ka=av, kb=bv, ti_var=FV.TI)
    if q == "ambka":
        return f"_ambka{a}", dict(ka=av, ti_var=FV.AMB_TI)
    if q == "ambka-kb":
        return f"_ambka{a}_kb{b}", dict(ka=av, kb=bv, ti_var=FV.AMB_TI)
    return "", {}


def wake_name(rng, rec):
    W = foxes.models.wake_models.wind
    fam, cls, kw = [
        ("Jensen", W.JensenWake, dict(induction="Betz")),
        ("Bastankhah2014", W.Bastankhah2014, dict(sbeta_factor=0.2, induction="Madsen")),
        ("Bastankhah2014B", W.Bastankhah2014, dict(sbeta_factor=0.2, induction="Betz")),
        ("Bastankhah025", W.Bastankhah2014, dict(sbeta_factor=0.25, induction="Madsen")),
        ("Bastankhah025B", W.Bastankhah2014, dict(sbeta_factor=0.25, induction="Betz")),
        ("Bastankhah2016", W.Bastankhah2016, dict(induction="Madsen")),
        ("Bastankhah2016B", W.Bastankhah2016, dict(induction="Betz")),
        ("TurbOPark", W.TurbOParkWake, dict(induction="Madsen")),
        ("TurbOParkB", W.TurbOParkWake, dict(induction="Betz")),
        ("TurbOParkIX", W.TurbOParkWakeIX, {}),
    ][int(rng.integers(10))]
    s = str(rng.choice(WS_SUPER))
    k, kk = kpart(rng, rec)
    name = f"{fam}_{s}{k}"
    kw = dict(kw, superposition=f"ws_{s}", **kk)
    if fam == "TurbOParkIX":
        dx = int(rng.choice([40, 75, 120]))
        name += f"_dx{dx}"
        kw["dx"] = float(dx)
    return name, lambda: cls(**kw)


def ti_name(rng, rec):
    T = foxes.models.wake_models.ti
    s = str(rng.choice(TI_SUPER))
    q = int(rng.integers(5))
    if q == 0:
        k, kk = kpart(rng, rec)
        return f"CrespoHernandez_{s}{k}", lambda: T.CrespoHernandezTIWake(superposition=f"ti_{s}", use_ambti=False, **kk)
    y = ["2019", "2005"][q % 2]
    if q < 3:
        return f"IECTI{y}_{s}", lambda: T.IECTIWake(superposition=f"ti_{s}", iec_type=y)
    k, kk = kpart(rng, rec)
    return f"IECTI{y}k_{s}{k}", lambda: T.IECTIWake(superposition=f"ti_{s}", iec_type=y, opening_angle=None, **kk)


SUPOBJ = None


def sup_objects():
    S = foxes.models.wake_superpositions
    lim = dict(lim_low=1e-4)
    out = {}
    for nm, A, B in (("linear", S.WSLinear, S.WSLinearLocal), ("quadratic", S.WSQuadratic, S.WSQuadraticLocal)):
        out[nm] = lambda A=A: A(scale_amb=False)
        out[nm + "_lim"] = lambda A=A: A(scale_amb=False, **lim)
        out[nm + "_amb"] = lambda A=A: A(scale_amb=True)
        out[nm + "_amb_lim"] = lambda A=A: A(scale_amb=True, **lim)
        out[nm + "_loc"] = lambda B=B: B()
        out[nm + "_loc_lim"] = lambda B=B: B(**lim)
    for nm, p in (("cubic", 3), ("quartic", 4)):
        out[nm] = lambda p=p: S.WSPow(pow=p, scale_amb=False)
        out[nm + "_amb"] = lambda p=p: S.WSPow(pow=p, scale_amb=True)
        out[nm + "_loc"] = lambda p=p: S.WSPowLocal(pow=p)
        out[nm + "_loc_lim"] = lambda p=p: S.WSPowLocal(pow=p, **lim)
    out["max"] = lambda: S.WSMax(scale_amb=False)
    out["max_amb"] = lambda: S.WSMax(scale_amb=True)
    out["max_loc"] = lambda: S.WSMaxLocal()
    out["max_loc_lim"] = lambda: S.WSMaxLocal(**lim)
    out["product"] = lambda: S.WSProduct()
    out["product_lim"] = lambda: S.WSProduct(**lim)
    ti = dict(
        linear=lambda: S.TILinear(superp_to_amb="quadratic"), quadratic=lambda: S.TIQuadratic(superp_to_amb="quadratic"),
        cubic=lambda: S.TIPow(pow=3, superp_to_amb="quadratic"), quartic=lambda: S.TIPow(pow=4, superp_to_amb="quadratic"),
        max=lambda: S.TIMax(superp_to_amb="quadratic"),
    )
    return {**{f"ws_{k}": v for k, v in out.items()}, **{f"ti_{k}": v for k, v in ti.items()}}


def job(rng, rec, sub):
    """source, name, constructor, options of the run by name and by object (name -> name of object)"""
    M = foxes.models
    base = dict(wake_models=["Bastankhah2014_quadratic_k004", "CrespoHernandez_quadratic_k004"])
    if sub == "wake":
        name, f = wake_name(rng, rec)
        rec.event("wake-name")
        return "wake_models", name, f, lambda n: dict(wake_models=[n, "CrespoHernandez_quadratic_k004"])
    if sub == "ti":
        name, f = ti_name(rng, rec)
        rec.event("ti-name")
        return "wake_models", name, f, lambda n: dict(wake_models=["Bastankhah2014_quadratic_ka03", n])
    if sub == "rotor":
        raw = bool(rng.random() < 0.5)
        n = int(rng.integers(1, 6))
        R = M.rotor_models
        q = int(rng.integers(5))
        if q == 0:
            name, f = "centre", lambda: R.CentreRotor()
        elif q < 3:
            name, f = f"grid{n * n}" + ("_raw" if raw else ""), lambda: R.GridRotor(n=n, reduce=not raw)
        else:
            name, f = f"level{n}" + ("_raw" if raw else ""), lambda: R.LevelRotor(n=n, reduce=not raw)
        rec.event("rotor-name")
        return "rotor_models", name, f, lambda n: dict(base, rotor_model=n)
    if sub == "partial":
        P = M.partial_wakes
        n = int(rng.integers(2, 8))
        wake = "Bastankhah2014_quadratic_k004"
        q = int(rng.integers(5))
        if q == 0:
            name, f = "rotor_points", lambda: P.RotorPoints()
        elif q == 1:
            name, f = "centre", lambda: P.PartialCentre()
        elif q == 2:
            name, f, wake = "top_hat", lambda: P.PartialTopHat(), "Jensen_quadratic_k0075"
        elif q == 3:
            name, f = f"axiwake{n}", lambda: P.PartialAxiwake(n)
        else:
            n = int(rng.integers(1, 6))
            name, f = f"grid{n * n}", lambda: P.PartialGrid(n=n)
        rec.event("partial-name")
        return "partial_wakes", name, f, lambda n: dict(wake_models=[wake], partial_wakes=n, rotor_model="grid9")
    if sub == "frame":
        F = M.wake_frames
        q = int(rng.integers(6))
        if q == 0:
            name, f = "rotor_wd", lambda: F.RotorWD(var_wd=FV.WD)
        elif q == 1:
            name, f = "rotor_wd_farmo", lambda: F.FarmOrder()
        elif q == 2:
            st = int(rng.choice([50, 120, 300]))
            name, f = f"streamlines_{st}", lambda: F.Streamlines2D(step=float(st))
        else:
            k, kk = kpart(rng, rec)
            name, f = "yawed" + k, lambda: F.YawedWakes(**kk)
        rec.event("frame-name")
        return "wake_frames", name, f, lambda n: dict(base, wake_frame=n)
    if sub == "dynamic":
        F = M.wake_frames
        q = int(rng.integers(3))
        n, u, m = [(120, "s", 2.0), (10, "min", 10.0), (5, "min", 5.0), (300, "s", 5.0)][int(rng.integers(4))]
        rec.event("dynamic-name")
        if q == 0:
            name, f = f"timelines_{n}{u}", lambda: F.Timelines(dt_min=m)
        elif q == 1:
            n, u, m = [(2, "km", 2.0), (1500, "m", 1.5), (20, "km", 20.0), (800, "m", 0.8)][int(rng.integers(4))]
            name, f = f"dyn_wakes_{n}{u}", lambda: F.DynamicWakes(max_length_km=m)
        else:
            name, f = f"seq_dyn_wakes_{n}{u}", lambda: F.SeqDynamicWakes(dt_min=m)
            return "wake_frames", name, f, lambda n: dict(base, wake_frame=n, cls="Sequential")
        return "wake_frames", name, f, lambda n: dict(base, wake_frame=n, cls="Iterative" if q else "Downwind")
    if sub == "tmodel":
        T = M.turbine_models
        a, av = pick(rng, NUMA)
        b, bv = pick(rng, NUMB)
        name, f = [
            ("kTI", lambda: T.kTI(kTI=0.3)),
            (f"kTI_{a}", lambda: T.kTI(kTI=av)),
            (f"kTI_amb_{a}", lambda: T.kTI(kTI=av, ti_var=FV.AMB_TI)),
            (f"kTI_{a}_{b}", lambda: T.kTI(kTI=av, kb=bv)),
            (f"kTI_amb_{a}_{b}", lambda: T.kTI(kTI=av, kb=bv, ti_var=FV.AMB_TI)),
        ][int(rng.integers(1, 5))]
        rec.event("tmodel-name")
        return "turbine_models", name, f, lambda n: dict(wake_models=["Bastankhah2014_quadratic", "CrespoHernandez_quadratic_k004"], tmodel=n)
    if sub == "superposition":
        name, f = pick(rng, sup_objects())
        rec.event("superposition-name")
        W = M.wake_models
        if name[:2] == "ws":
            mk = lambda s: W.wind.Bastankhah2014(superposition=s, k=0.05)
            return "wake_superpositions", name, f, lambda n: dict(wake_models=["UW"], extra=dict(UW=mk(n)))
        mk = lambda s: W.ti.CrespoHernandezTIWake(superposition=s, k=0.05)
        return "wake_superpositions", name, f, lambda n: dict(wake_models=["Bastankhah2014_quadratic_ka03", "UW"], extra=dict(UW=mk(n)))
    if sub == "induction":
        I = M.wake_models.induction
        fam = ["VortexSheet", "Rathmann", "SelfSimilar", "SelfSimilar2020"][int(rng.integers(4))]
        q = rng.random()
        s = str(rng.choice(["linear", "linear_amb", "product", "linear_lim"]))
        if q < 0.15:
            name, f = "RHB", lambda: I.RankineHalfBody()
        elif q < 0.35:
            name, f = fam, lambda: getattr(I, fam)()
        elif q < 0.5:
            A = M.axial_induction
            nm, cl = [("Betz", A.BetzAxialInduction), ("Madsen", A.MadsenAxialInduction)][int(rng.integers(2))]
            mk = lambda s: M.wake_models.wind.JensenWake(superposition="ws_linear", induction=s, k=0.05)
            rec.event("induction-name")
            return "axial_induction", nm, lambda: cl(), lambda n: dict(wake_models=["UW"], extra=dict(UW=mk(n)))
        else:
            name, f = f"{fam}_{s}", lambda: getattr(I, fam)(superposition=f"ws_{s}")
        rec.event("induction-name")
        return "wake_models", name, f, lambda n: dict(wake_models=["Bastankhah2014_linear_k004", n], cls="Iterative")
    G = M.ground_models
    h = float(np.round(rng.uniform(200, 600), int(rng.integers(0, 2))))
    hs = f"{h:g}"
    name, f = [
        ("no_ground", lambda: G.NoGround()), ("ground_mirror", lambda: G.GroundMirror()),
        (f"blh_mirror_h{hs}", lambda: G.WakeMirror(heights=[0.0, float(hs)])), (f"blh_mirror_h{hs}", lambda: G.WakeMirror(heights=[0.0, float(hs)])),
    ][int(rng.integers(4))]
    rec.event("ground-name")
    return "ground_models", name, f, lambda n: dict(wake_models=["Bastankhah2014_linear_k0075"], ground_models=n)


def calc(sc, mb, opts, pts, rec):
    opts = dict(opts)
    cls = opts.pop("cls", "Downwind")
    tm = opts.pop("tmodel", "kTI_02")
    for k, m in opts.pop("extra", {}).items():
        mb.wake_models[k] = m

    def mod(i, kw):
        kw["turbine_models"] = ["yset"] + kw["turbine_models"] + [tm]
        return kw

    mb.turbine_models["yset"] = foxes.models.turbine_models.SetFarmVars(pre_rotor=True)
    mb.turbine_models["yset"].add_var(FV.YAWM, sc.yawm)
    farm = sc.farm(mod=lambda i, kw: dict(kw, turbine_models=["yset"] + kw["turbine_models"] + ["yawm2yaw", tm]))
    try:
        algo = sc.algo(cls, farm, sc.states(), mb, **opts)
        if cls == "Sequential":
            out = [{v: r[v].to_numpy() for v in (FV.REWS, FV.TI, FV.YAW, FV.K)} for r in algo]
            return {f"{v}{j}": o[v] for j, o in enumerate(out) for v in o}, None, None
        fr = algo.calc_farm()
        pr = algo.calc_points(fr, pts)
        A = {v: fr[v].to_numpy() for v in fr.data_vars if v not in ("tname",) and fr[v].dtype.kind == "f"}
        P = {v: pr[v].to_numpy() for v in pr.data_vars if pr[v].dtype.kind == "f"}
        return A, P, None
    except Exception as e:
        return None, None, e


def names(spec, rng, rec):
    st = "timeseries" if spec["sub"] == "dynamic" else str(rng.choice(["timeseries", "table"]))
    sp = dict(seed=spec["seed"], n_t=spec["n_t"], n_s=spec["n_s"], states=st, box=2.4, layout="row", ws_range=(6, 13))
    if spec["sub"] == "rotor":
        sp["profile"] = "shear"
    sc = Scenario(sp)
    sc.yawm = rng.uniform(-20, 20, (sc.n_s, sc.n_t)) if spec["sub"] != "partial" else np.zeros((sc.n_s, sc.n_t))
    pts = sc.points(12)[None].repeat(sc.n_s, axis=0)
    with engine_ctx("single"):
        for _ in range(3 if spec["sub"] != "dynamic" else 2):
            src, name, make, opts = job(rng, rec, spec["sub"])
            mb = sc.mbook()
            # other names first
            for o in rng.permutation(["Jensen_linear", "Bastankhah2014_linear_k004", "CrespoHernandez_linear_ka04"])[: int(rng.integers(0, 3))]:
                mb.wake_models[str(o)]
            try:
                obj, oerr = make(), None
            except Exception as e:
                obj, oerr = None, e
            if obj is not None and rng.random() < 0.5 and name in mb.sources[src]:
                mb.sources[src][name]
            a = calc(sc, mb, opts(name), pts, rec)
            mo = sc.mbook()
            if obj is not None:
                mo.sources[src]["own_model"] = obj
                b = calc(sc, mo, opts("own_model"), pts, rec)
            else:
                b = None, None, oerr
            if a[2] is not None or b[2] is not None:
                rec.check(
                    a[2] is not None and b[2] is not None and type(a[2]) is type(b[2]), "name-exception",
                    lambda: f"{src} {name}: exception {a[2]!r}, by constructor {b[2]!r}",
                )
                rec.event("refused-both")
                continue
            m = mb.sources[src][name]
            rec.check(type(m) is type(obj), "name-class", lambda: f"{name}: {type(m)}, expected {type(obj)}")
            rec.check(m is mb.sources[src][name] and m is mb.sources[src].get_item(name) and name in mb.sources[src], "stored", f"{name} not stored")
            rec.event("stored")
            for p, q, w in ((a[0], b[0], "farm"), (a[1], b[1], "points")):
                if p is None:
                    continue
                rec.check(set(p) == set(q), "name-vars", lambda: f"{src} {name}: variables {set(p) ^ set(q)}")
                for v in p:
                    rec.close(p[v], q[v], f"name-{w}", rtol=1e-12, atol=1e-12, msg=f"{src} {name} {v}")
            if FV.AMB_REWS in a[0] and np.nanmax(a[0][FV.AMB_REWS] - a[0][FV.REWS]) > 0.05:
                rec.event("deficit")
            rec.nontrivial()
    rec.sample = dict(sub=spec["sub"], last=f"{src}/{name}")


UNKNOWN = [
    ("rotor_models", ["grid8", "grid", "level2.5", "levelx", "center", "grid9_rawx", "grid9x", "centre2", "level", "gridraw"]),
    ("wake_models", [
        "Jensen", "jensen_linear", "Jensen_linear_k", "Jensen_linear_k0x", "Bastankhah2014_linearx_k004", "Bastankhah2013_linear_k004",
        "Bastankhah2014_linear_k004_kb001", "Bastankhah2014_lin_ka04", "CrespoHernandez_product_k004", "TurbOParkIX_linear_k004",
        "TurbOParkIX_linear_k004_dxx", "IECTI2020_linear", "RHBx", "Rathmann_x", "SelfSimilar2021", "xJensen_linear_k004",
    ]),
    ("wake_frames", ["yawed_typo", "yawedx", "yawed_kx", "yawed_kb001", "rotor_wdx", "streamlines_x", "timelines_10", "dyn_wakes_5cm", "seq_dyn_wakes_5km", "yawed_k"]),
    ("partial_wakes", ["axiwake", "axiwakex", "grid5", "top_hatx", "centre1"]),
    ("turbine_models", ["kTI_", "kTI_x", "kTI_02_x", "kTI_amb_x", "kTIx"]),
    ("ground_models", ["blh_mirror_h", "blh_mirror_hx", "no_groundx", "blh_mirror_500"]),
    ("wake_superpositions", ["ws_lin", "ti_product", "linear"]),
    ("turbine_types", ["NREL5MWx", "nrel5mw"]),
]


def book(spec, rng, rec):
    sc = Scenario(dict(seed=spec["seed"], n_t=2, n_s=2, states="timeseries"))
    sc.yawm = np.zeros((2, 2))
    pts = sc.points(3)[None].repeat(2, axis=0)
    src, L = UNKNOWN[int(rng.integers(len(UNKNOWN)))]
    name = str(L[int(rng.integers(len(L)))])
    mb = sc.mbook()
    n0 = len(mb.sources[src])
    try:
        m = mb.sources[src][name]
        refused = False
    except Exception:
        refused = True
        rec.check(len(mb.sources[src]) == n0, "unknown-stored", f"{src} {name} refused but stored")
    if not refused:
        # later, when it is used
        o = dict(
            rotor_models=lambda: dict(rotor_model=name), wake_models=lambda: dict(wake_models=["Bastankhah2014_linear_k004", name]),
            wake_frames=lambda: dict(wake_frame=name), partial_wakes=lambda: dict(partial_wakes=name),
            turbine_models=lambda: dict(tmodel=name), ground_models=lambda: dict(ground_models=name),
        ).get(src, lambda: {})()
        with engine_ctx("single"):
            a = calc(sc, sc.mbook(), o, pts, rec)
        refused = a[2] is not None
    rec.check(refused, "unknown-accepted", lambda: f"{src}: name '{name}' is accepted, as {m}")
    rec.event("unknown-refused")

    # all templates of the book: examples
    for s, d in mb.sources.items():
        for f in d.factories:
            if f.example is not None:
                rec.check(f.example in d, "example", lambda: f"{s}: example {f.example} of {f.name_template} is unknown")
                try:
                    x = d[f.example]
                except AssertionError as e:
                    # constant wake growth only
                    rec.check("TurbOParkIX" in f.example and "ka" in f.name_template, "example-fails", lambda: f"{s}: example {f.example}: {e}")
                    continue
                rec.check(isinstance(x, f.base), "example-class", lambda: f"{s}: example {f.example} yields {type(x)}, expected {f.base}")
                rec.event("examples")
            str(f)
    # two books share nothing
    m2 = foxes.ModelBook()
    for s, d in mb.sources.items():
        for k, m in d.items():
            if k in m2.sources[s].keys():
                rec.check(m is not dict.__getitem__(m2.sources[s], k), "book-shared", f"{s} {k} is shared by two model books")
    for s in list(mb.sources)[int(rng.integers(3)) :: 3]:
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            mb.print_toc(subset=[s])
        missing = [k for k in mb.sources[s] if k not in out.getvalue()]
        rec.check(not missing, "toc", lambda: f"{s}: table of contents without {missing}")
        rec.event("toc")
    # created by class name
    k = float(np.round(rng.uniform(0.02, 0.1), 3))
    w = mb.get("wake_models", "mine", "JensenWake", superposition="ws_linear", k=k)
    with engine_ctx("single"):
        a = calc(sc, mb, dict(wake_models=["mine"]), pts, rec)
        mo = sc.mbook()
        mo.wake_models["own"] = foxes.models.wake_models.wind.JensenWake(superposition="ws_linear", k=k)
        b = calc(sc, mo, dict(wake_models=["own"]), pts, rec)
    rec.check(a[2] is None and w is mb.get("wake_models", "mine"), "get-new", lambda: f"{a[2]!r}")
    if a[2] is None:
        rec.close(a[0][FV.REWS], b[0][FV.REWS], "get-new", rtol=1e-12)
    rec.nontrivial()
    try:
        mb.get("wake_models", "no_such_model")
        rec.violate("get-missing", "no KeyError")
    except KeyError as e:
        rec.check("no_such_model" in str(e), "get-missing", f"{e}")


STATIC = dict(
    NREL5MW="NREL-5MW-D126-H90.csv", DTU10MW="DTU-10MW-D178d3-H119.csv", IEA15MW="IEA-15MW-D240-H150.csv",
)
STATIC["IWT7.5MW"] = "IWT-7d5MW-D164-H100.csv"


def ttypes(spec, rng, rec):
    """turbine types of the book against their data files; turbine models and others by class"""
    from checks.c13 import interp

    n_s = 40
    sd = foxes.StaticData()
    names = list(STATIC) + ["Pct", "null_type"]
    other = str(rng.choice(list(STATIC.values())))
    mb = foxes.ModelBook(Pct_file=other)
    rho = rng.uniform(1.0, 1.3, n_s)
    ws = rng.uniform(1.0, 29.0, n_s)
    st = foxes.input.states.Timeseries(
        pd.DataFrame({"WS": ws, "WD": rng.uniform(0, 360, n_s), "RHO": rho}), output_vars=[FV.WS, FV.WD, FV.TI, FV.RHO], fixed_vars={FV.TI: 0.07}
    )
    farm = foxes.WindFarm()
    order = [str(x) for x in rng.permutation(names)]
    for i, k in enumerate(order):
        kw = dict(D=80.0, H=70.0) if k == "null_type" else {}
        farm.add_turbine(foxes.Turbine(xy=[i * 3e4, 0.0], turbine_models=[k], **kw), verbosity=0)
    with engine_ctx("single"):
        fr = foxes.algorithms.Downwind(farm, st, wake_models=[], mbook=mb, verbosity=0).calc_farm()
    for i, k in enumerate(order):
        rec.event("static-types")
        if k == "null_type":
            for v in (FV.P, FV.CT):
                if v in fr:
                    rec.check(not np.any(np.abs(fr[v].values[:, i]) > 0), "null-type", f"null_type has {v} {fr[v].values[:, i]}")
            continue
        fnm = STATIC.get(k, other)
        q = fnm[:-4].split("-")
        d = pd.read_csv(sd.get_file_path("power_ct_curve", fnm, check_raw=False))
        rec.close(fr[FV.D].values[:, i], float(q[2][1:].replace("d", ".")), "type-D", f"{k} diameter")
        rec.close(fr[FV.H].values[:, i], float(q[3][1:].replace("d", ".")), "type-H", f"{k} hub height")
        # files without reference density are not corrected
        f = (rho / 1.225) ** (1 / 3) if k != "Pct" else 1.0
        rec.close(fr[FV.P].values[:, i], interp(ws * f, d["ws"], d["P"]), "type-P", f"{k} power", rtol=1e-9, atol=1e-9)
        rec.close(fr[FV.CT].values[:, i], interp(ws, d["ws"], d["ct"]), "type-CT", f"{k} thrust", rtol=1e-9, atol=1e-9)
    # objects of fixed names
    TM, WF, PM = foxes.models.turbine_models, foxes.models.wake_frames, foxes.models.point_models
    for s, k, c in (
        ("turbine_models", "thrust2ct", TM.Thrust2Ct), ("turbine_models", "PMask", TM.PowerMask), ("turbine_models", "kTI_amb", TM.kTI),
        ("turbine_models", "yaw2yawm", TM.YAW2YAWM), ("turbine_models", "yawm2yaw", TM.YAWM2YAW), ("turbine_models", "hubh_data", TM.RotorCentreCalc),
        ("wake_frames", "timelines", WF.Timelines), ("wake_frames", "dyn_wakes", WF.DynamicWakes), ("wake_frames", "seq_dyn_wakes", WF.SeqDynamicWakes),
        ("point_models", "tke2ti", PM.TKE2TI), ("point_models", "ustar2ti", PM.Ustar2TI),
        ("farm_controllers", "basic_ctrl", foxes.models.farm_controllers.BasicFarmController), ("farm_models", "farm_PMask", foxes.models.farm_models.Turbine2FarmModel),
    ):
        rec.check(k in mb.sources[s] and type(mb.sources[s][k]) is c, "fixed-name", f"{s} {k}")
        rec.event("fixed-names")
    m = mb.farm_models["farm_PMask"]
    rec.check(m.turbine_model is mb.turbine_models["PMask"], "farm-model", "farm_PMask does not contain PMask")
    rec.nontrivial()


class Thing:
    def __init__(self, *args, **kwargs):
        self.args = args
        self.kw = kwargs
        self.initialized = False


def factory(spec, rng, rec):
    from foxes.utils import Factory, FDict

    for _ in range(8):
        nv = int(rng.integers(0, 4))
        vs = [f"v{j}" for j in range(nv)]
        seps = [str(q) for q in rng.permutation(["_b", "_hx", "-", "__", "_qq_"])]
        pre = str(rng.choice(["Mod", "a_", "X.y"]))
        suf = str(rng.choice(["", "", "_end", "_raw"]))
        t = pre + "".join(f"<{v}>" + (seps[j] if j < nv - 1 else "") for j, v in enumerate(vs)) + suf
        vals, opts, want, v2a = {}, {}, {}, {}
        for j, v in enumerate(vs):
            q = int(rng.integers(4))
            if q == 0:
                vals[v] = str(int(rng.integers(0, 999)))
                opts[v] = lambda x: int(x)
                want[v] = int(vals[v])
            elif q == 1:
                vals[v] = str(rng.choice(["red", "green", "g7"]))
                opts[v] = {"red": (1, 2), "green": None, "g7": "z"}
                want[v] = opts[v][vals[v]]
            elif q == 2:
                vals[v] = str(rng.choice(["3", "77"]))
                opts[v] = [3, 77]
                want[v] = int(vals[v])
            else:
                vals[v] = str(rng.choice(["t", "Text", "0"]))
                want[v] = vals[v]
            if rng.random() < 0.3:
                v2a[v] = f"arg_{v}"
        want = {v2a.get(k, k): x for k, x in want.items()}
        fix = dict(p=int(rng.integers(9))) if rng.random() < 0.6 else {}
        args = (3, "pos") if rng.random() < 0.4 else ()
        f = Factory(Thing, t, args=args, kwargs=fix, var2arg=v2a, **opts)
        name = pre + "".join(vals[v] + (seps[j] if j < nv - 1 else "") for j, v in enumerate(vs)) + suf
        rec.check(f.check_match(name), "factory-match", lambda: f"{t} does not match {name}")
        o = f.construct(name)
        rec.check(o.kw == {**want, **fix} and o.args == args, "factory-args", lambda: f"{t}: {name} gives {o.args}, {o.kw}, expected {args}, {({**want, **fix})}")
        ok, kw = f.check_match(name, ret_pars=True)
        rec.check(ok and kw == {**want, **fix}, "factory-pars", lambda: f"{t}: {name} gives {kw}")
        rec.check(f.get_examples(**{v: [vals[v]] for v in vs}) == [name], "factory-examples", lambda: f"{t}: {f.get_examples(**{v: [vals[v]] for v in vs})}")
        rec.check(f.variables == vs and f.name_prefix == (pre if True else "") and f.name_suffix == (suf if nv else pre + suf) or not nv, "factory-parts", lambda: f"{t}")
        rec.event("factory-template")
        bad = ["x" + name, name[1:], "other"]
        if suf:
            bad += [name + "x", name[: -len(suf)], name + "_z"]
        if nv == 0:
            bad += [name + "x"]
        if nv > 1:
            bad += [name.replace(seps[0], "", 1)]
        for b in bad:
            if b.startswith(pre) and b.count(pre) > 1:
                continue
            r1 = f.check_match(b)
            try:
                f.construct(b)
                r2 = True
            except Exception:
                r2 = False
            rec.check(not r1 and not r2, "factory-accepts", lambda: f"{t} accepts {b}: {r1}, {r2}")
            rec.event("factory-refused")

    # names are resolved in the same way for every order of the factories, fixed entries first
    F = [
        dict(name_template="m_<a>", a=lambda x: float(x)), dict(name_template="m_<a>_<b>", a=lambda x: float(x), b=lambda x: float(x)),
        dict(name_template="m_<a>_<b>_<c>", a=lambda x: float(x), b=lambda x: float(x), c=lambda x: float(x)),
        dict(name_template="m_x_<a>", a=lambda x: float(x), kwargs=dict(x=1)), dict(name_template="m_<a>_raw", a=lambda x: float(x), kwargs=dict(raw=1)),
    ]
    store = bool(rng.random() < 0.7)
    d = FDict(name="things", store_created=store)
    for j in rng.permutation(len(F)):
        d.add_factory(Thing, **F[int(j)])
    d["m_7"] = fixed = Thing(fixed=True)
    for n, w in [("m_1", dict(a=1.0)), ("m_1_2", dict(a=1.0, b=2.0)), ("m_1_2_3", dict(a=1.0, b=2.0, c=3.0)), ("m_x_5", dict(a=5.0, x=1)), ("m_4_raw", dict(a=4.0, raw=1))]:
        rec.check(n in d, "factory-order", n)
        o = d[n]
        rec.check(o.kw == w, "factory-order", lambda: f"{n}: {o.kw}, expected {w}")
        rec.check((d[n] is o) == store and (n in d.keys()) == store, "factory-store", f"{n}")
    rec.check(d["m_7"] is fixed and d.get_item("m_7") is fixed, "factory-fixed", "fixed entry")
    for n in ("m_", "n_1", "m_y", "m_1_2_3_x"):
        try:
            o = d[n]
            rec.violate("factory-unknown", f"{n} yields {o.kw}")
        except KeyError as e:
            rec.check(n in str(e), "factory-unknown", f"{e}")
    rec.nontrivial()


def run(spec, rec):
    rng = rng_of("C24run", spec["seed"])
    globals()[spec["kind"]](spec, rng, rec)
