"""C14: turbine models act on their turbines and states, in list order"""

import numpy as np
import pandas as pd

import foxes
from foxes.utils import uv2wd, wd2uv
import foxes.variables as FV
import foxes.constants as FC

from harness.core import rng_of
from harness.scen import Scenario, random_spec, engine_ctx
from checks.c13 import interp

PROPERTY = "C14"
RULE = (
    "farms whose turbines carry random subsets of turbine models with random selections of states, in "
    "different downwind orders and chunks; an independent simulator executes each turbine's list on the "
    "recorded rotor conditions; non-trivial when selections and downwind re-ordering both occur"
)
ASSUMES = [
    "Calculator functions write only to the selection they are given",
    "models that read results of other models are listed after them",
]
REQUIRED_EVENTS = [
    "model:set", "model:pmask", "model:table", "model:calc", "model:lut", "model:thrust", "model:hubh", "model:sector", "unset-values",
    "model:kti", "model:yaw", "selected-states", "derated", "boosted", "sector-outside-0-360", "sector-at-edge", "sector-active", "reordered",
    "moved-states", "kept-values", "table-two-outputs", "lut-default", "lut-unused-default",
]
POOL = ["set", "kti", "sector", "pmask", "table", "calc", "lut", "thrust", "set2", "hubh"]


def cases(tier, seed):
    n = 150 if tier == "quick" else 1800
    out = []
    for i in range(n):
        rng = rng_of(PROPERTY, seed, i)
        sp = random_spec(
            rng, int(rng.integers(1 << 31)), n_t=(1, 6), n_s=(4, 14),
            states=["timeseries", "table"], wakes=("Jensen", "Bastankhah2014"), tik=False,
            sup=["linear_amb", "quadratic_amb", "max_amb", "product"], pwakes=(None, "rotor_points"), grounds=False,
        )
        k = int(rng.integers(2, 6))
        first = POOL[i % len(POOL)]
        rest = [str(x) for x in rng.permutation([p for p in POOL if p != first])[:k]]
        models = [first] + rest
        models = [models[j] for j in rng.permutation(len(models))]
        sp.update(
            models=models,
            order=int(rng.integers(3)),
            sel_p=float(rng.choice([0.0, 0.4, 1.0])),
            has_p=float(rng.choice([0.6, 1.0])),
            yaw=[None, None, "yawm", "yaw"][rng.integers(0, 4)],
            cls=str(rng.choice(["Downwind", "Downwind", "Downwind", "Iterative"])),
            engine=["numpy", [None, 1, 3][rng.integers(0, 3)]],
        )
        if sp["cls"] == "Iterative":
            sp["n_t"] = min(sp["n_t"], 4)
        out.append(sp)
    for i in range(12 if tier == "quick" else 150):
        rng = rng_of(PROPERTY, seed, "move", i)
        sp = random_spec(
            rng, int(rng.integers(1 << 31)), n_t=(2, 6), n_s=(4, 9), states=["timeseries", "table", "mh"],
            frames=("rotor_wd", "rotor_wd", "yawed_k004"), tik=False,
        )
        sp["kind"] = "move"
        sp["vars"] = [["X", "Y", "D", "H"][k] for k in np.flatnonzero(rng.random(4) < 0.5)] or [["X", "D", "H", "Y"][i % 4]]
        sp["cls"] = str(rng.choice(["Downwind", "Downwind", "Iterative"]))
        sp["engine"] = ["numpy", [None, 1, 2, 3][rng.integers(0, 4)]]
        sp["pre"] = bool(rng.random() < 0.5)
        out.append(sp)
    for i in range(16 if tier == "quick" else 300):
        out.append(dict(kind="sector-edge", seed=seed, i=i))
    out.append(dict(kind="sector-stale", seed=seed, n_t=2, n_s=3, states="timeseries", layout="row", wakes=["Jensen_linear_k004"]))
    return out


def bilin(rows, cols, tab, r, c):
    i = np.clip(np.searchsorted(rows, r, side="right") - 1, 0, len(rows) - 2)
    j = np.clip(np.searchsorted(cols, c, side="right") - 1, 0, len(cols) - 2)
    a = (r - rows[i]) / (rows[i + 1] - rows[i])
    b = (c - cols[j]) / (cols[j + 1] - cols[j])
    return (
        tab[i, j] * (1 - a) * (1 - b) + tab[i + 1, j] * a * (1 - b) + tab[i, j + 1] * (1 - a) * b
        + tab[i + 1, j + 1] * a * b
    )


def dwd(a, b):
    d = np.mod(np.asarray(b) - np.asarray(a), 360)
    return np.where(d > 180, d - 360, d)


def derate(P, CT, P_new, prated, plim):
    """power mask by axial induction: cp = e 4 a (1-a)^2 with constant e"""
    a0 = 0.5 * (1 - np.sqrt(1 - CT))
    e = P / (4 * a0 * (1 - a0) ** 2)
    act = ~np.isnan(P_new) & (((P_new < prated) & (P > P_new)) | ((P_new > prated) & (P > prated - plim)))
    CT2 = CT.copy()
    bad = np.zeros(len(P), dtype=bool)
    for k in np.where(act)[0]:
        y = P_new[k] / e[k]
        # smallest positive solution of 4 a (1-a)^2 = y, which grows up to a = 1/3
        if not y < 16 / 27 * (1 - 1e-6):
            bad[k] = True
            continue
        lo, hi = 0.0, 1 / 3
        for _ in range(80):
            m = 0.5 * (lo + hi)
            if 4 * m * (1 - m) ** 2 < y:
                lo = m
            else:
                hi = m
        a = 0.5 * (lo + hi)
        CT2[k] = 4 * a * (1 - a)
    return np.where(act, P_new, P), CT2, act, bad


def myfunc(P, R, M, st_sel):
    out = M.copy()
    out[st_sel] = P[st_sel] + 3.0 * R[st_sel]
    return [out]


def run_stale(spec, rec):
    """a rule for a range of wind speeds that only the ambient flow fulfils"""
    scn = Scenario(spec)
    scn.wd[:] = scn.row_wd
    mb = scn.mbook()
    names = ["WT_000", "WT_001"]
    rules = pd.DataFrame(
        dict(tname=names, WD_min=0.0, WD_max=360.0, REWS_min=scn.ws.min() - 0.05, REWS_max=scn.ws.max() + 0.05, MYS=1.0)
    )
    scn.ws[:] = scn.ws[0]
    rules["REWS_min"], rules["REWS_max"] = scn.ws[0] - 0.05, scn.ws[0] + 0.05
    mb.turbine_models["rules"] = foxes.models.turbine_models.SectorManagement(
        rules, col_tnames="tname", range_vars=[FV.WD, FV.REWS], target_vars=["MYS"]
    )
    farm = scn.farm(mod=lambda i, k: dict(k, turbine_models=k["turbine_models"] + ["rules"]))
    with engine_ctx("numpy", 2, None, None):
        fr = scn.algo(farm=farm, mbook=mb).calc_farm()
    R = fr[FV.REWS].values
    inn = (R >= rules["REWS_min"][0]) & (R < rules["REWS_max"][0])
    rec.event("stale-candidates", int((~inn).sum()))
    rec.check(
        not np.any(fr["MYS"].values[~inn] == 1.0), "sector-stale",
        "sector rule for a range of REWS is active although the final REWS is outside of it",
    )
    rec.check(np.all(fr["MYS"].values[inn] == 1.0), "sector-rule", "sector rule not applied")


def run_edge(spec, rec):
    """sectors and ranges that start and end exactly at the values of states"""
    rng = rng_of(PROPERTY, spec["seed"], "edge", spec["i"])
    wd = np.arange(0.0, 360.0, 10.0)
    ws = np.array([5.0, 7.0, 9.0])
    S = np.stack(np.meshgrid(wd, ws, indexing="ij"), -1).reshape(-1, 2)
    S = S[rng.permutation(len(S))]
    n_t = int(rng.integers(2, 5))
    names = [f"T{i}" for i in range(n_t)]
    rows = []
    for i in rng.permutation(n_t):
        e = np.sort(rng.choice(np.arange(0, 360, 10), 4, replace=False)).astype(float)
        off = float(rng.choice([0, 0, 120, -90, 250]))
        mode = int(rng.integers(0, 5))
        sec = [(e[0], e[1]), (e[2], e[3])]  # disjoint
        if mode == 1:
            sec = [(e[1], e[2]), (e[3], e[0])]  # one across north
        elif mode == 2:
            sec = [(e[0], e[2]), (e[2], e[0])]  # all directions, in two adjacent sectors
        elif mode == 3:
            sec = [(0.0, 360.0)]
        elif mode == 4:
            sec = [(e[0] + off, e[1] + off), (e[2] + off, e[3] + off)]
        for k, (a, b) in enumerate(sec):
            v0 = float(rng.choice([0.0, 5.0, 7.0]))
            rows.append([names[i], a, b, v0, float(rng.choice([7.0, 9.0, 30.0]) if v0 < 7 else 9.0), 100.0 * (i + 1) + k])
    rows = [rows[i] for i in rng.permutation(len(rows))]
    df = pd.DataFrame(rows, columns=["tname", "WD_min", "WD_max", "AMB_REWS_min", "AMB_REWS_max", "MYS"])
    mb = foxes.ModelBook()
    TM = foxes.models.turbine_models
    mb.turbine_models["rules"] = TM.SectorManagement(
        df, col_tnames="tname", range_vars=[FV.WD, FV.AMB_REWS], target_vars=["MYS"]
    )
    mb.turbine_models["init"] = TM.SetFarmVars(pre_rotor=True)
    mb.turbine_models["init"].add_var("MYS", np.full((len(S), n_t), -1.0))
    farm = foxes.WindFarm()
    for i in range(n_t):
        farm.add_turbine(
            foxes.Turbine(xy=[900.0 * i, 77.0 * i * i], name=names[i], turbine_models=["NREL5MW", "init", "rules"]), verbosity=0
        )
    st = foxes.input.states.StatesTable(
        pd.DataFrame({FV.WS: S[:, 1], FV.WD: S[:, 0]}), output_vars=[FV.WS, FV.WD, FV.TI, FV.RHO],
        fixed_vars={FV.TI: 0.06, FV.RHO: 1.225},
    )
    with engine_ctx("numpy", 2, int(rng.choice([11, 40, 200])), None):
        fr = foxes.algorithms.Downwind(farm, st, ["Jensen_linear_k007"], mbook=mb, verbosity=0).calc_farm()
    WD, R = fr[FV.WD].values, fr[FV.AMB_REWS].values
    same = (WD == S[:, :1]) & (R == S[:, 1:])
    for u in (S[:, 1], np.ones(len(S))):  # directions that survive the conversion to wind vectors
        same &= (uv2wd(wd2uv(S[:, 0], u)) == S[:, 0])[:, None]
    exp = np.full(R.shape, -1.0)
    edge = 0
    for tn, a, b, v0, v1, my in rows:
        i = names.index(tn)
        w = S[:, 0]
        if b - a >= 360:
            d = np.ones(len(w), bool)
        else:
            d = np.mod(w - a, 360) < np.mod(b - a, 360)
        exp[d & (S[:, 1] >= v0) & (S[:, 1] < v1), i] = my
        edge += int(np.sum(same[:, i] & ((np.mod(w - b, 360) == 0) | (S[:, 1] == v1))))
    rec.event("sector-at-edge", edge)
    rec.nontrivial(edge > 0 and (exp > 0).any())
    rec.close(fr["MYS"].values, exp, "sector-edge", f"rules {rows}", rtol=0, atol=0, mask=same)


def run_move(spec, rec):
    """state-wise positions, diameters and hub heights against one calculation per state"""
    scn = Scenario(spec)
    rng = rng_of("move", spec["seed"])
    shape = (scn.n_s, scn.n_t)
    base = {
        FV.X: scn.xy[:, 0], FV.Y: scn.xy[:, 1],
        FV.D: np.array([scn.types[k]["D"] for k in scn.ttype]), FV.H: np.array([scn.types[k]["H"] for k in scn.ttype]),
    }
    full = {v: np.tile(np.asarray(b, dtype=float), (scn.n_s, 1)) for v, b in base.items()}
    m = foxes.models.turbine_models.SetFarmVars(pre_rotor=spec["pre"])
    for v in spec["vars"]:
        x = full[v] + (rng.uniform(-400, 400, shape) if v in (FV.X, FV.Y) else full[v] * rng.uniform(-0.2, 0.3, shape))
        if rng.random() < 0.5:  # entries that keep the value of the turbine
            x[rng.random(shape) < 0.3] = np.nan
            rec.event("kept-values")
        full[v] = np.where(np.isnan(x), full[v], x)
        m.add_var(v, x)
        rec.event("state-wise:" + v)
    pts = np.tile(scn.points(4)[None], (scn.n_s, 1, 1))

    def calc(sel, moved):
        mb = scn.mbook()
        if moved:
            mb.turbine_models["m_move"] = m

        def mod(i, kw):
            if moved:
                kw["turbine_models"] = ["m_move"] + kw["turbine_models"]
            else:
                kw.update(xy=[full[FV.X][sel[0], i], full[FV.Y][sel[0], i]], D=full[FV.D][sel[0], i], H=full[FV.H][sel[0], i])
            return kw

        over = dict(mod_cutin=dict(modify_ct=False, modify_P=False)) if spec["cls"] == "Iterative" else {}
        with engine_ctx("numpy", 2, spec["engine"][1] if moved else None, None):
            algo = scn.algo(spec["cls"], farm=scn.farm(mod=mod), mbook=mb, states=scn.states(sel=sel), **over)
            fr = algo.calc_farm()
            return fr, algo.calc_points(fr, pts[: len(sel)])

    fr, pr = calc(np.arange(scn.n_s), True)
    tol = 1e-8 if spec["cls"] == "Downwind" else 1e-4
    for v, x in full.items():
        rec.close(fr[v].values, x, "move|" + v, f"{v} set by SetFarmVars for {spec['vars']}", rtol=1e-12)
    wake = 0.0
    for s in range(scn.n_s):
        f1, p1 = calc(np.array([s]), False)
        rec.event("moved-states")
        for v in f1.data_vars:
            if v in (FV.WEIGHT, "order_ssel") or v not in fr or f1[v].dims[0] != FC.STATE:
                continue
            rec.close(fr[v].values[s], f1[v].values[0], f"move|{v}", f"{spec['vars']} state {s} {v}", rtol=tol, atol=tol)
        for v in p1.data_vars:
            if v in pr and v != FV.WEIGHT:
                rec.close(pr[v].values[s], p1[v].values[0], f"move|point-{v}", f"{spec['vars']} state {s} {v}", rtol=tol, atol=tol)
        wake = max(wake, float(np.max(np.abs(f1[FV.AMB_REWS].values - f1[FV.REWS].values))))
    rec.nontrivial(wake > 1e-3)
    rec.sample = dict(spec=spec)


def run(spec, rec):
    if spec.get("kind") == "sector-stale":
        return run_stale(spec, rec)
    if spec.get("kind") == "sector-edge":
        return run_edge(spec, rec)
    if spec.get("kind") == "move":
        return run_move(spec, rec)
    scn = Scenario(spec)
    rng = rng_of("c14", spec["seed"])
    n_s, n_t = scn.n_s, scn.n_t
    TM = foxes.models.turbine_models
    mb = scn.mbook()
    models = list(spec["models"])
    # models that need results of others
    if "set2" in models and "set" not in models:
        models.remove("set2")
    if "thrust" in models and "set" not in models:
        models.insert(0, "set")
    if ("pmask" in models or "sector" in models) and "set" not in models:
        models.insert(0, "set")
    if "pmask" in models and "sector" in models:  # inputs before use
        a, b = models.index("pmask"), models.index("sector")
        if a < b:
            models[a], models[b] = models[b], models[a]
    for a in ("set",):
        if a in models:
            models.remove(a)
            models.insert(0, a)
    if "hubh" in models and spec["cls"] == "Iterative":
        # all turbines are evaluated model by model: thrust has to be complete
        models.remove("hubh")
        models.append("hubh")
    # turbine type position: first among models that touch P, CT
    ipct = min([models.index(m) for m in models if m in ("pmask", "table", "calc", "thrust")], default=len(models))
    itype = int(rng.integers(0, ipct + 1))
    prated = np.array([scn.types[t]["curve"]["P"].max() for t in scn.ttype])

    # data
    d_maxP = prated[None] * rng.uniform(0.2, 1.15, (n_s, n_t))
    if "sector" not in models:  # see the known finding about sector rules
        d_maxP[rng.random((n_s, n_t)) < 0.3] = np.nan
    d_kti = rng.uniform(0.2, 0.5, (n_s, n_t))
    d_T = rng.uniform(5e3, 2e4, (n_s, n_t))
    d_my = rng.uniform(0, 1, (n_s, n_t))
    d_my2 = rng.uniform(5, 6, n_t)
    d_my2[rng.random(n_t) < 0.2] = np.nan
    uni = bool(rng.random() < 0.2)
    if uni:
        d_kti[:] = d_kti[0, 0]
    m = TM.SetFarmVars()
    m.add_var(FV.MAX_P, d_maxP)
    m.add_var(FV.KTI, float(d_kti[0, 0]) if uni else d_kti)
    m.add_var(FV.T, d_T)
    m.add_var("MYV", d_my)
    m.add_var("MYS", d_my)
    mb.turbine_models["m_set"] = m
    m = TM.SetFarmVars()
    m.add_var("MYV", d_my2)
    mb.turbine_models["m_set2"] = m
    kb = float(np.round(rng.uniform(0, 0.01), 4))
    kmode = ["book", "book_kb", "amb", "vars", "val"][rng.integers(0, 5)]
    if kmode == "vars" and "set" not in models:
        kmode = "book"
    kv = 0.3
    if kmode == "book":
        kname = "kTI_03"
        kb = 0.0
    elif kmode == "book_kb":
        kname = "kTI_03_0015"
        kb = 0.015
    elif kmode == "amb":
        kname = "kTI_amb_03_0015"
        kb = 0.015
    elif kmode == "vars":
        mb.turbine_models["m_kti"] = TM.kTI(kb=kb)
        kname = "m_kti"
    else:
        mb.turbine_models["m_kti"] = TM.kTI(kTI=kv, kb=kb, ti_val=0.07)
        kname = "m_kti"
    # sectors
    names = [f"WT_{i:03d}" for i in range(n_t)]
    rows = []
    for i in range(n_t):
        k = int(rng.integers(0, 3))
        e = np.sort(rng.uniform(0, 360, 2 * k)) if k else []
        off = rng.uniform(0, 360)
        if k and rng.random() < 0.15:
            k, e, off = 1, [0.0, 360.0], 0.0
        for q in range(k):
            a, b = e[2 * q] + off, e[2 * q + 1] + off
            if off:
                a, b = np.mod(a, 360), np.mod(b, 360)
                if (int(off * 100) % 2) and a > b:
                    a, b = (a - 360, b) if int(off * 10) % 2 else (a, b + 360)
                    rec.event("sector-outside-0-360")
            ws0 = float(rng.uniform(3, 8))
            rows.append([names[i], a, b, ws0, ws0 + float(rng.uniform(2, 10)), prated[i] * rng.uniform(0.2, 0.9), rng.uniform(10, 20)])
    if not rows:
        rows.append([names[0], 350.0, 200.0, 0.0, 30.0, prated[0] * 0.5, 11.0])
    rows = [rows[i] for i in rng.permutation(len(rows))]
    sec = pd.DataFrame(rows, columns=["tname", "WD_min", "WD_max", "v0", "v1", "maxP", "MYS"])
    secw = sec.copy()
    mb.turbine_models["m_sector"] = TM.SectorManagement(
        secw, col_tnames="tname", range_vars=[FV.WD, FV.REWS], target_vars=[FV.MAX_P, "MYS"],
        colmap={"REWS_min": "v0", "REWS_max": "v1", FV.MAX_P: "maxP"},
    )
    plim = float(rng.choice([100.0, 50.0]))
    mb.turbine_models["m_pmask"] = TM.PowerMask(P_lim=plim, var_ws_P=FV.REWS3)
    # tables
    tr, tc = np.array([0.0, 4.0, 8.0, 15.0, 40.0]), np.array([0.0, 0.05, 0.1, 3.0])
    tab = rng.uniform(0.8, 1.1, (5, 4))
    tab_ct = "table" in models and "pmask" not in models and bool(rng.random() < 0.6)
    if tab_ct:
        tab = np.minimum(tab, 1.0)
        rec.event("table-two-outputs")
    mb.turbine_models["m_table"] = TM.TableFactors(
        pd.DataFrame(tab, index=tr, columns=tc), row_var=FV.REWS, col_var=FV.TI, output_vars=[FV.P, FV.CT] if tab_ct else [FV.P]
    )
    mb.turbine_models["m_calc"] = TM.Calculator(in_vars=[FV.P, FV.REWS, "MYC"], out_vars=["MYC"], func=myfunc)
    lut = rng.uniform(0, 1, (5, 4))
    A, B = np.meshgrid(tr, tc, indexing="ij")
    dl = pd.DataFrame({"x": A.ravel(), "TI": B.ravel(), "MYQ": lut.ravel()})
    lin, vmap, lkw = [FV.REWS, FV.TI], {FV.REWS: "x"}, {}
    if rng.random() < 0.3:  # another column name of the output
        dl, vmap["MYQ"] = dl.rename(columns={"MYQ": "col q"}), "col q"
    if rng.random() < 0.4:  # an input that only has a default value
        dl = pd.concat([dl.assign(MYZ=z).assign(**{dl.columns[2]: dl.iloc[:, 2] * (1 + z)}) for z in (0.0, 1.0)])
        lin, lkw["MYZ"], lut = [lin[0], "MYZ", lin[1]], 0.25, lut * 1.25
        rec.event("lut-default", "lut" in models)
    if rng.random() < 0.4:  # a default value of a variable that is known
        lkw[FV.TI] = 0.055
        rec.event("lut-unused-default", "lut" in models)
    mb.turbine_models["m_lut"] = TM.LookupTable(
        dl.sample(frac=1, random_state=3), input_vars=lin, output_vars=["MYQ"], varmap=vmap, **lkw,
    )
    mb.turbine_models["m_thrust"] = TM.Thrust2Ct()
    book = dict(
        set="m_set", set2="m_set2", kti=kname, sector="m_sector", pmask="m_pmask", table="m_table", calc="m_calc",
        lut="m_lut", thrust="m_thrust", hubh="hubh_data",
    )
    yaw = spec["yaw"]
    d_yaw = rng.uniform(-25, 25, (n_s, n_t))
    if yaw == "yawm":
        m = TM.SetFarmVars(pre_rotor=True)
        m.add_var(FV.YAWM, d_yaw)
        mb.turbine_models["m_yawm"] = m
    elif yaw == "yaw":
        d_yaw = np.mod(scn.wd[:, None] + d_yaw, 360)
        m = TM.SetFarmVars()
        m.add_var(FV.YAW, d_yaw)
        mb.turbine_models["m_yaw"] = m

    # the farm
    farm = foxes.WindFarm()
    lists = []
    for i in range(n_t):
        L = []
        if yaw == "yawm":
            L += [("m_yawm", None), ("yawm2yaw", None)]
        elif yaw == "yaw":
            L += [("m_yaw", None), ("yaw2yawm", None)]
        for k, mn in enumerate(models):
            if k == itype:
                L.append(("type", None))
            always = mn == "set"
            if always or rng.random() < spec["has_p"]:
                s = None
                if not always and rng.random() < spec["sel_p"]:
                    s = rng.random(n_s) < 0.5
                L.append((mn, s))
        if itype == len(models):
            L.append(("type", None))
        lists.append(L)
        tn = scn.types[scn.ttype[i]]["name"]
        nm = [tn if a == "type" else book.get(a, a) for a, s in L]
        kw = {}
        if any(s is not None for a, s in L) or rng.random() < 0.3:
            kw["models_state_sel"] = [s for a, s in L]
        how = ["init", "add", "insert"][rng.integers(0, 3)]
        if how == "init":
            trb = foxes.Turbine(xy=scn.xy[i], turbine_models=nm, name=names[i], **kw)
        else:
            trb = foxes.Turbine(xy=scn.xy[i], name=names[i])
            for k in range(len(nm)):
                if how == "add":
                    trb.add_model(nm[k], states_sel=L[k][1])
                else:
                    trb.insert_model(0, nm[-1 - k], states_sel=L[-1 - k][1])
        farm.add_turbine(trb, verbosity=0)

    over = {}
    if spec["cls"] == "Iterative":
        over["mod_cutin"] = dict(modify_ct=False, modify_P=False)
    with engine_ctx("numpy", 2, spec["engine"][1], None):
        algo = scn.algo(spec["cls"], farm=farm, mbook=mb, **over)
        fr = algo.calc_farm()
        hub = None
        if "hubh" in models and yaw is None:
            xy = np.concatenate([fr[v].values[..., None] for v in (FV.X, FV.Y, FV.H)], axis=-1)
            hub = algo.calc_points(fr, xy)
    rec.check(sec.equals(secw[sec.columns]) and len(sec) == len(secw), "user-data", "the sector data frame of the user was changed")

    orders = {tuple(o) for o in fr[FV.ORDER].values.astype(int)}
    if any(o != tuple(range(n_t)) for o in orders):
        rec.event("reordered")

    used = {a for L in lists for a, s in L}
    for amb in ("", "AMB_"):
        for i in range(n_t):
            g = lambda v: fr[v].values[:, i].copy()
            R, R2, R3, TI = (g(amb + v) for v in (FV.REWS, FV.REWS2, FV.REWS3, FV.TI))
            WD, RHO, D = g(FV.WD if not amb else FV.AMB_WD), g(FV.RHO), g(FV.D)
            v = {}
            skip = {}
            t = scn.types[scn.ttype[i]]
            for a, s in lists[i]:
                sel = np.ones(n_s, dtype=bool) if s is None else s
                if s is not None:
                    rec.event("selected-states")
                rec.event("model:" + {"yawm2yaw": "yaw", "yaw2yawm": "yaw", "set2": "set"}.get(a, a))

                def put(k, x, sl=sel):
                    b = v.get(k, np.full(n_s, np.nan))
                    v[k] = np.where(sl, x, b)

                if a == "m_yawm":
                    put(FV.YAWM, d_yaw[:, i])
                elif a == "yawm2yaw":
                    put(FV.YAW, np.mod(WD + v[FV.YAWM], 360))
                elif a == "m_yaw":
                    put(FV.YAW, d_yaw[:, i])
                elif a == "yaw2yawm":
                    put(FV.YAWM, dwd(WD, v[FV.YAW]))
                elif a == "type":
                    f3 = f2 = 1.0
                    if FV.YAWM in v:
                        c = np.cos(np.deg2rad(v[FV.YAWM]))
                        f3, f2 = c ** (1.88 / 3), c**0.5
                    rc = (RHO / t["rho"]) ** (1 / 3)
                    put(FV.P, interp(R3 * rc * f3, t["curve"]["ws"], t["curve"]["P"]))
                    put(FV.CT, interp(R2 * f2, t["curve"]["ws"], t["curve"]["ct"]))
                elif a == "set":
                    for k, d in ((FV.MAX_P, d_maxP), (FV.KTI, d_kti), (FV.T, d_T), ("MYV", d_my), ("MYS", d_my)):
                        put(k, d[:, i], sel & ~np.isnan(d[:, i]))
                elif a == "set2":
                    put("MYV", d_my2[i], sel & ~np.isnan(d_my2[i]))
                elif a == "kti":
                    if kmode == "amb":
                        x = kv * g(FV.AMB_TI) + kb
                    elif kmode == "vars":
                        x = v[FV.KTI] * TI + kb
                    elif kmode == "val":
                        x = kv * 0.07 + kb
                    else:
                        x = kv * TI + kb
                    put(FV.K, x)
                elif a == "sector":
                    for _, r in sec[sec.tname == names[i]].iterrows():
                        lo, hi = r.WD_min, r.WD_max
                        if hi - lo < 360:
                            lo, hi = lo % 360, hi % 360
                        w = np.mod(WD, 360)
                        inn = (w >= lo) & (w < hi) if lo <= hi else (w >= lo) | (w < hi)
                        for x in (lo, hi):
                            skip["sec"] = skip.get("sec", False) | (np.abs(dwd(w, x)) < 1e-6)
                        for x in (r.v0, r.v1):
                            skip["sec"] = skip["sec"] | (np.abs(R - x) < 1e-6)
                        inn = inn & (R >= r.v0) & (R < r.v1) & sel
                        rec.event("sector-active", int(inn.sum()))
                        put(FV.MAX_P, r.maxP, inn)
                        put("MYS", r.MYS, inn)
                elif a == "pmask":
                    mp = v.get(FV.MAX_P, np.full(n_s, np.nan))
                    mp = np.where(sel, mp, np.nan)
                    for x in (mp, np.where(mp > prated[i], prated[i] - plim, np.nan)):
                        skip["pm"] = skip.get("pm", False) | (np.abs(v[FV.P] - x) < 1e-6)
                    P, CT, act, bad = derate(v[FV.P], v[FV.CT], mp, prated[i], plim)
                    if spec["models"] and "thrust" in [b for b, _ in lists[i][: [b for b, _ in lists[i]].index("pmask")]]:
                        # thrust was replaced before: induction and power are unrelated
                        pass
                    skip["pmct"] = skip.get("pmct", False) | bad
                    v[FV.P], v[FV.CT] = P, CT
                    rec.event("derated", int((act & (mp < prated[i])).sum()))
                    rec.event("boosted", int((act & (mp > prated[i])).sum()))
                elif a == "table":
                    fac = bilin(tr, tc, tab, R, TI)
                    put(FV.P, v[FV.P] * fac)
                    if tab_ct:
                        put(FV.CT, v[FV.CT] * fac)
                elif a == "calc":
                    put("MYC", v[FV.P] + 3 * R)
                elif a == "lut":
                    put("MYQ", bilin(tr, tc, lut, R, TI))
                elif a == "thrust":
                    put(FV.CT, 2 * v[FV.T] / (RHO * np.pi * (D / 2) ** 2 * R2**2))
                elif a == "hubh" and not amb and hub is not None:
                    for k in (FV.WS, FV.WD, FV.TI, FV.RHO):
                        if k in hub:
                            put(k + "_HH", hub[k].values[:, i])
            base = np.zeros(n_s, dtype=bool) | skip.get("sec", False) | skip.get("pm", False)
            for k, x in v.items():
                if amb and k not in (FV.P, FV.CT):
                    continue
                ok = ~base
                if k == FV.CT:
                    ok = ok & ~(np.zeros(n_s, dtype=bool) | skip.get("pmct", False))
                if k not in (FV.P, FV.CT):
                    un = ok & np.isnan(x)
                    if k in ("MYC", "MYQ") or k.endswith("_HH"):
                        y = fr[amb + k].values[:, i][un]
                        rec.check(np.isnan(y).all(), "unset", f"turbine {i}, list {[a for a, s in lists[i]]}: {k} has values {y} in states without the model")
                        rec.event("unset-values", int(un.sum()))
                    ok = ok & ~np.isnan(x)  # never assigned: the initial value
                tol = 1e-9
                if k in (FV.CT, FV.P) and "pmask" in used:
                    tol = 1e-6
                if k in (FV.YAW, FV.YAWM):
                    x = np.where(np.abs(dwd(x, fr[amb + k].values[:, i])) < 1e-9, fr[amb + k].values[:, i], x)
                if k.endswith("_HH"):
                    tol = 1e-7
                key = amb + k
                if k.endswith("_HH") and spec["cls"] == "Iterative" and ({"thrust", "pmask"} & used or tab_ct):
                    key = "hub-stale"  # models that change CT after the turbine type
                rec.close(fr[amb + k].values[:, i][ok], x[ok], key, f"turbine {i}, list {[a for a, s in lists[i]]}", rtol=tol, atol=tol)
    rec.nontrivial(any(s is not None for L in lists for a, s in L) and any(o != tuple(range(n_t)) for o in orders))
    rec.sample = dict(lists=[[a for a, s in L] for L in lists], P=fr[FV.P].values[:2].tolist())
