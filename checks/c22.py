"""C22: object life cycle: repeated use, failures, shared models, untouched inputs"""

import copy
import threading

import numpy as np
import pandas as pd

import foxes
import foxes.variables as FV
import foxes.constants as FC
from foxes.core import TurbineModel, PointDataModel

from harness.core import rng_of
from harness.scen import Scenario, engine_ctx, random_spec
from checks.c13 import make
from harness.cmp import compare, max_deficit

PROPERTY = "C22"
RULE = (
    "random histories over shared farm, states, model book and algorithms: repeated farm and point calculations, "
    "ambient runs, selections, output choices, finalisation, injected failures, new algorithms and engines, interrupted "
    "sequential runs; every result is compared with the result of freshly built objects; non-trivial with wakes and "
    "at least four operations"
)
ASSUMES = ["floating point differences stay below rtol 1e-8"]
TYPES = [None, None, "pct", "pct_csv", "pct2", "cpct", "cpct2", "wsrho2", "wsti2", "lookup", "tbl"]
OPS = [
    "farm", "farm", "farm-keep", "ambient-farm", "outputs", "points", "points", "points-sel", "points-isel",
    "ambient-points", "fault-farm", "fault-farm", "fault-points", "fault-init", "new-algo", "new-algo", "switch", "engine", "finalize",
    "calc-pars", "sequential", "seq-twice", "seq-fault", "interleave", "other-farm", "set-states",
]
REQUIRED_EVENTS = ["op:" + o for o in sorted(set(OPS))] + ["faults-fired", "inputs-unchanged", "shared-runs"]


class Armed(Exception):
    pass


class Interrupt(KeyboardInterrupt):
    pass


class Fault(TurbineModel):
    """turbine model that does nothing, or fails for one state when armed"""

    def __init__(self):
        super().__init__(pre_rotor=False)
        self.state = None
        self.init = False
        self.exc = Armed

    def output_farm_vars(self, algo):
        return []

    def load_data(self, algo, verbosity=0):
        if self.init:
            self.init = False
            raise Armed("load_data")
        return super().load_data(algo, verbosity)

    def calculate(self, algo, mdata, fdata, st_sel):
        if self.state is not None:
            i0 = getattr(algo, "counter", None)  # running sequence
            i0 = int(fdata.states_i0(counter=True)) if i0 is None else i0
            if i0 <= self.state < i0 + fdata.n_states:
                raise self.exc("calculate")
        return {}


class PFault(PointDataModel):
    def __init__(self):
        super().__init__()
        self.state = None
        self.exc = Armed

    def output_point_vars(self, algo):
        return []

    def calculate(self, algo, mdata, fdata, tdata):
        if self.state is not None:
            i0 = int(tdata.states_i0(counter=True))
            if i0 <= self.state < i0 + tdata.n_states:
                raise self.exc("calculate")
        return {}


def cases(tier, seed):
    n = 70 if tier == "quick" else 900
    out = []
    for i in range(n):
        rng = rng_of(PROPERTY, seed, i)
        sp = random_spec(
            rng, int(rng.integers(1 << 31)), n_t=(2, 5), n_s=(2, 8), states=["timeseries", "table", "mh", "field"],
            tik=False, rotors=("centre", "grid4", "level3"), frames=("rotor_wd", "rotor_wd", "yaw_own", "yawed_k004"),
        )
        sp["tm"] = int(rng.integers(0, 4))
        sp["extra"] = bool(rng.random() < 0.4)
        sp["kinds"] = [TYPES[int(k)] for k in rng.integers(0, len(TYPES), sp["n_types"])]
        sp["load_mode"] = str(rng.choice(["preload", "lazy", "fly"]))
        n_op = int(rng.integers(5, 10)) if tier == "quick" else int(rng.integers(5, 18))
        ops = [OPS[int(k)] for k in rng.integers(0, len(OPS), n_op)]
        ops[0] = OPS[i % len(OPS)]
        sp["ops"] = ops
        sp["cls"] = str(rng.choice(["Downwind", "Downwind", "Iterative"]))
        out.append(sp)
    for i in range(60 if tier == "quick" else 900):
        out.append(dict(kind="share", seed=seed, i=i))
    return out


# ------------------------------------------- one model book, different algorithms

S_WIND = ["Jensen_linear_k007", "Bastankhah2014_linear_k004", "TurbOParkIX_linear_k004_dx40", "TurbOParkIX_linear_k004_dx40",
          "Bastankhah2016_linear_k004", "TurbOPark_quadratic_k004"]
S_TI = ["CrespoHernandez_max_k004", "IECTI2019k_quadratic_k004", "CrespoHernandez_quadratic_k002", None]
S_FRAMES = ["tl", "dyn", "rotor_wd", "yawed_k004", "seq", "order", "stream"]
S_PARTIAL = [None, None, "centre", "rotor_points", "grid9", "axiwake5", "top_hat"]


def share_book():
    mb = foxes.ModelBook()
    mb.wake_frames["tl"] = foxes.models.wake_frames.Timelines(max_length_km=20)
    mb.wake_frames["dyn"] = foxes.models.wake_frames.DynamicWakes(max_age=6)
    mb.wake_frames["seq"] = foxes.models.wake_frames.SeqDynamicWakes()
    mb.wake_frames["order"] = foxes.models.wake_frames.FarmOrder()
    mb.wake_frames["stream"] = foxes.models.wake_frames.Streamlines2D(step=120)
    mb.turbine_models["my_post"] = foxes.models.turbine_models.Calculator(
        in_vars=[FV.P, FV.REWS], out_vars=["MYV"], func=lambda P, R, st_sel: [P / R]
    )
    return mb


def share_context(rng, frame):
    n_t, n_s = int(rng.integers(2, 5)), int(rng.integers(3, 9))
    c = dict(n_t=n_t, n_s=n_s, frame=frame)
    base = float(rng.uniform(0, 360))
    a = np.deg2rad(270 - base)
    xy = np.zeros((n_t, 2))
    for t in range(n_t):
        l, q = 420.0 * t + rng.uniform(-60, 60), rng.uniform(-60, 60)
        xy[t] = [l * np.cos(a) - q * np.sin(a), l * np.sin(a) + q * np.cos(a)]
    c["xy"] = xy
    c["wd"] = base + (rng.uniform(-3, 3, n_s) if frame in ("tl", "dyn", "seq") else rng.choice([0.0, 180.0], n_s) + rng.uniform(-5, 5, n_s))
    c["ws"] = rng.uniform(6, 11, n_s)
    c["ti"] = rng.uniform(0.04, 0.12, n_s)
    c["types"] = [str(rng.choice(["NREL5MW", "DTU10MW", "IEA15MW"])) for _ in range(n_t)]
    w = [str(rng.choice(S_WIND))]
    t = S_TI[int(rng.integers(0, len(S_TI)))]
    if frame in ("dyn", "seq") and w[0].startswith("TurbOParkIX"):  # no centreline points
        w[0] = "Jensen_linear_k007"
    if t is None and w[0].startswith("TurbOParkIX"):
        t = S_TI[0]
    w += [t] if t else []
    if frame in ("rotor_wd", "yawed_k004") and rng.random() < 0.3:
        w.append(str(rng.choice(["RHB", "Rathmann", "VortexSheet", "SelfSimilar"])))
    c["wakes"] = [w[i] for i in rng.permutation(len(w))]
    it = frame in ("tl", "dyn") or w[-1] in ("RHB", "Rathmann", "VortexSheet", "SelfSimilar")
    c["cls"] = "Sequential" if frame == "seq" else ("Iterative" if it or rng.random() < 0.2 else "Downwind")
    c["rotor"] = str(rng.choice(["centre", "grid9", "grid16", "level3"]))
    c["partial"] = S_PARTIAL[int(rng.integers(0, len(S_PARTIAL)))]
    if c["partial"] == "top_hat" and not w[0].startswith("Jensen"):
        c["partial"] = None
    if c["partial"] == "axiwake5" and len(w) > 1:
        c["partial"] = "centre"
    c["ground"] = "ground_mirror" if rng.random() < 0.3 else None
    c["pts"] = np.concatenate(
        [xy[rng.integers(0, n_t, 5)] + rng.uniform(-500, 500, (5, 2)), rng.uniform(60, 160, (5, 1))], axis=1
    )
    c["chunk"] = [None, 1, 2, 3][rng.integers(0, 4)] if c["cls"] != "Sequential" else None
    return c


def share_states(c):
    df = pd.DataFrame(
        {FV.WS: c["ws"], FV.WD: np.mod(c["wd"], 360), FV.TI: c["ti"]},
        index=pd.date_range("2024-01-01", periods=c["n_s"], freq="1min"),
    )
    df.index.name = "Time"
    return foxes.input.states.Timeseries(df, output_vars=[FV.WS, FV.WD, FV.TI, FV.RHO], fixed_vars={FV.RHO: 1.225})


def share_run(c, mb, states, clear):
    farm = foxes.WindFarm()
    for t in range(c["n_t"]):
        farm.add_turbine(
            foxes.Turbine(xy=c["xy"][t].copy(), name=f"T{t}", turbine_models=[c["types"][t], "my_post"]), verbosity=0
        )
    kw = {}
    if c["partial"]:
        kw["partial_wakes"] = c["partial"]
    if c["ground"]:
        kw["ground_models"] = c["ground"]
    if c["cls"] == "Iterative":
        kw["mod_cutin"] = dict(modify_ct=False, modify_P=False)
    e = "single" if c["cls"] == "Sequential" else "numpy"
    with engine_ctx(e, 2, c["chunk"], None):
        a = getattr(foxes.algorithms, c["cls"])(
            farm, states, list(c["wakes"]), rotor_model=c["rotor"], wake_frame=c["frame"], mbook=mb, verbosity=0, **kw
        )
        if c["cls"] == "Sequential":
            for _ in a:
                pass
            fr = a.farm_results
            if c.get("twice"):
                # the same algorithm starts again
                old = {v: fr[v].values.copy() for v in (FV.REWS, FV.TI, FV.P, FV.CT)}
                for _ in a:
                    pass
                fr = a.farm_results
                for v, x in old.items():
                    y = fr[v].values
                    assert y.shape == x.shape and np.allclose(y, x, rtol=1e-7, atol=1e-7), (
                        f"second run of the same Sequential algorithm, frame {c['frame']}: {v} differs by {np.abs(y - x).max()}"
                    )
        else:
            fr = a.calc_farm()
        p = None
        if c["cls"] != "Sequential":
            p = a.calc_points(fr, np.tile(c["pts"][None], (c["n_s"], 1, 1)))
        out = {v: fr[v].values.copy() for v in (FV.REWS, FV.TI, FV.P, FV.CT, "MYV")}
        if p is not None:
            out.update({"points " + v: p[v].values.copy() for v in (FV.WS, FV.TI)})
        if clear and a.initialized:
            a.finalize(clear_mem=True)
    return out


def run_share(spec, rec):
    rng = rng_of(PROPERTY, spec["seed"], "share", spec["i"])
    f0 = S_FRAMES[spec["i"] % len(S_FRAMES)]
    same = ["tl", "dyn"] if f0 in ("tl", "dyn") else [f0]
    C = []
    for k in range(int(rng.integers(2, 4))):
        f = f0 if rng.random() < 0.8 else str(rng.choice(S_FRAMES))
        C.append(share_context(rng, f))
        if k and rng.random() < 0.4:  # only the turbulence wake or the time series differs
            for q in ["xy", "n_t", "types", "wakes", "pts", "rotor", "partial", "ground"]:
                C[k][q] = C[0][q]
            if C[k]["cls"] == "Downwind" and C[0]["cls"] == "Iterative":
                C[k]["cls"] = "Iterative"
            if C[0]["cls"] == "Sequential" and C[k]["cls"] != "Sequential" and len(C[0]["wakes"]) > 2:
                C[k]["cls"] = "Iterative"
            ti = [i for i, w in enumerate(C[k]["wakes"]) if w in S_TI]
            if C[k]["frame"] in ("dyn", "seq"):
                C[k]["wakes"] = [w.replace("TurbOParkIX_linear_k004_dx40", "Jensen_linear_k007") for w in C[k]["wakes"]]
            if ti:
                C[k]["wakes"] = list(C[k]["wakes"])
                C[k]["wakes"][ti[0]] = str(rng.choice(S_TI[:3]))
    order = [0, 1] + [int(x) for x in rng.integers(0, len(C), int(rng.integers(1, 3)))]
    ref = [share_run(dict(c, twice=True), share_book(), share_states(c), False) for c in C]
    mb = share_book()
    S = [share_states(c) for c in C]
    hist = []
    for k in order:
        c = C[k]
        clear = bool(rng.random() < 0.5) or c["cls"] == "Sequential"  # sequential runs do not finalise
        st = S[k] if rng.random() < 0.5 else share_states(c)
        r = share_run(c, mb, st, clear)
        hist.append((k, c["cls"], c["frame"], c["wakes"], c["rotor"], c["partial"], c["ground"]))
        rec.event("shared-runs")
        for v in ref[k]:
            rec.close(r[v], ref[k][v], f"share|{c['frame']}|{v}", f"shared model book, history {hist}", rtol=1e-9, atol=1e-9)
    rec.nontrivial(len(set(order)) > 1 and any(np.ptp(x[FV.REWS]) > 1e-3 for x in ref))
    rec.sample = dict(spec=spec, history=hist)


class World:
    """one set of objects"""

    def __init__(self, scn, spec):
        self.scn, self.spec = scn, spec
        rng = rng_of("c22w", spec["seed"])
        mb = self.mb = scn.mbook()
        mb.turbine_models["fault"] = self.fault = Fault()
        mb.point_models["pfault"] = self.pfault = PFault()
        mb.wake_frames["yaw_own"] = foxes.models.wake_frames.YawedWakes()
        trng = rng_of("c22t", spec["seed"])
        kept = []
        for i, t in enumerate(scn.types):
            k = spec["kinds"][i]
            if k is not None:
                mb.turbine_types[t["name"]] = make(k, trng, i)[0]
                src = getattr(mb.turbine_types[t["name"]], "source", None)
                kept.append(src if isinstance(src, pd.DataFrame) else None)
        self.arrays = {}
        self.frames = [t["curve"] for t in scn.types] + [k for k in kept if k is not None]
        pre, post, self.sels = [], ["fault"], {}
        if spec["tm"] in (1, 3):
            a = self.arrays["yawm"] = rng.uniform(-20, 20, (scn.n_s, scn.n_t))
            m = foxes.models.turbine_models.SetFarmVars(pre_rotor=True)
            m.add_var(FV.YAWM, a)
            mb.turbine_models["set_yawm"] = m
            pre = ["set_yawm", "yawm2yaw"]
        if spec["tm"] >= 2:
            a = self.arrays["maxp"] = rng.uniform(500, 3000, (scn.n_s, scn.n_t))
            m = foxes.models.turbine_models.SetFarmVars(pre_rotor=False)
            m.add_var(FV.MAX_P, a)
            mb.turbine_models["set_mp"] = m
            mb.turbine_models["PMask"] = foxes.models.turbine_models.PowerMask(var_ws_P=FV.REWS)
            for i in range(scn.n_t):
                if rng.random() < 0.6:
                    self.sels[i] = rng.random(scn.n_s) < 0.5

        TM = foxes.models.turbine_models
        mid = []
        if spec["extra"]:
            tr, tc = np.array([0.0, 4.0, 8.0, 15.0, 40.0]), np.array([0.0, 0.05, 0.1, 3.0])
            tab = pd.DataFrame(rng.uniform(0.8, 1.1, (5, 4)), index=tr, columns=tc)
            mb.turbine_models["fac"] = TM.TableFactors(tab, row_var=FV.REWS, col_var=FV.TI, output_vars=[FV.P])
            A, B = np.meshgrid(tr, tc, indexing="ij")
            lut = pd.DataFrame({"x": A.ravel(), "TI": B.ravel(), "MYQ": rng.uniform(0, 1, 20)})
            mb.turbine_models["lut"] = TM.LookupTable(
                lut, input_vars=[FV.REWS, FV.TI], output_vars=["MYQ"], varmap={FV.REWS: "x"}
            )
            sec = pd.DataFrame(dict(tname=["WT_000", "WT_001"], WD_min=[20.0, 100.0], WD_max=[120.0, 330.0], MYS=[1.5, 2.5]))
            mb.turbine_models["sec"] = TM.SectorManagement(sec, col_tnames="tname", range_vars=[FV.WD], target_vars=["MYS"])
            mid = ["kTI_04", "sec", "fac", "lut", "hubh_data"]
            mid = [mid[k] for k in sorted(rng.permutation(5)[: int(rng.integers(1, 6))])]
            self.frames += [tab.reset_index(), lut, sec]

        def mod(i, kw):
            base = kw["turbine_models"] + mid
            kw["turbine_models"] = pre + base + (["set_mp", "PMask"] if i in self.sels else []) + post
            if i in self.sels:
                kw["models_state_sel"] = [None] * (len(pre) + len(base)) + [self.sels[i], self.sels[i], None]
            return kw

        self.farm = scn.farm(mod=mod)
        self.states = scn.states()
        self.snap = self.snapshot()

    def algo(self, cls, **over):
        if cls != "Downwind" and {"wsrho2", "wsti2", "lookup"} & set(self.spec["kinds"]):
            # these types do not support the modified cut-in range
            over["mod_cutin"] = dict(modify_ct=False, modify_P=False)
        return self.scn.algo(cls, farm=self.farm, states=self.states, mbook=self.mb, **over)

    def snapshot(self):
        """all inputs, in comparable form"""
        out = {}
        for i, t in enumerate(self.farm.turbines):
            out[f"turbine{i}"] = [
                t.name, t.index, np.array(t.xy).tolist(), t.H, t.D, list(t.models),
                [None if s is None else np.array(s).tolist() for s in t.mstates_sel],
            ]
        for k, a in self.arrays.items():
            out["array " + k] = a.tolist()
        for k, s in self.sels.items():
            out[f"selection {k}"] = s.tolist()
        for k, f in enumerate(self.frames):
            out[f"curve {k}"] = f.reset_index().to_json()
        src = getattr(self.states, "data_source", None)
        if isinstance(src, pd.DataFrame):
            out["states data"] = [list(map(str, src.columns)), src.index.name, src.to_json()]
        return out


def run(spec, rec):
    if spec.get("kind") == "share":
        return run_share(spec, rec)
    scn = Scenario(spec)
    rng = rng_of("c22", spec["seed"])
    W = World(scn, spec)
    pts = scn.points(9)
    p3 = np.tile(pts[None], (scn.n_s, 1, 1))
    refs = {}
    eng = None

    def ref(cls, over=()):
        """results of fresh objects, serial engine"""
        k = repr((cls, over))
        if k not in refs:
            if eng is not None:
                eng.__exit__(None, None, None)
            with engine_ctx("single"):
                w = World(Scenario(spec), spec)
                fr = w.algo(cls, **dict(over)).calc_farm()
                w = World(Scenario(spec), spec)
                pr = w.algo(cls, **dict(over)).calc_points(fr.copy(deep=True), p3.copy())
                w = World(Scenario(spec), spec)
                af = w.algo(cls, **dict(over)).calc_farm(ambient=True)
            refs[k] = (fr, pr, af)
            if eng is not None:
                eng.__enter__()
        return refs[k]

    OVER = [(), (), (("rotor_model", "grid9"),), (("wake_models", ["Jensen_quadratic_k004"]), ("partial_wakes", None))]
    fr0, pr0, af0 = ref(spec["cls"])
    rec.nontrivial(max_deficit(fr0) > 1e-3 and len(spec["ops"]) > 3)
    hist = []

    def engine():
        nonlocal eng
        if eng is not None:
            eng.__exit__(None, None, None)
        e = [("single",), ("numpy", 1, int(rng.integers(1, 5)), int(rng.integers(1, 6))), ("threads", 3, int(rng.integers(1, 4)), 4)][
            int(rng.integers(0, 3))
        ]
        eng = engine_ctx(*e)
        eng.__enter__()
        return e[0]

    e = engine()
    algos = [(W.algo(spec["cls"]), spec["cls"], ())]
    cur = 0
    kept = False
    used = False

    def unkeep():
        nonlocal kept
        if kept:
            algos[cur][0].finalize()
            kept = False

    try:
        for op in spec["ops"]:
            algo, cls, over = algos[cur]
            fr, pr, af = ref(cls, over)
            rec.event("op:" + op)
            hist.append(op)
            key = f"{op}|{cls}"
            what = f"{cls} {dict(over)} on engine {e} after {hist}"
            if op == "farm":
                compare(rec, algo.calc_farm(), fr, key, what)
                kept = False
            elif op == "farm-keep":
                compare(rec, algo.calc_farm(finalize=False), fr, key, what)
                kept = cls != "Iterative"
                if not kept:
                    unkeep()
                    algo.finalize()
            elif op == "ambient-farm":
                unkeep()
                g = algo.calc_farm(ambient=True)
                rec.check(not set(g.data_vars) & set(FV.var2amb), "ambient-vars", f"{list(g.data_vars)}")
                compare(rec, g, af, key, what)
            elif op == "outputs":
                unkeep()
                o = [FV.P, FV.AMB_REWS, FV.CT] if rng.random() < 0.5 else "default"
                o0 = copy.copy(o)
                g = algo.calc_farm(outputs=o)
                want = set(o0) if o0 != "default" else set(algo.DEFAULT_FARM_OUTPUTS)
                rec.check(o == o0, "input|outputs", "outputs list changed")
                have = {v for v in g.data_vars if v not in (FC.TNAME, FV.WEIGHT)}
                rec.check(have == want & set(fr.data_vars), "outputs", f"variables {sorted(have)} for outputs {o0}")
                compare(rec, g, fr[list(g.data_vars)], key, what)
            elif op in ("points", "points-sel", "points-isel"):
                f1 = fr.copy(deep=True)
                q = p3.copy()
                n = scn.n_s
                m = np.sort(rng.permutation(n)[: int(rng.integers(1, n + 1))])
                if op == "points":
                    g, h = algo.calc_points(f1, q), pr
                elif op == "points-isel":
                    h = pr.isel({FC.STATE: m})
                    g = algo.calc_points(f1, q[m], states_isel=m.tolist())
                else:
                    s = fr[FC.STATE].values[m]
                    h = pr.sel({FC.STATE: s})
                    g = algo.calc_points(f1, q[m], states_sel=s)
                kept = False
                compare(rec, g, h, key, what)
                rec.check(bool(f1.identical(fr)), "input|farm_results", f"{what}: farm results modified")
                rec.check(np.array_equal(q, p3), "input|points", f"{what}: points modified")
            elif op == "ambient-points":
                unkeep()
                none = rng.random() < 0.5
                g = algo.calc_points(None if none else fr.copy(deep=True), p3.copy(), ambient=True)
                rec.check(not set(g.data_vars) & set(FV.var2amb), "ambient-vars", f"{list(g.data_vars)}")
                for v in g.data_vars:
                    rec.close(g[v].values, pr[v].values, f"{v}|{key}", what, rtol=1e-8, atol=1e-8) if v != FV.WEIGHT else None
            elif op in ("fault-farm", "fault-points", "fault-init"):
                if op == "fault-init":
                    unkeep()
                    W.fault.init = True
                else:
                    (W.fault if op == "fault-farm" else W.pfault).state = int(rng.integers(0, scn.n_s))
                W.fault.exc = W.pfault.exc = Interrupt if e != "threads" and rng.random() < 0.3 else Armed
                fired = False
                try:
                    if op == "fault-points":
                        algo.calc_points(fr.copy(deep=True), p3.copy(), point_models=["pfault"])
                    else:
                        algo.calc_farm()
                except (Armed, Interrupt):
                    fired = True
                    rec.event("faults-fired")
                rec.check(fired, "fault|raised", f"{what}: the exception of a model was not raised")
                W.fault.state = W.pfault.state = None
                W.fault.init = False
                kept = False
                # the same objects again, or new ones that share the models
                u = rng.random()
                if u < 0.3:
                    c = str(rng.choice(["Downwind", "Iterative"]))
                    algos.append((W.algo(c), c, ()))
                    cur = len(algos) - 1
                    compare(rec, algos[cur][0].calc_farm(), ref(c)[0], f"{op}|new", what)
                elif u < 0.65:
                    compare(rec, algo.calc_farm(), fr, key, what)
                else:
                    compare(rec, algo.calc_points(fr.copy(deep=True), p3.copy()), pr, key, what)
            elif op == "new-algo":
                unkeep()
                c = str(rng.choice(["Downwind", "Iterative"]))
                o = OVER[int(rng.integers(0, len(OVER)))]
                algos.append((W.algo(c, **dict(o)), c, o))
                cur = len(algos) - 1
                compare(rec, algos[cur][0].calc_farm(), ref(c, o)[0], f"{op}|{c}", what)
            elif op == "switch":
                unkeep()
                cur = int(rng.integers(0, len(algos)))
                algo, cls, over = algos[cur]
                compare(rec, algo.calc_farm(), ref(cls, over)[0], f"{op}|{cls}", what)
            elif op == "interleave":
                unkeep()
                c = "Downwind" if cls == "Iterative" else "Iterative"
                B = W.algo(c)
                f1 = B.calc_farm()
                compare(rec, algo.calc_farm(), fr, key, what)
                compare(rec, f1, ref(c)[0], f"{op}|{c}", what)
                compare(rec, B.calc_points(f1, p3), ref(c)[1], f"{op}|points|{c}", what)
            elif op == "other-farm":
                # an algorithm for a different farm and states, with the same model book
                unkeep()
                n = int(rng.integers(1, scn.n_t + 1))
                f2 = foxes.WindFarm()
                for i in rng.permutation(scn.n_t)[:n]:
                    kw = scn.turbine_kwargs(int(i))
                    f2.add_turbine(foxes.Turbine(**kw), verbosity=0)
                order = rng.random() < 0.5
                B = scn.algo("Downwind", farm=f2, states=scn.states(), mbook=W.mb)
                if order:
                    f1 = algo.calc_farm()
                    f2r = B.calc_farm()
                else:
                    f2r = B.calc_farm()
                    f1 = algo.calc_farm()
                compare(rec, f1, fr, key, what)
                if eng is not None:
                    eng.__exit__(None, None, None)
                with engine_ctx("single"):
                    f3 = foxes.WindFarm()
                    for t in f2.turbines:
                        i = int(t.name[3:])
                        f3.add_turbine(foxes.Turbine(**scn.turbine_kwargs(i)), verbosity=0)
                    h = scn.algo("Downwind", farm=f3, states=scn.states(), mbook=World(Scenario(spec), spec).mb).calc_farm()
                eng.__enter__()
                compare(rec, f2r, h, key + "|other", what)
            elif op == "set-states":
                # the algorithm gets new states
                unkeep()
                c = str(rng.choice(["Downwind", "Iterative"]))
                scn2 = Scenario(dict(spec, states="timeseries", n_s=int(rng.integers(1, 9)), seed=spec["seed"] // 2 + 1))

                def simple():
                    f2 = foxes.WindFarm()
                    for i in range(scn.n_t):
                        kw = scn.turbine_kwargs(i)
                        f2.add_turbine(foxes.Turbine(xy=kw["xy"], turbine_models=[scn.types[scn.ttype[i]]["name"]]), verbosity=0)
                    return f2

                o = dict(mod_cutin=dict(modify_ct=False, modify_P=False)) if c == "Iterative" else {}
                B = scn.algo(c, farm=simple(), states=scn.states(), mbook=W.mb, **o)
                u = int(rng.integers(0, 3))
                if u:
                    f1 = B.calc_farm(finalize=bool(u == 1))
                    if u == 2 and rng.random() < 0.5:
                        B.calc_points(f1, p3, finalize=False)
                B.states = scn2.states()
                q = np.tile(p3[:1], (scn2.n_s, 1, 1))
                f2 = B.calc_farm()
                g2 = B.calc_points(f2, q)
                if eng is not None:
                    eng.__exit__(None, None, None)
                with engine_ctx("single"):
                    H = scn.algo(c, farm=simple(), states=scn2.states(), mbook=World(Scenario(spec), spec).mb, **o)
                    h = H.calc_farm()
                    hp = H.calc_points(h, q)
                eng.__enter__()
                compare(rec, f2, h, key + f"|{u}", what)
                compare(rec, g2, hp, key + f"|points{u}", what)
            elif op == "engine":
                unkeep()
                e = engine()
                compare(rec, algo.calc_farm(), fr, key, what)
            elif op == "finalize":
                algo.finalize(clear_mem=bool(rng.random() < 0.5))
                kept = False
            elif op == "calc-pars":
                unkeep()
                cp = {"basic_ctrl": {}, spec["rotor"]: {}}
                cp0 = copy.deepcopy(cp)
                compare(rec, algo.calc_farm(calc_parameters=cp), fr, key, what)
                rec.check(cp == cp0, "input|calc_parameters", f"calc_parameters changed to {cp}")
            elif op == "seq-fault":
                unkeep()
                S = W.algo("Sequential")
                f = ref("Iterative")[0]
                W.fault.state = int(rng.integers(0, scn.n_s))
                W.fault.exc = Armed
                seen = []
                for rep in range(2):
                    try:
                        for r in S:
                            seen.append(r)
                    except Armed:
                        rec.event("faults-fired")
                    W.fault.state = None
                rec.check(len(seen) == scn.n_s, "seq-count", f"{len(seen)} states for a resumed sequence of {scn.n_s}")
                for j, r in enumerate(seen[: scn.n_s]):
                    for v in (FV.REWS, FV.P, FV.CT, FV.WD):
                        rec.close(r[v].values[0], f[v].values[j], f"{v}|{op}", f"state {j}: {what}", rtol=1e-5, atol=1e-5)
                S.finalize()
                compare(rec, algo.calc_farm(), fr, key, what)
            elif op in ("sequential", "seq-twice"):
                unkeep()
                S = W.algo("Sequential")
                f = ref("Iterative")[0]
                k = int(rng.integers(0, scn.n_s)) if op == "sequential" else scn.n_s
                for rep in range(2 if op == "seq-twice" else 1):
                    j = 0
                    for r in S:
                        for v in (FV.REWS, FV.P, FV.CT, FV.WD):
                            rec.close(r[v].values[0], f[v].values[j], f"{v}|{op}", f"state {j}: {what}", rtol=1e-5, atol=1e-5)
                        j += 1
                        if j == k and op == "sequential":
                            break
                    if op == "seq-twice":
                        rec.check(j == scn.n_s, "seq-count", f"{j} states in iteration {rep}, expected {scn.n_s}")
                        for v in (FV.REWS, FV.P, FV.CT, FV.WD):
                            rec.close(S.farm_results[v].values, f[v].values, f"{v}|{op}|final", what, rtol=1e-5, atol=1e-5)
                S.finalize()
                compare(rec, algo.calc_farm(), fr, key, what)
        unkeep()
    finally:
        if eng is not None:
            eng.__exit__(None, None, None)
    s = W.snapshot()
    for k in W.snap:
        rec.check(s[k] == W.snap[k], "input|" + k.split()[0].rstrip("0123456789"), f"{k} was modified: {str(s[k])[:200]}, before {str(W.snap[k])[:200]}")
    rec.event("inputs-unchanged", len(s))
    rec.sig = [spec["seed"], hist]
    rec.sample = dict(ops=hist, cls=spec["cls"], max_deficit=max_deficit(fr0))
