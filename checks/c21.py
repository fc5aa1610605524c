"""C21: parameter files: dict, yaml and windio input against the Python interface"""

import contextlib
import copy
import io
import os
import sys
import types
import numpy as np
import pandas as pd
import xarray as xr
import yaml
import foxes
import foxes.variables as FV
import foxes.constants as FC
from pathlib import Path
from foxes.config import config
from foxes.input.yaml import read_dict, run_dict, run_outputs
from foxes.output import Output

from harness.core import rng_of
from harness.cmp import compare, max_deficit
from harness.scen import Scenario, random_spec, make_curve

PROPERTY = "C21"
RULE = (
    "random parameter dictionaries and yaml files (states, model book, layouts, algorithm, engine, calc, outputs, options that overrule) and "
    "random windio inputs against the same models built by Python constructors, with an interpreter for output programs; "
    "non-trivial when results with wakes, or at least five output calls, were compared"
)
ASSUMES = [
    "the windIO package is not installed: its yaml loader is replaced by a stand-in for the command line runs",
]
REQUIRED_EVENTS = [
    "dict-run", "dict-algo-type", "dict-engine", "dict-override", "dict-points", "dict-error-exit", "output-call", "output-label", "output-skip",
    "output-refused", "yaml-run", "yaml-option", "yaml-file", "yaml-other-dir", "windio-run", "windio-single", "windio-height",
    "windio-profile", "windio-cp", "windio-turbine-file", "windio-flow-file", "windio-cli", "engine-released",
]


def cases(tier, seed):
    q = tier == "quick"
    out = []

    def add(kind, n, **kw):
        for i in range(n):
            rng = rng_of(PROPERTY, seed, kind, i)
            out.append(dict(kind=kind, i=i, seed=int(rng.integers(1 << 31)), tier=tier, **kw))

    add("dict", 64 if q else 1200)
    add("fault", 12 if q else 150)
    add("outputs", 50 if q else 1200)
    add("yaml", 48 if q else 700)
    add("windio", 90 if q else 1500)
    add("wcli", 24 if q else 300)
    return out


def run(spec, rec):
    rng = rng_of("C21run", spec["seed"])
    foxes.reset_engine()
    saved = dict(config)
    cwd = os.getcwd()
    try:
        globals()["k_" + spec["kind"]](spec, rng, rec)
    finally:
        os.chdir(cwd)
        for k, v in saved.items():
            config[k] = v
        foxes.reset_engine()


def pick(rng, seq):
    return seq[int(rng.integers(len(seq)))]


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()):
        yield


# ------------------------------------------------------------ parameter dictionaries


class Input:
    """random input: the plain parameter data, and the same built in Python"""

    def __init__(self, rng, base=None, files=False):
        self.rng = rng
        self.base = Path(".") if base is None else Path(base)
        self.files = files  # plain data only, tables in files
        self.scn = Scenario(
            random_spec(rng, int(rng.integers(1 << 31)), (3, 5), (2, 6), states=("timeseries", "table"))
        )
        self.data = {}
        self.make = {}
        self.sig = []
        self.k_states()
        self.k_mbook()
        self.k_farm()
        self.k_algo()

    def note(self, *a):
        self.sig += [str(x) for x in a]

    def table(self, df, name, index=True):
        """a data source: data frame or file relative to the input directory"""
        if self.files or self.rng.random() < 0.3:
            df.to_csv(self.base / name, index=index)
            return name
        return df.copy()

    # --- sections
    def k_states(self):
        s, rng = self.scn, self.rng
        kind = pick(rng, ["Timeseries", "StatesTable", "SingleStateStates", "ScanStates"])
        self.note(kind)
        ST = foxes.input.states
        self.ov = [FV.WS, FV.WD, FV.TI, FV.RHO]
        if kind == "SingleStateStates":
            kw = dict(ws=float(s.ws[0]), wd=float(s.wd[0]), ti=float(s.ti[0]), rho=float(s.rho[0]))
            self.data["states"] = dict(kw, states_type=kind)
            self.make["states"] = lambda: ST.SingleStateStates(**kw)
        elif kind == "ScanStates":
            sc = {FV.WS: [float(x) for x in s.ws[:2]], FV.WD: [float(x) for x in s.wd[:2]]}
            fx = {FV.TI: [float(s.ti[0])], FV.RHO: [float(s.rho[0])]}
            self.data["states"] = dict(states_type=kind, scans=dict(sc, **fx))
            self.make["states"] = lambda: ST.ScanStates(scans=dict(sc, **fx))
        else:
            ind = pd.Index(s.time, name="Time") if kind == "Timeseries" else pd.Index(np.arange(s.n_s), name="state")
            df = pd.DataFrame(index=ind, data=dict(ws=s.ws, wd=s.wd, ti=s.ti))
            v2c = {FV.WS: "ws", FV.WD: "wd", FV.TI: "ti"}
            if kind == "StatesTable":
                df["w"] = s.weight
                v2c[FV.WEIGHT] = "w"
            fx = {FV.RHO: float(s.rho[0])}
            self.data["states"] = dict(
                states_type=kind, data_source=self.table(df, "states.csv"), output_vars=list(self.ov), var2col=dict(v2c), fixed_vars=dict(fx)
            )
            self.make["states"] = lambda: getattr(ST, kind)(df.copy(), output_vars=self.ov, var2col=v2c, fixed_vars=fx)

    def k_mbook(self):
        s, rng = self.scn, self.rng
        fm = foxes.models
        sec = {}
        types = s.types
        sec["turbine_types"] = []
        for t in types:
            d = dict(name=t["name"], ttype_type="PCtFile", rho=t["rho"])
            if rng.random() < 0.35:
                # nominal power, diameter and hub height from the file name
                f = f"{t['name']}-{t['curve']['P'].max() / 1000}MW-D{t['D']}-H{t['H']}".replace(".", "d") + ".csv"
                t["curve"].to_csv(self.base / f, index=False)
                d["data_source"] = f
            else:
                d.update(
                    data_source=self.table(t["curve"], f"{t['name']}.csv", index=False), D=t["D"], H=t["H"], P_nominal=float(t["curve"]["P"].max())
                )
            sec["turbine_types"].append(d)
        adds = []
        k = float(np.round(rng.uniform(0.02, 0.1), 4))
        g = pick(rng, ["ws_linear", "ws_quadratic", "ws_max"])
        which = int(rng.integers(0, 4))
        self.note("wm", which)
        self.wake = pick(rng, ["Jensen_quadratic_k007", "Bastankhah2014_linear_k004", "Bastankhah025_linear_k002"])
        if which in (1, 3):
            sec["wake_models"] = [dict(name="my_wake", wmodel_type="JensenWake", k=k, superposition=g)]
            adds.append(lambda mb: mb.wake_models.update(my_wake=fm.wake_models.wind.JensenWake(k=k, superposition=g)))
            self.wake = "my_wake"
        elif which == 2:
            sec["wake_models"] = [
                dict(name="my_wake", wmodel_type="Bastankhah2014", k=k, sbeta_factor=0.22, superposition=g),
                dict(name="my_ti", wmodel_type="CrespoHernandezTIWake", k=k, superposition="ti_quadratic"),
            ]
            adds.append(lambda mb: mb.wake_models.update(my_wake=fm.wake_models.wind.Bastankhah2014(k=k, sbeta_factor=0.22, superposition=g)))
            adds.append(lambda mb: mb.wake_models.update(my_ti=fm.wake_models.ti.CrespoHernandezTIWake(k=k, superposition="ti_quadratic")))
            self.wake = "my_wake"
        self.ti_wake = "my_ti" if which == 2 else None
        self.rotor = pick(rng, [None, "centre", "grid4", "level5"])
        if rng.random() < 0.3:
            sec["rotor_models"] = [dict(name="my_rotor", rmodel_type="GridRotor", n=3)]
            adds.append(lambda mb: mb.rotor_models.update(my_rotor=fm.rotor_models.GridRotor(n=3)))
            self.rotor = "my_rotor"
        self.tm = []
        if rng.random() < 0.4:
            sec["turbine_models"] = [dict(name="my_pmask", tmodel_type="PowerMask")]
            adds.append(lambda mb: mb.turbine_models.update(my_pmask=fm.turbine_models.PowerMask()))
        self.data["model_book"] = sec

        def make():
            mb = s.mbook()
            for a in adds:
                a(mb)
            return mb

        self.make["mbook"] = make

    def k_farm(self):
        s, rng = self.scn, self.rng
        tn = [t["name"] for t in s.types]
        lays, pos = [], []  # pos: (xy, models, name or None)
        n = int(rng.integers(1, 4))
        dmax = max(t["D"] for t in s.types)
        for j in range(n):
            t = pick(rng, tn)
            o = s.xy0 + np.array([0.0, 12.0 * dmax * j])
            k = pick(rng, ["row", "grid", "csv", "ring"] if j else ["row", "csv"])
            self.note(k)
            mods = [t]
            if k == "row":
                m = int(rng.integers(2, 5))
                st = [float(x) for x in np.round(rng.uniform(2.5, 5, 2) * dmax, 2)]
                b = [float(x) for x in np.round(o, 2)]
                lays.append(dict(function="add_row", xy_base=b, xy_step=st, n_turbines=m, turbine_models=mods))
                pos += [(np.array(b) + i * np.array(st), mods) for i in range(m)]
            elif k == "grid":
                b = [float(x) for x in np.round(o, 2)]
                sv = [[float(4 * dmax), 10.0], [-20.0, float(5 * dmax)]]
                n2 = [int(rng.integers(1, 4)), int(rng.integers(1, 3))]
                lays.append(dict(function="add_grid", xy_base=b, step_vectors=sv, steps=n2, turbine_models=mods))
                pos += [(np.array(b) + ix * np.array(sv[0]) + iy * np.array(sv[1]), mods) for ix in range(n2[0]) for iy in range(n2[1])]
            elif k == "ring":
                b = [float(x) for x in np.round(o, 2)]
                d, m, off = float(3.5 * dmax), int(rng.integers(3, 6)), float(np.round(rng.uniform(0, 90), 1))
                lays.append(dict(function="add_ring", xy_base=b, dist=d, n_turbines=m, offset_deg=off, turbine_models=mods))
                r = d / (2 * np.sin(np.pi / m))
                # only the set of positions is used, see below
                pos += [("ring", b, d, m, off, mods)]
            else:
                m = int(rng.integers(2, 5))
                xy = np.round(o + np.cumsum(rng.uniform(2.5, 4, (m, 2)) * dmax, axis=0), 3)
                df = pd.DataFrame(dict(xc=xy[:, 0], yc=xy[:, 1]))
                fn = pick(rng, ["add_from_csv", "add_from_file"])
                if fn == "add_from_file":
                    df.to_csv(self.base / f"lay{j}.csv")
                    lays.append(dict(function=fn, file_path=f"lay{j}.csv", col_x="xc", col_y="yc", turbine_models=mods))
                else:
                    lays.append(dict(function=fn, data_source=self.table(df, f"lay{j}.csv"), col_x="xc", col_y="yc", turbine_models=mods))
                pos += [(xy[i], mods) for i in range(m)]
        self.data["wind_farm"] = dict(layouts=lays)

        def make():
            farm = foxes.WindFarm()
            for p in pos:
                if isinstance(p[0], str):
                    _, b, d, m, off, mods = p
                    foxes.input.farm_layout.add_ring(farm, xy_base=np.array(b), dist=d, n_turbines=m, offset_deg=off, turbine_models=list(mods), verbosity=0)
                else:
                    farm.add_turbine(foxes.Turbine(xy=np.array(p[0], dtype=float), turbine_models=list(p[1])), verbosity=0)
            return farm

        self.make["farm"] = make

    def k_algo(self):
        rng = self.rng
        self.cls = pick(rng, ["Downwind", "Downwind", "Iterative"])
        kw = dict(wake_models=[self.wake] + ([self.ti_wake] if self.ti_wake else []))
        if self.rotor is not None:
            kw["rotor_model"] = self.rotor
        pw = pick(rng, [None, "centre", "rotor_points", "axiwake6"])
        if pw is not None:
            kw["partial_wakes"] = pw
        if rng.random() < 0.4:
            kw["wake_frame"] = "rotor_wd"
        if rng.random() < 0.25:
            kw["ground_models"] = "ground_mirror"
        if rng.random() < 0.3 and self.cls == "Downwind":
            kw["farm_controller"] = "basic_ctrl"
        self.note(self.cls, *sorted(f"{k}={v}" for k, v in kw.items() if k != "wake_models"))
        self.akw = kw
        self.data["algorithm"] = dict(
            {k: (list(v) if isinstance(v, list) else v) for k, v in kw.items()}, algo_type=self.cls, verbosity=0
        )

    def points(self, n):
        farm = self.make["farm"]()
        xy = np.array([t.xy for t in farm.turbines])
        rng = self.rng
        p = np.zeros((n, 3))
        p[:, :2] = xy[rng.integers(0, len(xy), n)] + rng.uniform(-500, 500, (n, 2))
        p[:, 2] = rng.uniform(30, 180, n)
        return np.round(p, 3)

    # --- reference
    def algo(self, cls=None, states=None, farm=None, mbook=None, **over):
        kw = dict(self.akw, **over)
        A = getattr(foxes.algorithms, self.cls if cls is None else cls)
        return A(
            farm=self.make["farm"]() if farm is None else farm,
            states=self.make["states"]() if states is None else states,
            mbook=self.make["mbook"]() if mbook is None else mbook,
            verbosity=0,
            **{k: (list(v) if isinstance(v, list) else v) for k, v in kw.items()},
        )

    def reference(self, points=None, calc={}, pcalc={}, run=True, **over):
        with foxes.Engine.new("single", verbosity=0):
            a = self.algo(**over)
            fr = a.calc_farm(**calc) if run else None
            pr = a.calc_points(fr, points, **pcalc) if points is not None else None
        return fr, pr


def as3(points, n_s):
    return np.repeat(np.asarray(points)[None], n_s, axis=0)


def engine_section(rng):
    e = pick(rng, ["single", "numpy", "threads", "default", "process"])
    d = dict(engine_type=e, verbosity=0)
    if e != "single":
        d.update(n_procs=2, chunk_size_states=int(rng.integers(1, 5)), chunk_size_points=int(rng.integers(5, 40)))
    return d


def released(rec, what):
    rec.event("engine-released")
    rec.check(not foxes.core.has_engine(), "engine-left|" + what, f"{what}: an engine is still set after the run that created it")


def same_results(rec, fr, pr, rf, rp, key, what):
    rec.check((fr is None) == (rf is None), "farm-none|" + key, f"{what}: farm results {type(fr)} instead of {type(rf)}")
    if fr is not None and rf is not None:
        compare(rec, fr, rf, key, what + ", farm results")
        rec.check(np.array_equal(fr[FC.STATE].values, rf[FC.STATE].values), "states|" + key, f"{what}: state labels differ")
    if rp is not None and pr is not None:
        compare(rec, pr, rp, key, what + ", point results")
    rec.check((pr is None) == (rp is None), "points-none|" + key, f"{what}: point results {type(pr)} instead of {type(rp)}")


def k_dict(spec, rng, rec):
    inp = Input(rng)
    data = inp.data
    over, ref_over, args = {}, {}, {}
    what = "run_dict"

    # the engine section, or engine parameters, or an engine that is running
    emode = pick(rng, ["section", "section", "pars", "outer", "none"])
    if emode == "section":
        data["engine"] = engine_section(rng)
    elif emode == "pars":
        if rng.random() < 0.5:
            data["engine"] = dict(engine_type="doesnotexist")
        args["engine_pars"] = engine_section(rng)
        rec.event("dict-override")
    rec.event("dict-engine")

    # things that overrule the dictionary
    if rng.random() < 0.6:
        for k in ("farm", "states", "mbook"):
            if rng.random() < 0.25:
                args[k] = inp.make[k]()
                if rng.random() < 0.5:
                    data.pop({"farm": "wind_farm", "mbook": "model_book"}.get(k, k))
                rec.event("dict-override")
        if rng.random() < 0.25:
            args["iterative"] = bool(rng.random() < 0.7)
            if args["iterative"]:
                ref_over["cls"] = "Iterative"
            rec.event("dict-override")
        if rng.random() < 0.3:
            o = pick(rng, [dict(rotor_model="grid9"), dict(wake_models=["Jensen_linear_k007"]), dict(partial_wakes="centre", wake_frame=None)])
            args.update(o)
            ref_over.update({k: v for k, v in o.items() if v is not None})
            rec.event("dict-override")
    if not len([k for k in args if k != "engine_pars"]) and rng.random() < 0.15:
        args = {k: v for k, v in args.items() if k == "engine_pars"}
        args["algo"] = inp.algo()
        rec.event("dict-override")
    args["verbosity"] = pick(rng, [None, 0, 0, 1, 2])
    if args["verbosity"] is None and rng.random() < 0.5:
        args.pop("verbosity")

    calc = {}
    if rng.random() < 0.4:
        calc = pick(rng, [dict(ambient=True), dict(outputs=[FV.REWS, FV.AMB_REWS, FV.P, FV.H, FV.X, FV.Y, FV.D, FV.WEIGHT]), dict(finalize=False)])
        data["calc_farm"] = dict(calc)
        if rng.random() < 0.5:
            data["calc_farm"]["run"] = True
    amb = calc.get("ambient", False)
    points, pcalc = None, {}
    n_s = {"SingleStateStates": 1, "ScanStates": 4}.get(data.get("states", {}).get("states_type", inp.sig[0]), inp.scn.n_s)
    if inp.sig[0] in ("SingleStateStates", "ScanStates"):
        n_s = {"SingleStateStates": 1, "ScanStates": 4}[inp.sig[0]]
    has_pts = rng.random() < 0.5 and "outputs" not in calc
    if has_pts:
        p = inp.points(int(rng.integers(2, 12)))
        points = p
        pc = dict()
        form = pick(rng, ["list", "array", "csv", "csv"])
        if form == "csv":
            pd.DataFrame(p, columns=["x", "y", "h"]).to_csv("pts.csv", index=False)
            pc["points"] = pick(rng, ["pts.csv", str(Path("pts.csv").absolute())])
        else:
            pc["points"] = p.tolist() if form == "list" else p.copy()
        if amb:
            pcalc["ambient"] = True
        if rng.random() < 0.3:
            pcalc["outputs"] = [FV.WS, FV.AMB_WS, FV.TI] if not amb else [FV.AMB_WS]
        pc.update(pcalc)
        if rng.random() < 0.6:
            pc["run"] = True
        data["calc_points"] = pc
        rec.event("dict-points")
    elif rng.random() < 0.2:
        data["calc_points"] = dict(run=False, points=[[0.0, 0.0, 100.0]])
    no_farm = not has_pts and rng.random() < 0.2
    if no_farm:
        data["calc_farm"] = dict(run=False)

    rf, rp = inp.reference(None if points is None else p_shape(points, inp), calc, pcalc, run=not no_farm, **ref_over)

    again = copy.deepcopy({k: v for k, v in data.items()})
    nested = data if rng.random() < 0.5 else foxes.utils.Dict(data, name="input")
    if not isinstance(nested, foxes.utils.Dict):
        nested = foxes.utils.Dict(nested, name="inp")
    with quiet():
        if emode == "outer":
            with foxes.Engine.new("single", verbosity=0) as e0:
                out = run_dict(nested, **args)
                rec.check(
                    foxes.core.has_engine() and foxes.get_engine() is e0, "outer-engine", "run_dict without engine section changed the running engine"
                )
        else:
            out = run_dict(nested, **args)
    rec.event("dict-run")
    if emode in ("section", "pars", "outer"):
        released(rec, "run_dict")
    # the algorithm that is created from the same input
    if "algo" not in args:
        d2 = {k: v for k, v in again.items() if k not in ("engine", "calc_farm", "calc_points")}
        a2, e2 = read_dict(foxes.utils.Dict(d2, name="inp"), verbosity=0, **{k: v for k, v in args.items() if k not in ("verbosity", "engine_pars")})
        want = ref_over.get("cls", inp.cls)
        rec.check(type(a2).__name__ == want, "algo-type", f"algorithm {type(a2).__name__} instead of {want}, iterative={args.get('iterative')}")
        rec.check(e2 is None, "algo-engine", "engine without engine section")
        rec.event("dict-algo-type")
    n = 3 if "calc_points" in data else 2
    rec.check(len(out) == n, "tuple-length", f"run_dict returned {len(out)} results instead of {n}")
    fr, pr = out[0], out[1] if n == 3 else None
    rec.check(isinstance(out[-1], list) and len(out[-1]) == 0, "outputs-empty", f"run_dict without outputs: outputs are {out[-1]!r}")
    same_results(rec, fr, pr, rf, rp, "dict", what)
    if fr is not None and not amb and max_deficit(fr) > 1e-3:
        rec.nontrivial()
    rec.sample = dict(sig=inp.sig, args=sorted(args), emode=emode)
    rec.sig = inp.sig + sorted(args) + [emode]


def p_shape(points, inp):
    """calc_points wants (n_states, n_points, 3)"""
    return points


def k_fault(spec, rng, rec):
    """an engine started for a run is released also when the run fails"""
    inp = Input(rng)
    data = inp.data
    data["engine"] = engine_section(rng)
    mode = ["function", "label", "class", "layout", "calc", "points"][spec["i"] % 6]
    if mode == "function":
        data["outputs"] = [dict(output_type="FarmResultsEval", functions=[dict(function="no_such_function")])]
    elif mode == "label":
        data["outputs"] = [dict(output_type="FarmResultsEval", functions=[dict(function="reduce_states", vars_op="$unknown")])]
    elif mode == "class":
        data["outputs"] = [dict(output_type="NoSuchOutputClass", functions=[])]
    elif mode == "layout":
        data["algorithm"]["wake_models"] = ["no_such_wake"]
    elif mode == "calc":
        data["calc_farm"] = dict(no_such_option=1, calc_parameters=3)
    else:
        data["calc_points"] = dict(points="no_such_file.csv", run=True)
    err = None
    with quiet():
        try:
            run_dict(foxes.utils.Dict(data, name="inp"), verbosity=0)
        except Exception as e:
            err = e
    rec.check(err is not None, "no-error|" + mode, f"run_dict with a mistake in the input ({mode}) did not fail")
    rec.event("dict-error-exit")
    released(rec, "failed run_dict")
    # the next run is not affected
    foxes_ok = Input(rng)
    foxes_ok.data["engine"] = dict(engine_type="single", verbosity=0)
    rf, rp = (None, None)
    with quiet():
        fr = run_dict(foxes.utils.Dict(foxes_ok.data, name="inp"), verbosity=0)[0]
    rf, _ = foxes_ok.reference()
    same_results(rec, fr, None, rf, None, "after-fault", "run_dict after a failed run")
    if max_deficit(fr) > 1e-3:
        rec.nontrivial()
    rec.sig = ["fault", mode] + foxes_ok.sig


# ------------------------------------------------------------ output programs

LOG = []


def _log(*a):
    LOG.append(a)


class _VThing:
    def __init__(self, tag):
        self.tag = tag

    def hello(self, x=None):
        _log("hello", self.tag, x)
        return ("hello", self.tag)

    def child(self, tag):
        _log("child", self.tag, tag)
        return _VThing(f"{self.tag}/{tag}")

    def join(self, *xs, sep="-"):
        _log("join", self.tag, xs, sep)
        return sep.join(str(x) for x in xs)


class _VBase:
    def ident(self, value):
        _log("ident", self.tag, value)
        return value

    def pair(self, a, b=None):
        _log("pair", self.tag, a, b)
        return (a, b)

    def arr(self, n, m):
        _log("arr", self.tag, n, m)
        return np.arange(n * m).reshape(n, m) * 10

    def thing(self, tag):
        _log("thing", self.tag, tag)
        return _VThing(tag)

    def things(self, n):
        _log("things", self.tag, n)
        a = np.empty((n, 2), dtype=object)
        for i in range(n):
            for j in range(2):
                a[i, j] = _VThing(f"t{i}{j}")
        return a

    def ctx(self, farm, algo, x=0):
        _log("ctx", self.tag, farm, algo, x)
        return x

    def pos(self, *args, last=None):
        _log("pos", self.tag, args, last)
        return len(args)


class VOutPlain(_VBase, Output):
    def __init__(self, tag, **kwargs):
        super().__init__(**kwargs)
        self.tag = tag
        _log("new", "VOutPlain", tag)


class VOutFarm(_VBase, Output):
    def __init__(self, farm_results, tag="f", **kwargs):
        super().__init__(**kwargs)
        self.tag = tag
        _log("new", "VOutFarm", tag, farm_results)


class VOutPoint(_VBase, Output):
    def __init__(self, point_results, tag="p", extra=None, **kwargs):
        super().__init__(**kwargs)
        self.tag = tag
        _log("new", "VOutPoint", tag, point_results, extra)


class VOutAll(_VBase, Output):
    def __init__(self, algo, farm, farm_results, point_results, tag="a", **kwargs):
        super().__init__(**kwargs)
        self.tag = tag
        _log("new", "VOutAll", tag, algo, farm, farm_results, point_results)


def show(x):
    """comparable form of logged values, objects by identity"""
    if isinstance(x, np.ndarray) and x.dtype != object:
        return ("arr", x.shape, x.tolist())
    if isinstance(x, np.generic):
        return x.item()
    if isinstance(x, np.ndarray):
        return ("oarr", x.shape, tuple(show(y) for y in x.flat))
    if isinstance(x, _VThing):
        return ("thing", x.tag)
    if isinstance(x, (list, tuple)):
        return (type(x).__name__,) + tuple(show(y) for y in x)
    if isinstance(x, (str, int, float, bool, type(None))):
        return x
    if isinstance(x, dict):
        return tuple(sorted((k, show(v)) for k, v in x.items()))
    return ("id", id(x))


class _Farm:
    pass


class _Algo:
    def __init__(self):
        self.farm = _Farm()
        self.verbosity = 0


class Program:
    """random output program and its expected log and results"""

    def __init__(self, rng, fr, pr, algo, extra):
        self.rng, self.fr, self.pr, self.algo, self.extra = rng, fr, pr, algo, extra
        self.env = {}
        self.log, self.res, self.dict = [], [], []
        self.n = 0
        self.labels = 0
        self.skips = 0
        for _ in range(int(rng.integers(2, 6))):
            self.block()

    def value(self):
        """(what is written, what it stands for)"""
        rng = self.rng
        if len(self.env) and rng.random() < 0.5:
            k = pick(rng, sorted(self.env))
            v = self.env[k]
            if isinstance(v, np.ndarray) and v.ndim == 2 and rng.random() < 0.7:
                i, j = int(rng.integers(v.shape[0])), int(rng.integers(v.shape[1]))
                if v.dtype != object and rng.random() < 0.3:
                    return f"{k}[{i}]", v[i]
                return pick(rng, [f"{k}[{i}, {j}]", f"{k}[{i},{j}]", f"{k}[{i - v.shape[0]},{j}]"]), v[i, j]
            return k, v
        v = pick(rng, [1, 2.5, True, None, "text", "", "a$b", [1, 2], ["x", "y"], 0, "-", dict(a=1)])
        return v, v

    def label(self, tup):
        """result label entry for a function that returns a tuple or one value"""
        rng = self.rng
        if rng.random() < 0.5:
            return None
        self.labels += 1
        k = f"$v{len(self.env)}" if rng.random() < 0.7 or not self.env else pick(rng, sorted(self.env))
        if tup and rng.random() < 0.7:
            k2 = pick(rng, ["none", "", "_", f"$w{len(self.env)}"])
            return [k, k2]
        return k

    def call(self, tag, methods):
        rng = self.rng
        m = pick(rng, methods)
        d = dict(function=m)
        tup = False
        if m == "ident":
            w, v = self.value()
            d["value"] = w
            self.log.append(("ident", tag, v))
            r = v
        elif m == "pair":
            w, v = self.value()
            d["a"] = w
            v2 = None
            if rng.random() < 0.5:
                w2, v2 = self.value()
                d["b"] = w2
            self.log.append(("pair", tag, v, v2))
            r = (v, v2)
            tup = True
        elif m == "arr":
            n, k = int(rng.integers(1, 4)), int(rng.integers(1, 4))
            if rng.random() < 0.5:
                d.update(args=[n, k])
            else:
                d.update(n=n, m=k)
            self.log.append(("arr", tag, n, k))
            r = np.arange(n * k).reshape(n, k) * 10
        elif m == "thing":
            t = f"th{self.n}"
            d["tag"] = t
            self.log.append(("thing", tag, t))
            r = _VThing(t)
        elif m == "things":
            n = int(rng.integers(1, 3))
            d["n"] = n
            self.log.append(("things", tag, n))
            r = np.empty((n, 2), dtype=object)
            for i in range(n):
                for j in range(2):
                    r[i, j] = _VThing(f"t{i}{j}")
        elif m == "ctx":
            w, v = self.value()
            d["x"] = w
            self.log.append(("ctx", tag, self.algo.farm, self.algo, v))
            r = v
        elif m == "pos":
            a = [int(x) for x in rng.integers(0, 9, int(rng.integers(0, 4)))]
            if a or rng.random() < 0.5:
                d["args"] = list(a)
            v = None
            if rng.random() < 0.5:
                w, v = self.value()
                d["last"] = w
            self.log.append(("pos", tag, tuple(a), v))
            r = len(a)
        elif m == "hello":
            w, v = self.value()
            d["x"] = w
            self.log.append(("hello", tag, v))
            r = ("hello", tag)
            tup = True
        elif m == "child":
            d["tag"] = f"c{self.n}"
            self.log.append(("child", tag, d["tag"]))
            r = _VThing(f"{tag}/{d['tag']}")
        else:  # join
            a = [pick(rng, ["p", 1, "q"]) for _ in range(int(rng.integers(1, 4)))]
            d.update(args=list(a), sep="+")
            self.log.append(("join", tag, tuple(a), "+"))
            r = "+".join(str(x) for x in a)
        self.n += 1
        lb = self.label(tup)
        if lb is not None:
            d["result_labels"] = lb
            if isinstance(lb, list):
                for k, x in zip(lb, r):
                    if k.startswith("$"):
                        self.env[k] = x
            else:
                self.env[lb] = r
        return d, r

    def block(self):
        rng = self.rng
        things = [k for k in sorted(self.env) if isinstance(self.env[k], _VThing)]
        arrs = [k for k in sorted(self.env) if isinstance(self.env[k], np.ndarray) and self.env[k].dtype == object]
        if (things or arrs) and rng.random() < 0.45:
            if arrs and (not things or rng.random() < 0.5):
                k = pick(rng, arrs)
                v = self.env[k]
                i, j = int(rng.integers(v.shape[0])), int(rng.integers(2))
                o, obj = f"{k}[{i},{j}]", v[i, j]
            else:
                o = pick(rng, things)
                obj = self.env[o]
            d = dict(object=o)
            methods = ["hello", "child", "join"]
            tag = obj.tag
        else:
            c = pick(rng, ["VOutPlain", "VOutFarm", "VOutPoint", "VOutAll"])
            tag = f"o{len(self.dict)}"
            d = dict(output_type=c, tag=tag)
            if c in ("VOutFarm", "VOutAll") and self.fr is None:
                self.skips += 1
                d["functions"] = [dict(function="ident", value=1)]
                self.dict.append(d)
                self.res.append(None)
                return
            if c == "VOutPlain":
                self.log.append(("new", c, tag))
            elif c == "VOutFarm":
                self.log.append(("new", c, tag, self.fr))
            elif c == "VOutPoint":
                self.log.append(("new", c, tag, self.pr, self.extra.get("extra")))
            else:
                self.log.append(("new", c, tag, self.algo, self.algo.farm, self.fr, self.pr))
            methods = ["ident", "pair", "arr", "thing", "things", "ctx", "pos"]
        fl, rl = [], []
        for _ in range(int(rng.integers(1, 5))):
            a, r = self.call(tag, methods)
            fl.append(a)
            rl.append(r)
        d["functions"] = fl
        self.dict.append(d)
        self.res.append(rl)


def k_outputs(spec, rng, rec):
    fr = None if rng.random() < 0.2 else object()
    pr = None if rng.random() < 0.4 else object()
    algo = _Algo()
    extra = dict(extra="E") if rng.random() < 0.4 else {}
    prog = Program(rng, fr, pr, algo, extra)
    text = yaml.safe_dump(dict(outputs=prog.dict))
    data = yaml.safe_load(text)
    ret = rng.random() < 0.5
    LOG.clear()
    with quiet():
        out = run_outputs(
            foxes.utils.Dict(data, name="prog"), algo, fr, pr, extra_sig=extra, ret_rlabels=ret, verbosity=pick(rng, [None, 0, 1])
        )
    if ret:
        rec.check(isinstance(out, tuple) and len(out) == 2, "ret-type", "run_outputs with ret_rlabels does not return outputs and labels")
        out, lb = out
        rec.check(set(lb) == set(prog.env), "label-set", f"result labels {sorted(lb)} instead of {sorted(prog.env)}")
        for k in prog.env:
            rec.check(k in lb and show(lb[k]) == show(prog.env[k]), "label-value", f"result label {k}: {show(lb.get(k))} instead of {show(prog.env[k])}")
    rec.check(isinstance(out, list), "out-type", f"run_outputs returned {type(out).__name__} instead of the list of outputs")
    rec.event("output-call", len(prog.log))
    rec.event("output-label", prog.labels)
    if prog.skips:
        rec.event("output-skip", prog.skips)
    got, exp = [show(list(x)) for x in LOG], [show(list(x)) for x in prog.log]
    for i in range(max(len(got), len(exp))):
        a, b = got[i] if i < len(got) else None, exp[i] if i < len(exp) else None
        if a != b:
            rec.violate("call-log", f"output call {i}: {a} instead of {b}")
            break
    rec.check(len(out) == len(prog.res), "n-outputs", f"{len(out)} outputs instead of {len(prog.res)}")
    for i, (x, r) in enumerate(zip(out, prog.res)):
        rec.check(show(x[1]) == show(r), "result", f"output {i}: results {show(x[1])} instead of {show(r)}")
    if prog.n >= 5:
        rec.nontrivial()

    # mistakes are refused
    bad = pick(
        rng,
        [
            [dict(functions=[])],
            [dict(output_type="VOutPlain", tag="t", functions=[dict(function="nope")])],
            [dict(output_type="VOutPlain", tag="t", functions=[dict(function="ident", value=1, result_labels="nodollar")])],
            [dict(output_type="VOutPlain", tag="t", functions=[dict(function="pair", a=1, result_labels=["$a", "b"])])],
            [dict(output_type="VOutPlain", tag="t", functions=[dict(function="ident", value="$never")])],
            [dict(output_type="VOutPlain", tag="t", functions=[dict(function="ident", value=1, result_labels="$a[0]")])],
            [dict(object="$never", functions=[dict(function="x")])],
            [dict(output_type="VOutPlain", tag="t", nosuchparameter=1, functions=[dict(function="ident", value=1)])],
            [dict(output_type="VOutPlain", tag="t", functions=[dict(function="ident", nosuchparameter=1)])],
        ],
    )
    ok = False
    with quiet():
        try:
            run_outputs(foxes.utils.Dict(dict(outputs=bad), name="bad"), algo, object(), None)
            ok = True
        except Exception as e:
            rec.check(
                isinstance(e, (KeyError, AssertionError, TypeError, ValueError, AttributeError)), "refusal-type", f"outputs {bad}: {type(e).__name__}: {e}"
            )
    rec.check(not ok, "not-refused", f"outputs {bad} were accepted")
    rec.event("output-refused")
    rec.sig = [m[0] for m in exp and prog.log]


# ------------------------------------------------------------ yaml command line


def cli(fun, argv):
    old = sys.argv
    sys.argv = [str(a) for a in argv]
    try:
        with quiet(), contextlib.redirect_stderr(io.StringIO()):
            fun()
    finally:
        sys.argv = old


def options(rng, inp=None):
    """random command line options: list, overrides, engine"""
    argv, over = [], {}
    eng = None
    short = rng.random() < 0.6
    opt = lambda s, l: s if short else l
    if rng.random() < 0.4:
        over["rotor_model"] = pick(rng, ["grid4", "centre", "level3"])
        argv += [opt("-r", "--rotor"), over["rotor_model"]]
    if rng.random() < 0.4:
        over["wake_models"] = pick(rng, [["Jensen_linear_k007"], ["Bastankhah2014_linear_k004", "CrespoHernandez_quadratic_k004"]])
        argv += [opt("-w", "--wakes")] + over["wake_models"]
    if rng.random() < 0.35:
        w = over.get("wake_models", [None])
        over["partial_wakes"] = pick(rng, [["centre"] * len(w), ["rotor_points"] * len(w)]) if w != [None] else ["centre"]
        argv += [opt("-p", "--pwakes")] + over["partial_wakes"]
    if rng.random() < 0.25:
        over["wake_frame"] = "rotor_wd"
        argv += [opt("-f", "--frame"), "rotor_wd"]
    if rng.random() < 0.25:
        over["cls"] = "Iterative"
        argv += [opt("-it", "--iterative")]
    k = int(rng.integers(0, 4))
    if k == 1:
        eng = "single"
        argv += [opt("-e", "--engine"), "single"]
    elif k == 2:
        eng = "threads"
        argv += [opt("-e", "--engine"), eng, opt("-n", "--n_procs"), "2", opt("-c", "--chunksize_states"), int(rng.integers(1, 4))]
    elif k == 3:
        eng = "chunks"
        argv += [opt("-n", "--n_procs"), "2", opt("-c", "--chunksize_states"), int(rng.integers(1, 4)), opt("-C", "--chunksize_points"), 50]
    if rng.random() < 0.3:
        argv += ["-nf"]
    return argv, over, eng


TAB = [FV.AMB_REWS, FV.REWS, FV.P, FV.CT]


def k_yaml(spec, rng, rec):
    from foxes.input.yaml.yaml import foxes_yaml

    root = Path.cwd()
    indir = root / "in" / "sub"
    other = root / "other"
    indir.mkdir(parents=True)
    other.mkdir()
    inp = Input(rng, base=indir, files=True)
    data = inp.data
    if rng.random() < 0.5:
        data["engine"] = engine_section(rng)
    data["outputs"] = [
        dict(output_type="StateTurbineTable", functions=[dict(function="get_dataset", variables=list(TAB), to_file="table.nc", round=None)]),
        dict(output_type="ResultsWriter", functions=[dict(function="write_nc", file_name="res.nc", variables=list(TAB), round=None, complevel=0)]),
        dict(output_type="FarmResultsEval", functions=[dict(function="add_capacity"), dict(function="add_efficiency")]),
        dict(output_type="ResultsWriter", functions=[dict(function="write_csv", file_name="eff.csv", variables=[FV.EFF, FV.P, FV.CAP])]),
    ]
    points = None
    if rng.random() < 0.5:
        points = inp.points(6)
        pd.DataFrame(points, columns=["x", "y", "z"]).to_csv(indir / "pts.csv", index=False)
        data["calc_points"] = dict(run=True, points="pts.csv")
        data["outputs"].append(dict(output_type="VOutPoint", tag="pt", functions=[dict(function="ident", value=0)]))
    # a label, and a program that depends on it
    data["outputs"].append(dict(output_type="FarmResultsEval", functions=[dict(function="calc_mean_farm_power", result_labels="$mean")]))
    data["outputs"].append(dict(output_type="VOutPlain", tag="lab", functions=[dict(function="ident", value="$mean")]))
    fn = indir / "inputs.yaml"
    fn.write_text(yaml.safe_dump(data, sort_keys=False))

    argv, over, eng = options(rng)
    if eng == "chunks" and "engine" in data:
        pass
    odir = None
    where = pick(rng, ["here", "other", "other", "abs"])
    if rng.random() < 0.5:
        odir = pick(rng, ["results", "res/deep", str(root / "absout")])
        argv += ["-o", odir]
    if rng.random() < 0.6:
        argv += ["-v", "0"]
    os.chdir(indir if where == "here" else other)
    path = dict(here="inputs.yaml", other=os.path.relpath(fn, other), abs=str(fn))[where]
    LOG.clear()
    cli(foxes_yaml, ["foxes_yaml", path] + argv)
    rec.event("yaml-run")
    if argv:
        rec.event("yaml-option", len(argv))
    if where != "here":
        rec.event("yaml-other-dir")
    if eng is not None or "engine" in data:
        released(rec, "foxes_yaml")
    foxes.reset_engine()
    for k in (FC.WORK_DIR, FC.INPUT_DIR, FC.OUTPUT_DIR):
        config[k] = Path(".") if k == FC.WORK_DIR else None
    os.chdir(indir)
    rf, rp = inp.reference(points, **over)
    os.chdir(root)
    dest = indir if odir is None else indir / odir
    what = f"foxes_yaml {path} {' '.join(str(a) for a in argv)} in {where}"
    left = sorted(str(p.relative_to(root)) for p in root.rglob("*.nc"))
    for f in ("table.nc", "res.nc", "eff.csv"):
        rec.check((dest / f).is_file(), "file-place", f"{what}: {f} not in {dest.relative_to(root)}, files: {left}")
        rec.event("yaml-file")
    tol = dict(rtol=1e-7, atol=1e-7)
    for f in ("table.nc", "res.nc"):
        if not (dest / f).is_file():
            continue
        ds = xr.load_dataset(dest / f, engine="h5netcdf")
        rec.check(ds.sizes.get(FC.STATE) == rf.sizes[FC.STATE], "nc-states", f"{what}: {f} has sizes {dict(ds.sizes)}")
        for v in TAB:
            rec.close(ds[v].values, rf[v].values, f"{v}|yaml-file", f"{what}: {v} in {f}", **tol)
    if (dest / "eff.csv").is_file():
        df = pd.read_csv(dest / "eff.csv")
        rec.close(df[FV.P].to_numpy(), rf[FV.P].values.reshape(-1), "P|yaml-csv", f"{what}: {FV.P} in eff.csv", rtol=0, atol=0.01)
    log = {x[1]: x for x in LOG if x[0] in ("new", "ident")}
    w = rf[FV.WEIGHT].values
    w = w if w.ndim == 2 else w[:, None]
    mean = float((w * rf[FV.P].values).sum())
    if "lab" in [x[1] for x in LOG]:
        v = [x[2] for x in LOG if x[0] == "ident" and x[1] == "lab"][0]
        rec.close(np.array(float(v)), np.array(mean), "label|yaml", f"{what}: mean farm power behind a result label", rtol=1e-9, atol=1e-6)
    else:
        rec.violate("label-missing|yaml", f"{what}: output with result label was not run")
    if points is not None:
        pr = [x[3] for x in LOG if x[0] == "new" and x[1] == "VOutPoint"][0]
        same_results(rec, rf, pr, rf, rp, "yaml", what)
    if max_deficit(rf) > 1e-3:
        rec.nontrivial()
    rec.sample = dict(argv=[str(a) for a in argv], where=where, sig=inp.sig)
    rec.sig = inp.sig + [str(a) for a in argv] + [where]


# ------------------------------------------------------------ windio


def num(x):
    return [float(v) for v in np.asarray(x).reshape(-1)]


class Wio:
    """random windio input and the same built in Python"""

    def __init__(self, rng, plain=False):
        self.rng = rng
        self.plain = plain
        self.events = []
        self.data = dict(name="random", site=self.site(), wind_farm=self.farm(), attributes=self.attrs())
        self.exponents()

    def a(self, x):
        if np.issubdtype(np.asarray(x).dtype, np.datetime64):
            return x
        return np.asarray(x).tolist() if self.plain or self.rng.random() < 0.5 else np.asarray(x)

    def site(self):
        rng = self.rng
        ST = foxes.input.states
        n = self.n_s = int(rng.integers(2, 7))
        kind = self.kind = pick(rng, ["ts", "ts", "ts", "single", "height"])
        ws, wd = np.round(rng.uniform(5, 14, n), 3), np.round(rng.uniform(0, 360, n), 2)
        ti = np.round(rng.uniform(0.04, 0.14, n), 4)
        ov = [FV.WS, FV.WD, FV.TI, FV.RHO]
        wr = {}
        fix = {FV.TI: 0.05, FV.RHO: 1.225}
        timek = pick(rng, ["int", "float", "date"])
        if timek == "date":
            time = np.datetime64("2021-03-04T00:00:00", "ns") + np.arange(n) * np.timedelta64(3600, "s")
            if self.plain:
                time = np.arange(n)
        else:
            time = np.arange(n) if timek == "int" else 0.5 * np.arange(n)
        prof, pd_cols, pfix = {}, {}, {}
        if kind != "height" and rng.random() < 0.35:
            z0 = np.round(rng.uniform(0.01, 0.2, n), 4)
            h = float(np.round(rng.uniform(60, 120), 1))
            mol = np.round(np.where(rng.random(n) < 0.5, 1, -1) * rng.uniform(150, 800, n), 1)
            stab = rng.random() < 0.5
            prof = {FV.WS: "ABLLogWsProfile" if stab else "ABLLogNeutralWsProfile"}
            wr["reference_height"] = h
            pfix[FV.H] = h
            if kind == "single" or rng.random() < 0.4:
                wr["z0"] = float(z0[0])
                pfix[FV.Z0] = float(z0[0])
            else:
                wr["z0"] = dict(data=self.a(z0), dims=["time"])
                pd_cols[FV.Z0] = z0
            if stab:
                if kind == "single" or rng.random() < 0.4:
                    wr["LMO"] = float(mol[0])
                    pfix[FV.MOL] = float(mol[0])
                else:
                    wr["LMO"] = dict(data=self.a(mol), dims=["time"])
                    pd_cols[FV.MOL] = mol
            self.events.append("windio-profile")
        elif rng.random() < 0.2 and kind != "height":
            # not enough for a profile
            wr["reference_height"] = 100.0
        if kind == "single":
            self.n_s = 1
            wr.update(wind_speed=float(ws[0]), wind_direction=float(wd[0]))
            kw = dict(ws=float(ws[0]), wd=float(wd[0]), ti=0.05, rho=1.225)
            if rng.random() < 0.7:
                wr["turbulence_intensity"] = float(ti[0])
                kw["ti"] = float(ti[0])
            self.events.append("windio-single")
            self.states = lambda: ST.SingleStateStates(**kw, profiles=dict(prof), **pfix)
        elif kind == "ts":
            wr["time"] = self.a(time)
            wr["wind_speed"] = dict(data=self.a(ws), dims=["time"])
            wr["wind_direction"] = dict(data=self.a(wd), dims=["time"])
            cols = {FV.WS: ws, FV.WD: wd, **pd_cols}
            m = pick(rng, ["field", "const", "none"])
            if m == "field":
                wr["turbulence_intensity"] = dict(data=self.a(ti), dims=["time"])
                cols[FV.TI] = ti
                fix.pop(FV.TI)
            elif m == "const":
                wr["turbulence_intensity"] = float(ti[0])
                fix[FV.TI] = float(ti[0])
            if rng.random() < 0.3:
                w = rng.uniform(0.2, 1, n)
                w /= w.sum()
                wr["probability"] = dict(data=self.a(w), dims=["time"])
                cols[FV.WEIGHT] = w
            df = pd.DataFrame(index=pd.Index(np.asarray(time), name="Time"), data=cols)
            fx = dict(fix, **pfix)
            self.states = lambda: ST.Timeseries(df.copy(), output_vars=ov, fixed_vars=dict(fx), profiles=dict(prof))
        else:
            self.events.append("windio-height")
            hs = np.array([20.0, 70.0, 110.0, 180.0, 300.0])
            wsh = np.round(ws[:, None] * (hs[None] / 100) ** 0.14, 4)
            wdh = np.mod(np.round(wd[:, None] + 4 * (hs[None] - 100) / 100, 3), 360)
            tih = np.round(ti[:, None] * np.ones((1, len(hs))), 4)
            wr["time"] = self.a(time)
            wr["height"] = self.a(hs)

            def f(x):
                if rng.random() < 0.5:
                    return dict(data=self.a(x), dims=["time", "height"])
                return dict(data=self.a(x.T), dims=["height", "time"])

            wr["wind_speed"], wr["wind_direction"] = f(wsh), f(wdh)
            cols = {f"WS-{int(h)}": wsh[:, k] for k, h in enumerate(hs)}
            cols.update({f"WD-{int(h)}": wdh[:, k] for k, h in enumerate(hs)})
            m = pick(rng, ["field", "const", "none"])
            if m == "field":
                wr["turbulence_intensity"] = f(tih)
                cols.update({f"TI-{int(h)}": tih[:, k] for k, h in enumerate(hs)})
                fix.pop(FV.TI)
            elif m == "const":
                wr["turbulence_intensity"] = float(ti[0])
                fix[FV.TI] = float(ti[0])
            df = pd.DataFrame(index=pd.Index(np.asarray(time), name="Time"), data=cols)
            self.states = lambda: ST.MultiHeightTimeseries(df.copy(), output_vars=ov, heights=hs, fixed_vars=dict(fix))
        items = list(wr.items())
        rng.shuffle(items)
        wr = dict(items)
        return dict(name="site", boundaries=dict(), energy_resource=dict(name="er", wind_resource=wr))

    def ttype(self, name):
        """windio turbine and the data for the reference"""
        rng = self.rng
        c = make_curve(rng)
        D = float(np.round(rng.uniform(80, 160), 1))
        H = float(np.round(D / 2 + rng.uniform(25, 60), 1))
        ws, P, ct = c["ws"].to_numpy(), c["P"].to_numpy(), c["ct"].to_numpy()
        ws2 = np.sort(np.round(np.r_[3.2, rng.uniform(3.5, 24, 12), 24.6], 2))
        ct2 = np.interp(ws2, ws, ct)
        if rng.random() < 0.5:
            ws2, ct2 = ws, ct
        cp = None
        A = np.pi * D**2 / 4
        if rng.random() < 0.3:
            cp = P * 1000 / (0.5 * 1.225 * A * ws**3)
            perf = dict(Cp_curve=dict(Cp_values=num(cp), Cp_wind_speeds=num(ws)))
            self.events.append("windio-cp")
        else:
            perf = dict(power_curve=dict(power_values=num(P), power_wind_speeds=num(ws)))
        perf["Ct_curve"] = dict(Ct_values=num(ct2), Ct_wind_speeds=num(ws2))
        if cp is not None:
            # between the nodes the power follows from the interpolated cp
            wf = np.unique(np.r_[np.linspace(ws[0], ws[-1], 40001), ws])
            P = 0.5 * 1.225 * A * np.interp(wf, ws, cp) * wf**3 / 1000
            ws = wf
        return dict(name=name, performance=perf, hub_height=H, rotor_diameter=D), dict(name=name, D=D, H=H, ws=ws, P=P, ws2=ws2, ct=ct2, cp=cp is not None)

    def farm(self):
        rng = self.rng
        m = 1 if rng.random() < 0.5 else int(rng.integers(2, 4))
        tl = [self.ttype(f"type_{'abc'[i]}") for i in range(m)]
        self.types = [t[1] for t in tl]
        n = self.n_t = int(rng.integers(3, 6))
        dmax = max(t["D"] for t in self.types)
        th = rng.uniform(0, 2 * np.pi)
        self.xy = np.round(
            np.cumsum(rng.uniform(3, 6, n))[:, None] * dmax * np.array([np.cos(th), np.sin(th)])[None] + rng.uniform(-60, 60, (n, 2)), 2
        )
        self.tt = rng.integers(0, m, n)
        out = dict(name="farm")
        keys = list(range(m)) if rng.random() < 0.6 else [int(k) for k in 3 + 2 * np.arange(m)]
        single = m == 1 and rng.random() < 0.6
        if single:
            out["turbines"] = tl[0][0]
        else:
            out["turbine_types"] = {keys[i]: tl[i][0] for i in range(m)}

        def lay(ix):
            d = dict(coordinates=dict(x=num(self.xy[ix, 0]), y=num(self.xy[ix, 1])))
            if not single:
                d["turbine_types"] = [keys[self.tt[i]] for i in ix]
            return d

        cut = int(rng.integers(1, n)) if rng.random() < 0.4 else n
        parts = [lay(np.arange(cut))] + ([lay(np.arange(cut, n))] if cut < n else [])
        out["layouts"] = parts if rng.random() < 0.6 else {f"lay{i}": p for i, p in enumerate(parts)}
        return out

    def attrs(self):
        rng = self.rng
        an = {}
        W, T, I = foxes.models.wake_models.wind, foxes.models.wake_models.ti, foxes.models.wake_models.induction
        ind = pick(rng, [None, "1D", "Madsen"])
        if ind is not None:
            an["axial_induction_model"] = ind
        fi = {None: "Betz", "1D": "Betz", "Madsen": "Madsen"}[ind]
        sup = dict(ws_superposition=pick(rng, ["Linear", "Squared", "Product"]), ti_superposition=pick(rng, ["Linear", "Squared"]))
        an["superposition_model"] = sup

        def kcoef():
            ka = pick(rng, [0.0, 0.0, 0.38, 0.5])
            kb = float(np.round(rng.uniform(0.0 if ka else 0.02, 0.06 if not ka else 0.01), 4))
            d = dict(k_a=ka, k_b=kb)
            if ka and rng.random() < 0.3:
                d.pop("k_b")
                kb = 0.0
            amb = rng.random() < 0.5
            if amb or rng.random() < 0.5:
                d["free_stream_ti"] = bool(amb)
            if not ka:
                return d, dict(k=kb)
            return d, dict(k=None, ka=ka, kb=kb, ti_var=FV.AMB_TI if amb else FV.TI)

        name = pick(rng, ["Jensen", "Bastankhah2014", "Bastankhah2014", "Bastankhah2016", "TurbOPark"])
        kd, kk = kcoef()
        eff = pick(rng, [None, True, False])
        d = dict(name=name, wake_expansion_coefficient=kd)
        if eff is not None:
            d["use_effective_ws"] = eff
        sn = {"Linear": "ws_linear", "Squared": "ws_quadratic", "Product": "ws_product"}[sup["ws_superposition"]]
        if eff is False and sn != "ws_product":
            sn += "_amb"
        mk = dict(superposition=sn, induction=fi, **kk)
        if name in ("Bastankhah2014", "TurbOPark") and rng.random() < 0.6:
            d["ceps"] = float(np.round(rng.uniform(0.18, 0.26), 3))
            mk["sbeta_factor"] = d["ceps"]
        cls = dict(Jensen=W.JensenWake, Bastankhah2014=W.Bastankhah2014, Bastankhah2016=W.Bastankhah2016, TurbOPark=W.TurbOParkWake)[name]
        an[pick(rng, ["wind_deficit_model", "wind_deficit_model", "wake_model"])] = d
        self.wakes = [("wind", lambda: cls(**mk))]
        self.cls = "Downwind"
        need_ti = False
        if rng.random() < 0.6 or kk.get("ti_var") == FV.TI:
            t = pick(rng, ["CrespoHernandez", "IEC-TI-2019", "None"])
            if kk.get("ti_var") == FV.TI and t == "None":
                t = "CrespoHernandez"
            dt = dict(name=t)
            tk = dict(kk)
            if rng.random() < 0.4 or kk.get("ti_var") == FV.AMB_TI:
                kd2, tk = kcoef()
                if kd.get("free_stream_ti") and kd2["k_a"] and rng.random() < 0.6:  # not inherited from the wind deficit
                    kd2.pop("free_stream_ti", None)
                    tk["ti_var"] = FV.TI
                dt["wake_expansion_coefficient"] = kd2
            an["turbulence_model"] = dt
            ts = {"Linear": "ti_linear", "Squared": "ti_quadratic"}[sup["ti_superposition"]]
            if t == "CrespoHernandez":
                self.wakes.append(("ti", lambda: T.CrespoHernandezTIWake(superposition=ts, induction=fi, **tk)))
            elif t == "IEC-TI-2019":
                self.wakes.append(("ti", lambda: T.IECTIWake(superposition=ts, induction=fi, opening_angle=None, iec_type="2019", **tk)))
        b = pick(rng, [None, None, "None", "RankineHalfBody", "Rathmann", "SelfSimilarityDeficit", "SelfSimilarityDeficit2020"])
        if b is not None:
            an["blockage_model"] = dict(name=b)
            if b != "None":
                bc = dict(
                    RankineHalfBody=I.RankineHalfBody, Rathmann=I.Rathmann, SelfSimilarityDeficit=I.SelfSimilar, SelfSimilarityDeficit2020=I.SelfSimilar2020
                )[b]
                self.wakes.append(("block", lambda: bc(induction=fi)))
                self.cls = "Iterative"
        self.rotor, self.pw = None, None
        self.eP, self.eC = 1, 1
        if rng.random() < 0.75:
            n = int(rng.integers(2, 5))
            bg = pick(rng, ["centre", "center", "grid", "grid", "none", "level3"])
            wk = pick(rng, ["centre", "center", "grid", "none", "auto", "rotor_points"])
            self.eP, self.eC = int(rng.integers(1, 4)), int(rng.integers(1, 4))
            an["rotor_averaging"] = dict(
                grid="grid", n_x_grid_points=n, n_y_grid_points=n, background_averaging=bg, wake_averaging=wk,
                wind_speed_exponent_for_power=self.eP, wind_speed_exponent_for_ct=self.eC,
            )
            self.rotor = {"centre": "centre", "center": "centre", "grid": f"grid{n * n}", "none": None}.get(bg, bg)
            self.pw = {"centre": "centre", "center": "centre", "none": None, "auto": None, "grid": "rotor_points" if bg == "grid" else f"grid{n * n}"}.get(wk, wk)
        self.frame = "rotor_wd"
        if rng.random() < 0.5:
            fr = pick(rng, ["None", "Bastankhah2016"])
            an["deflection_model"] = dict(name=fr)
            self.frame = "yawed" if fr == "Bastankhah2016" else "rotor_wd"
            self.fi = fi
        items = list(an.items())
        rng.shuffle(items)
        out = dict(analysis=dict(items))
        if rng.random() < 0.7:
            out["flow_model"] = dict(name=pick(rng, ["foxes", "pywake"]))
        return out

    def exponents(self):
        self.outs = None

    def mbook(self):
        mb = foxes.ModelBook()
        wv = {1: FV.REWS, 2: FV.REWS2, 3: FV.REWS3}
        for t in self.types:
            # both curves on the union of the nodes are the same functions inside the ranges of both
            mb.turbine_types[t["name"]] = foxes.models.turbine_types.PCtFromTwo(
                pd.DataFrame(dict(ws=t["ws"], P=t["P"])),
                pd.DataFrame(dict(ws=t["ws2"], ct=t["ct"])),
                D=t["D"],
                H=t["H"],
                rho=1.225,
                var_ws_P=wv[self.eP],
                var_ws_ct=wv[self.eC],
            )
        for n, f in self.wakes:
            mb.wake_models[n] = f()
        if self.frame == "yawed":
            mb.wake_frames["yawed_ref"] = foxes.models.wake_frames.YawedWakes(induction=self.fi)
        return mb

    def farm_ref(self):
        farm = foxes.WindFarm()
        for i in range(self.n_t):
            farm.add_turbine(foxes.Turbine(xy=self.xy[i].copy(), turbine_models=[self.types[self.tt[i]]["name"]]), verbosity=0)
        return farm

    def algo(self, cls=None, **over):
        kw = dict(wake_models=[n for n, _ in self.wakes], wake_frame="yawed_ref" if self.frame == "yawed" else "rotor_wd")
        if self.rotor is not None:
            kw["rotor_model"] = self.rotor
        if self.pw is not None:
            kw["partial_wakes"] = self.pw
        kw.update(over)
        return getattr(foxes.algorithms, self.cls if cls is None else cls)(
            farm=self.farm_ref(), states=self.states(), mbook=self.mbook(), verbosity=0, **kw
        )

    # --- outputs
    def add_outputs(self):
        rng = self.rng
        o = dict()
        self.subset = None
        c = int(rng.integers(0, 3))
        if c == 1:
            o["cases_run"] = dict(all_occurences=True)
        elif c == 2:
            k = int(rng.integers(1, self.n_s + 1))
            self.subset = sorted(int(x) for x in rng.choice(self.n_s, k, replace=False))
            o["cases_run"] = dict(all_occurences=False, subset=list(self.subset))
            if rng.random() < 0.5:
                del o["cases_run"]["all_occurences"]
        self.odir = pick(rng, [None, ".", "results"])
        if self.odir is not None:
            o["output_folder"] = self.odir
        self.tf = self.ff = None
        if rng.random() < 0.8:
            vs = pick(rng, [["power", "rotor_effective_velocity"], ["power"], ["rotor_effective_velocity"]])
            d = dict(output_variables=list(vs))
            self.tf = "turbine_outputs.nc"
            if rng.random() < 0.6:
                self.tf = d["turbine_nc_filename"] = "tout.nc"
            if rng.random() < 0.5:
                d["report"] = bool(rng.random() < 0.8)
                if not d["report"]:
                    self.tf_off, self.tf = self.tf, None
            self.tvars = vs
            o["turbine_outputs"] = d
        if rng.random() < 0.7:
            vs = pick(rng, [["wind_speed", "wind_direction"], ["wind_speed"]])
            xb = [float(v) for v in np.round([self.xy[:, 0].min() - 200, self.xy[:, 0].max() + 300], 0)]
            yb = [float(v) for v in np.round([self.xy[:, 1].min() - 300, self.xy[:, 1].max() + 200], 0)]
            dx, dy = [float(v) for v in np.round(rng.uniform(80, 400, 2), 0)]
            z = dict(xy_sampling="grid", x_bounds=xb, y_bounds=yb, dx=dx, dy=dy)
            zk = pick(rng, ["plane_list", "hub_heights", "grid", 90.0])
            if zk == "plane_list":
                self.z = [90.0] if rng.random() < 0.4 else [60.0, 110.0, 150.0]
                z["z_list"] = list(self.z)
            elif zk == "hub_heights":
                self.z = sorted(set(self.types[t]["H"] for t in self.tt))
            elif zk == "grid":
                z.update(z_bounds=[60.0, 140.0], z_number=3)
                self.z = [60.0, 100.0, 140.0]
            else:
                self.z = [zk]
            z["z_sampling"] = zk
            self.xb, self.yb, self.dx, self.dy = xb, yb, dx, dy
            d = dict(output_variables=list(vs), z_planes=z)
            self.ff = "flow_field.nc"
            if rng.random() < 0.5:
                self.ff = d["flow_nc_filename"] = "flow.nc"
            if rng.random() < 0.3:
                d["report"] = True
            self.fvars = vs
            o["flow_field"] = d
        self.data["attributes"]["model_outputs_specification"] = o

    def check_files(self, rec, dest, algo_over, rf, what):
        sel = self.subset if self.subset is not None else list(range(self.n_s))
        if self.tf is None and "turbine_outputs" in self.data["attributes"].get("model_outputs_specification", {}):
            rec.check(not (dest / self.tf_off).exists(), "turbine-file-off", f"{what}: turbine output written in spite of report: False")
        if self.tf is not None:
            f = dest / self.tf
            rec.check(f.is_file(), "turbine-file-place", f"{what}: no file {self.tf} in the output folder, have {sorted(p.name for p in dest.glob('*'))}")
            if f.is_file():
                ds = xr.load_dataset(f, engine="h5netcdf")
                rec.event("windio-turbine-file")
                rec.check(dict(ds.sizes) == dict(time=len(sel), turbine=self.n_t), "turbine-file-size", f"{what}: sizes {dict(ds.sizes)} of {self.tf}, states {sel}")
                rec.check(set(ds.data_vars) == set(self.tvars), "turbine-file-vars", f"{what}: variables {list(ds.data_vars)} instead of {self.tvars}")
                for w, v in dict(power=FV.P, rotor_effective_velocity=FV.REWS).items():
                    if w in ds:
                        rec.close(ds[w].values, rf[v].values[sel], f"{w}|windio-file", f"{what}: {w} in {self.tf}", rtol=1e-6, atol=2e-3)
        if self.ff is not None:
            f = dest / self.ff
            rec.check(f.is_file(), "flow-file-place", f"{what}: no file {self.ff} in the output folder, have {sorted(p.name for p in dest.glob('*'))}")
            if f.is_file():
                ds = xr.load_dataset(f, engine="h5netcdf")
                rec.event("windio-flow-file")
                ax = [a for a in ("x", "y") if a not in ds.coords]
                rec.check(not ax, "flow-file-axes", f"{what}: no coordinates {ax} in {self.ff}")
                zc = [c for c in ds.coords if c in ("z", "height")]
                rec.check(
                    len(zc) == 1 and np.allclose(ds[zc[0]].values, np.round(self.z, 3), atol=0.006),
                    "flow-file-planes", f"{what}: {self.ff} has coordinates {list(ds.coords)} for planes {self.z}",
                )
                if ax or not zc or ds[zc[0]].size != len(self.z):
                    return
                x, y = ds["x"].values, ds["y"].values
                for a, b, d in ((x, self.xb, self.dx), (y, self.yb, self.dy)):
                    rec.close(a[[0, -1]], np.array(b), "flow-file-bounds", f"{what}: axis of {self.ff}", rtol=0, atol=0.01)
                    rec.check(np.all(np.diff(a) <= d * (1 + 1e-6) + 0.01), "flow-file-step", f"{what}: steps {np.diff(a)[:3]} larger than {d}")
                    rec.check(np.ptp(np.diff(a)) < 0.05, "flow-file-grid", f"{what}: axis of {self.ff} is not regular")
                tc = [c for c in ds.dims if c not in ("x", "y", zc[0])]
                rec.check(len(tc) == 1 and ds.sizes[tc[0]] == len(sel), "flow-file-states", f"{what}: sizes {dict(ds.sizes)} of {self.ff} for states {sel}")
                rec.check(set(ds.data_vars) == set(self.fvars), "flow-file-vars", f"{what}: variables {list(ds.data_vars)} instead of {self.fvars}")
                # a sample of grid points
                rng = rng_of("flow", len(x), len(y))
                xe, ye = np.linspace(*self.xb, len(x)), np.linspace(*self.yb, len(y))
                ii, jj, kk = rng.integers(0, len(x), 30), rng.integers(0, len(y), 30), rng.integers(0, len(self.z), 30)
                pts = np.stack([xe[ii], ye[jj], np.asarray(self.z)[kk]], axis=-1)
                with foxes.Engine.new("single", verbosity=0):
                    al = self.algo(**algo_over)
                    fr = al.calc_farm()
                    pr = al.calc_points(fr, pts)
                for w, v in dict(wind_speed=FV.WS, wind_direction=FV.WD).items():
                    if w in ds and len(tc) == 1:
                        g = ds[w].transpose(tc[0], zc[0], "y", "x").values[:, kk, jj, ii]
                        e = pr[v].values[sel]
                        if v == FV.WD:
                            d = np.abs(np.mod(g - e + 180, 360) - 180)
                            rec.close(d, 0 * d, f"{w}|windio-flow", f"{what}: {w} in {self.ff}", rtol=0, atol=2e-3)
                        else:
                            rec.close(g, e, f"{w}|windio-flow", f"{what}: {w} in {self.ff}", rtol=0, atol=2e-4)


def rename_free(rec, fr, rf, key, what):
    """compare, turbine type names are the same in both"""
    fr = fr.drop_vars([v for v in (FV.MOL, "AMB_" + FV.MOL) if v in fr and v not in rf])
    compare(rec, fr, rf, key, what, skip=("order", "order_ssel", "order_inv", "tname"), rtol=2e-6, atol=2e-6)


def k_windio(spec, rng, rec):
    from foxes.input.yaml.windio import read_windio

    w = Wio(rng)
    w.odir = None
    w.tf = w.ff = None
    outs = rng.random() < 0.6
    if outs:
        w.add_outputs()
    data = w.data if rng.random() < 0.5 else foxes.utils.Dict(w.data, name="windio")
    v = pick(rng, [0, 0, 1, 3])
    with quiet():
        idict, algo, odir = read_windio(data, verbosity=v)
        dest = Path.cwd() / (odir if odir is not None else ".")
        if outs:
            rec.check((w.odir or ".") == odir, "odir", f"output folder {odir!r} instead of {w.odir!r}")
        rec.check(type(algo).__name__ == w.cls, "algo-class", f"windio algorithm {type(algo).__name__} instead of {w.cls}")
        res = run_dict(
            idict, algo=algo, engine_pars=dict(engine_type="numpy", n_procs=2, chunk_size_states=int(rng.integers(1, 5)), verbosity=0), output_dir=odir, verbosity=v
        )
    rec.event("windio-run")
    for e in w.events:
        rec.event(e)
    released(rec, "windio run")
    for k in (FC.WORK_DIR, FC.INPUT_DIR, FC.OUTPUT_DIR):
        config[k] = Path(".") if k == FC.WORK_DIR else None
    with foxes.Engine.new("single", verbosity=0):
        rf = w.algo().calc_farm()
    fr = res[0]
    what = f"windio {w.kind}, {[n for n, _ in w.wakes]}, {w.cls}, rotor {w.rotor}, {w.pw}, {w.frame}"
    rename_free(rec, fr, rf, "windio", what)
    rec.check(np.array_equal(fr[FC.STATE].values, rf[FC.STATE].values), "windio-states", f"{what}: states {fr[FC.STATE].values}")
    if outs:
        w.check_files(rec, dest, {}, rf, what)
    if max_deficit(fr) > 1e-3:
        rec.nontrivial()
    rec.sample = dict(what=what)
    rec.sig = [w.kind, w.cls, str(w.rotor), str(w.pw), w.frame] + sorted(w.events)


def k_wcli(spec, rng, rec):
    """the windio command line, with a stand-in for the loader of the windIO package"""
    from foxes.input.yaml.windio.windio import foxes_windio

    w = Wio(rng, plain=True)
    w.add_outputs()
    root = Path.cwd()
    indir, other = root / "in", root / "other"
    indir.mkdir()
    other.mkdir()
    fn = indir / "wio.yaml"
    fn.write_text(yaml.safe_dump(w.data, sort_keys=False))
    pkg, sub, mod = types.ModuleType("windIO"), types.ModuleType("windIO.utils"), types.ModuleType("windIO.utils.yml_utils")
    mod.load_yaml = lambda p: yaml.safe_load(Path(p).read_text())
    pkg.utils, sub.yml_utils = sub, mod
    mods = {"windIO": pkg, "windIO.utils": sub, "windIO.utils.yml_utils": mod}
    argv, over, eng = options(rng)
    odir = None
    if rng.random() < 0.4:
        odir = pick(rng, ["given", str(root / "absout")])
        argv += ["-o", odir]
    argv += ["-v", "0"]
    here = rng.random() < 0.5
    os.chdir(indir if here else other)
    try:
        sys.modules.update(mods)
        cli(foxes_windio, ["foxes_windio", "wio.yaml" if here else str(fn)] + argv)
    finally:
        for m in mods:
            sys.modules.pop(m, None)
    rec.event("windio-cli")
    released(rec, "foxes_windio")
    foxes.reset_engine()
    for k in (FC.WORK_DIR, FC.INPUT_DIR, FC.OUTPUT_DIR):
        config[k] = Path(".") if k == FC.WORK_DIR else None
    os.chdir(root)
    with foxes.Engine.new("single", verbosity=0):
        rf = w.algo(**over).calc_farm()
    dest = indir / (odir if odir is not None else (w.odir or "."))
    what = f"foxes_windio {' '.join(str(a) for a in argv)}"
    w.check_files(rec, dest, over, rf, what)
    if max_deficit(rf) > 1e-3 and (w.tf or w.ff):
        rec.nontrivial()
    rec.sample = dict(argv=[str(a) for a in argv])
    rec.sig = [w.kind, w.cls] + [str(a) for a in argv]
