"""C26: engines: function mapping, chunk partition, life cycle, failing calculations"""

import gc
import os
import threading
import time
import dask.array as da
import numpy as np
import pandas as pd
import foxes
import foxes.variables as FV
import foxes.constants as FC
from pathlib import Path

from harness.core import rng_of
from harness.cmp import compare
from harness.scen import Scenario, random_spec

# failing tasks are part of the workload, their logs are not of interest
os.environ.setdefault("DASK_LOGGING__DISTRIBUTED", "critical")

PROPERTY = "C26"
RULE = (
    "engine.map for random inputs of mixed types, with call log, delays and failing calls; chunk partitions for a grid of sizes; "
    "random histories of engine operations against a reference state machine; calculations failing in the middle; "
    "non-trivial when an operation was compared with the reference"
)
ASSUMES = ["MPI and SLURM engines need an external launcher and are not run"]
REQUIRED_EVENTS = [
    "map", "map-fail", "map-mixed", "map-inversion", "map-empty", "map-one", "partition", "partition-points", "op", "op-refused",
    "op-gc", "op-map", "leak-check", "calc-fail", "calc-after-fail", "cluster", "algo-engine", "files-lazy", "files-fly",
]
CASE_TIMEOUT = 75
HANG_IS_VIOLATION = True  # every operation takes seconds at most, also when repeated in a fresh process
POOLS = ["threads", "process", "multiprocess", "dask", "xarray", "default", "numpy", "single"]


def cases(tier, seed):
    q = tier == "quick"
    out = []

    def add(kind, n, **kw):
        for i in range(n):
            rng = rng_of(PROPERTY, seed, kind, i)
            out.append(dict(kind=kind, i=i, seed=int(rng.integers(1 << 31)), tier=tier, **kw))

    add("partition", 8 if q else 60)
    add("map", 64 if q else 1200)
    add("life", 40 if q else 900)
    add("calc", 16 if q else 240)
    add("files", 6 if q else 80)
    add("cluster", 1 if q else 12)
    if not q:
        add("ray", 6)
    return out


def run(spec, rec):
    rng = rng_of("C26run", spec["seed"])
    foxes.reset_engine()
    try:
        globals()["k_" + spec["kind"]](spec, rng, rec)
    finally:
        foxes.reset_engine()
    rec.nontrivial()


def new(name, n_procs=2, **kw):
    if name == "single":
        return foxes.Engine.new(name, verbosity=0)
    if name in ("dask", "xarray", "local_cluster"):
        kw["progress_bar"] = False
    return foxes.Engine.new(name, n_procs=n_procs, verbosity=0, **kw)


# ---------------------------------------------------------------- map


class Boom(Exception):
    pass


def work(x, log, *args, fails=(), delays=None, **kwargs):
    """logs its call and returns something that reveals input and arguments"""
    d = describe(x)
    fd = os.open(log, os.O_APPEND | os.O_CREAT | os.O_WRONLY)
    os.write(fd, (d + "\n").encode())
    os.close(fd)
    if delays is not None:
        time.sleep(delays.get(d, 0))
    if d in fails:
        raise Boom(d)
    fd = os.open(log + ".done", os.O_APPEND | os.O_CREAT | os.O_WRONLY)
    os.write(fd, (d + "\n").encode())
    os.close(fd)
    return (d, args, sorted(kwargs.items()))


def describe(x):
    """type and contents"""
    t = type(x).__name__
    if isinstance(x, (list, tuple)):
        return t + "[" + ";".join(describe(y) for y in x) + "]"
    if isinstance(x, dict):
        return t + "{" + ";".join(f"{describe(k)}:{describe(y)}" for k, y in x.items()) + "}"
    if isinstance(x, np.ndarray):
        return f"{t}{x.dtype}{x.shape}{x.tolist()}"
    if isinstance(x, pd.DataFrame):
        return f"{t}{x.to_dict()}"
    return f"{t}:{x!r}"


def rnd_item(rng, i, depth=0):
    k = int(rng.integers(0, 14 if depth == 0 else 8))
    if k == 0:
        return i
    if k == 1:
        return float(i) + 0.5
    if k == 2:
        return f"s{i}"
    if k == 3:
        return Path(f"dir/file{i}.nc")
    if k == 4:
        return None if depth else (None, i)
    if k == 5:
        return bool(i % 2) if depth else [bool(i % 2), i]
    if k == 6:
        return 2**70 + i
    if k == 7:
        return np.float32(i)
    if k in (8, 9):
        return tuple(rnd_item(rng, i + 100 * j, 1) for j in range(int(rng.integers(1, 4)))) + (i,)
    if k == 10:
        return [rnd_item(rng, i + 100 * j, 1) for j in range(int(rng.integers(0, 4)))] + [i]
    if k == 11:
        return {"i": i, f"k{i}": rnd_item(rng, i, 1)}
    if k == 12:
        return np.arange(i, i + int(rng.integers(1, 5)), dtype=[np.int32, np.float64][i % 2])
    return pd.DataFrame({"a": np.arange(int(rng.integers(1, 4))) + i})


def rnd_inputs(rng, rec, n):
    mode = str(rng.choice(["mixed", "ints", "strs", "paths", "pairs", "ragged", "range", "tuple", "array"]))
    if mode == "ints":
        return [int(q) for q in rng.permutation(n * 3)[:n]]
    if mode == "strs":
        return [f"{'x' * int(rng.integers(0, 9))}{i}" for i in range(n)]
    if mode == "paths":
        return [Path(f"a/{'y' * int(rng.integers(0, 9))}{i}") for i in range(n)]
    if mode == "pairs":
        return [(i, f"n{i}") for i in range(n)]
    if mode == "ragged":
        return [[i] * int(rng.integers(1, 4)) for i in range(n)]
    if mode == "range":
        return range(n)
    if mode == "tuple":
        return tuple(float(i) for i in range(n))
    if mode == "array":
        return np.arange(3 * n).reshape(n, 3) * 1.5
    rec.event("map-mixed")
    return [rnd_item(rng, i) for i in range(n)]


def read(f):
    return open(f).read().split("\n")[:-1] if os.path.exists(f) else []


def check_map(e, name, rng, rec, tag, n=None, fail=False):
    if n is None:
        n = int(rng.choice([0, 1, 2, 3, int(rng.integers(4, 14))]))
    inputs = rnd_inputs(rng, rec, n)
    des = [describe(x) for x in inputs]
    delays = {d: float(rng.choice([0, 0, 0.003, 0.015])) for d in des}
    fails = [des[int(j)] for j in rng.permutation(n)[: int(rng.integers(1, 3))]] if fail and n else []
    log = os.path.abspath(f"log-{tag}")
    args = [(), (3,), ("a", None)][int(rng.integers(0, 3))]
    kw = [{}, {"q": 1.5}, {"inp": [1], "z": "z"}][int(rng.integers(0, 3))]
    want = [(d, args, sorted(kw.items())) for d in des]
    try:
        got = e.map(work, inputs, log, *args, fails=tuple(fails), delays=delays, **kw)
        exc = None
    except Exception as x:
        exc = x
    if fails:
        rec.event("map-fail")
        ok = isinstance(exc, Boom) and exc.args[0] in fails
        rec.check(ok, f"map-exception-{name}", lambda: f"{name}: function raises Boom for {fails}, map gave {type(exc).__name__}: {exc}" if exc else "no exception")
    else:
        rec.event("map" if n > 1 else ("map-one" if n else "map-empty"))
        ok = exc is None and isinstance(got, list) and got == want
        rec.check(ok, f"map-result-{name}", lambda: f"{name}, inputs {des}: " + (f"{type(exc).__name__}: {exc}" if exc else f"{got}"))
        calls = read(log)
        rec.check(sorted(calls) == sorted(des), f"map-calls-{name}", lambda: f"{name}: calls {calls}, inputs {des}")
        if read(log + ".done") != des:
            rec.event("map-inversion")
    for f in (log, log + ".done"):
        if os.path.exists(f):
            os.remove(f)


def k_map(spec, rng, rec):
    name = POOLS[spec["i"] % len(POOLS)]
    n_procs = int(rng.integers(1, 5))
    rec.sig = [name, n_procs]
    with new(name, n_procs) as e:
        for j in range(3 if name in ("default",) else 5):
            check_map(e, name, rng, rec, f"{j}", fail=rng.random() < 0.25)
            rec.check(foxes.core.get_engine(error=False, default=False) is e and e.initialized, f"map-active-{name}", f"{name}: not active after map")


# ---------------------------------------------------------------- chunks


def k_partition(spec, rng, rec):
    q = spec["tier"] == "quick"
    name = POOLS[spec["i"] % len(POOLS)]
    ns = list(range(1, 40)) + [int(x) for x in rng.integers(40, 20000, 10)]
    nt = [0, 1] + [int(x) for x in rng.integers(2, 60, 8 if q else 30)] + [int(x) for x in rng.integers(900, 90000, 6)]
    sizes = [None, 1, 2, 3, 7, 1000] + [int(x) for x in rng.integers(4, 500, 3)]
    for cs in sizes:
        for cp in sizes:
            for np_ in (1, 2, 3, 8, int(rng.integers(4, 100))):
                if name == "single":
                    e = new(name)
                else:
                    e = new(name, np_, chunk_size_states=cs, chunk_size_points=cp)
                for n, t in [(n, 0) for n in ns] + list(zip(rng.permutation(ns)[: len(nt)], nt)):
                    n = int(n)
                    s, p = e.calc_chunk_sizes(n, t)
                    s, p = np.asarray(s), np.asarray(p)
                    what = f"{name}, n_procs={np_}, sizes {cs}, {cp}: {n} states, {t} targets"
                    rec.check(s.sum() == n and s.min() >= 1, "partition-states", lambda: f"{what}: {s}")
                    rec.check(p.sum() == t and (t == 0 or p.min() >= 1), "partition-targets", lambda: f"{what}: {p}")
                    if cs is not None and name != "single":
                        rec.check(s.max() <= cs + 1, "partition-size", lambda: f"{what}: {s}")
                    if cp is not None and name != "single":
                        rec.check(p.max() <= max(cp, 1) + 1 or t <= 1, "partition-points-size", lambda: f"{what}: {p}")
                    rec.event("partition")
                    if t > 1:
                        rec.event("partition-points")
                if name != "single" and (cs, cp) != (None, None):
                    want = ([FC.STATE] if cs is not None else []) + ([FC.TARGET] if cp is not None else [])
                    rec.check(list(e.loop_dims) == want, "loop-dims", lambda: f"{name}, sizes {cs}, {cp}: loop dims {e.loop_dims}")


# ---------------------------------------------------------------- life cycle


def children():
    """pids of the child processes of this process which are not zombies"""
    me, out = os.getpid(), []
    for p in os.listdir("/proc"):
        if p.isdigit():
            try:
                f = open(f"/proc/{p}/stat").read().rsplit(")", 1)[1].split()
            except OSError:
                continue
            if int(f[1]) == me and f[0] != "Z":
                out.append(int(p))
    return set(out)


def k_life(spec, rng, rec):
    from foxes.core import get_engine, has_engine, reset_engine

    pool = ["numpy", "single", "threads", "process", "multiprocess", "dask", "xarray", "default"]
    a = POOLS[spec["i"] % len(POOLS)]
    names = [a, str(rng.choice(pool)), str(rng.choice(pool[:3] + ["dask", "xarray"]))]
    base, threads = children(), threading.active_count()
    es = [new(n) for n in names]
    on = None  # the reference: index of the active engine
    hist = []
    rec.sig = names

    def state(what):
        g = get_engine(error=False, default=False)
        ok = (g is None) if on is None else (g is es[on])
        rec.check(ok, "active-engine", lambda: f"{names}, after {hist}: active engine is {g}, expected {None if on is None else names[on]}")
        rec.check(has_engine() == (on is not None), "has-engine", lambda: f"{names}, after {hist}: has_engine {has_engine()}")
        for k, e in enumerate(es):
            rec.check(e.initialized == (k == on) and e.entered == (k == on), "engine-flags", lambda: f"{names}, after {hist}: engine {k} initialized {e.initialized}, entered {e.entered}, active {on}")

    def refused(f, what):
        rec.event("op-refused")
        try:
            f()
        except Exception as x:
            return type(x)
        rec.violate("not-refused", f"{names}, after {hist}: {what} should be refused")

    ops = ["init", "fin", "enter", "exit", "reset", "get", "gc", "map", "nested", "body-fail", "map-fail", "noise"]
    n_ops = int(rng.integers(6, 14))
    for j in range(n_ops):
        o = str(rng.choice(ops, p=np.array([3, 2, 3, 2, 1, 1, 1, 3, 2, 1, 1, 1]) / 21))
        k = int(rng.integers(0, 3))
        hist.append(f"{o}{k}")
        rec.event("op")
        e = es[k]
        if o == "init":
            if on is None or on == k:
                e.initialize()
                on = k
            else:
                t = refused(e.initialize, "initialize")
                rec.check(t is None or issubclass(t, ValueError), "refusal-type", lambda: f"{names}, {hist}: {t}")
        elif o == "enter":
            if on is None:
                rec.check(e.__enter__() is e, "enter-result", f"{names}: with-statement target is not the engine")
                on = k
            else:
                t = refused(e.__enter__, "enter")
                rec.check(t is None or issubclass(t, ValueError), "refusal-type", lambda: f"{names}, {hist}: {t}")
        elif o == "fin":
            e.finalize()
            on = None if on == k else on
        elif o == "exit":
            if on == k:
                rec.check(not e.__exit__(None, None, None), "exit-result", f"{names}: exit returns a true value")
                on = None
            else:
                refused(lambda: e.__exit__(None, None, None), "exit")
        elif o == "reset":
            reset_engine()
            on = None
        elif o == "get":
            if on is None:
                refused(lambda: get_engine(default=False), "get_engine(default=False)")
                if rng.random() < 0.5:
                    g = get_engine(default=e)
                    on = k
                    rec.check(g is e, "get-default", f"{names}: get_engine(default=engine) gave {g}")
                else:
                    g = get_engine(default=dict(engine_type="numpy", n_procs=1, verbosity=0))
                    rec.check(has_engine() and get_engine() is g and g.initialized, "get-default", f"{names}: get_engine(default=dict) gave {g}")
                    g.finalize()
            else:
                rec.check(get_engine(default=dict(engine_type="numpy")) is es[on] and get_engine() is es[on], "get-engine", f"{names}, {hist}: get_engine")
        elif o == "gc":
            # dropping another engine, which was never active or was refused
            rec.event("op-gc")
            x = new(names[k])
            if on is not None:
                refused(x.initialize, "initialize")
            elif rng.random() < 0.5:
                x.initialize()
                x.finalize()
            x = None
            gc.collect()
        elif o in ("map", "map-fail"):
            if on is not None:
                rec.event("op-map")
                check_map(es[on], names[on], rng, rec, f"{j}", n=int(rng.integers(2, 6)), fail=o == "map-fail")
        elif o == "nested":
            if on is None:
                with e:
                    on = k
                    state(o)
                    for x in es:
                        if x is not e:
                            refused(x.__enter__, "nested enter")
                    state(o)
                    check_map(e, names[k], rng, rec, f"{j}", n=3)
                on = None
        elif o == "body-fail":
            if on is None:
                try:
                    with e:
                        raise Boom("body")
                except Boom:
                    pass
                except Exception as x:
                    rec.violate("body-exception", f"{names}, {hist}: exception of the with-block replaced by {type(x).__name__}: {x}")
        elif o == "noise":
            repr(e), e.loop_dims
        state(o)
    reset_engine()
    on = None
    state("end")
    # every engine can be used afterwards, the workers are gone at the end
    for k, e in enumerate(es):
        with e:
            check_map(e, names[k], rng, rec, f"end{k}", n=4)
    state("end")
    es.clear()
    e = x = None
    gc.collect()
    t0 = time.time()
    while time.time() - t0 < 20:
        left = children() - base
        nthr = threading.active_count() - threads
        if not left and (nthr <= 0 or not {"threads", "process", "multiprocess", "default"} & set(names)):
            break
        time.sleep(0.05)
    rec.event("leak-check")
    # the resource tracker of multiprocessing stays by design
    left = {p for p in left if b"resource_tracker" not in cmdline(p)}
    rec.check(not left, "worker-leak", lambda: f"{names}, {hist}: {len(left)} worker processes left")
    if not {"dask", "xarray"} & set(names):
        rec.check(nthr <= 0, "thread-leak", lambda: f"{names}, {hist}: threads left: {threading.enumerate()}")


def cmdline(p):
    try:
        return open(f"/proc/{p}/cmdline", "rb").read()
    except OSError:
        return b""


# ---------------------------------------------------------------- failing calculations


class Fuse(foxes.core.TurbineModel):
    """a turbine model which fails at a selected wind direction, if armed"""

    def __init__(self, wd, armed, delay):
        super().__init__()
        self.wd = wd
        self.armed = armed
        self.delay = delay

    def output_farm_vars(self, algo):
        return ["fused"]

    def calculate(self, algo, mdata, fdata, st_sel):
        if self.armed and np.any(np.abs(fdata[FV.WD][st_sel] - self.wd) < 1e-9):
            raise Boom("fuse")
        # chunks overlap in time
        time.sleep(self.delay * (mdata.states_i0(counter=True) * 7 % 5))
        return {"fused": np.array(fdata[FV.REWS])}


def scenario(rng, rec):
    sp = random_spec(rng, int(rng.integers(1 << 30)), n_t=(2, 4), n_s=(5, 9), states=("timeseries", "table"))
    return Scenario(sp)


def k_calc(spec, rng, rec, engines=None):
    scn = scenario(rng, rec)
    name = (engines or POOLS)[spec["i"] % len(engines or POOLS)]
    pts = scn.points(5)
    with new("single"):
        algo = scn.algo("Downwind")
        ref = algo.calc_farm()
        pref = algo.calc_points(ref, pts)
    wds = ref[FV.AMB_WD].to_numpy()[:, 0]
    bad = float(wds[int(rng.integers(len(wds)))])
    cs = 1 if name == "local_cluster" else [None, 1, 2, 3][int(rng.integers(0, 4))]
    kw = dict(cluster_pars=dict(dashboard_address=None, threads_per_worker=4)) if name == "local_cluster" else {}
    e = new(name, 2, chunk_size_states=cs, chunk_size_points=cs, **kw)
    keep = e.n_procs, e.chunk_size_states, e.chunk_size_points
    rec.sig = [name, cs]
    delay = 0.02 if name == "local_cluster" else 0.002

    def farm(armed):
        mb = scn.mbook()
        mb.turbine_models["fuse"] = Fuse(bad, armed, delay)
        fa = scn.farm()
        for t in fa.turbines:
            t.add_model("fuse") if hasattr(t, "add_model") else t.models.append("fuse")
        return scn.algo("Downwind", farm=fa, mbook=mb)

    def body():
        for k in range(2):
            rec.event("calc-fail")
            try:
                farm(True).calc_farm()
                rec.violate(f"calc-no-exception-{name}", f"{name}: exception of a model was lost")
            except Boom:
                pass
            except Exception as x:
                rec.violate(f"calc-exception-{name}", f"{name}: Boom of a model became {type(x).__name__}: {x}")
            now = e.n_procs, e.chunk_size_states, e.chunk_size_points
            rec.check(now == keep, f"engine-settings-{name}", lambda: f"{name}: settings {keep} became {now}")
            g = foxes.core.get_engine(error=False, default=False)
            rec.check(g is e and e.initialized, f"calc-active-{name}", lambda: f"{name}: after a failing calculation the active engine is {g}")
        algo = farm(False)
        res = algo.calc_farm()
        rec.event("calc-after-fail")
        compare(rec, ref, res.drop_vars("fused"), f"calc-after-{name}", what=f"{name} after failure")
        rec.close(res["fused"].to_numpy(), res[FV.REWS].to_numpy(), f"calc-fused-{name}", rtol=1e-12)
        p = algo.calc_points(res, pts)
        compare(rec, pref, p, f"calc-points-{name}", what=f"points by {name} after failure")
        now = e.n_procs, e.chunk_size_states, e.chunk_size_points
        rec.check(now == keep, f"engine-settings-{name}", lambda: f"{name}: settings {keep} became {now}")

    with e:
        body()
    rec.check(not foxes.core.has_engine(), f"calc-left-{name}", f"{name}: engine left active")
    # failure leaving the with-block
    try:
        with e:
            farm(True).calc_farm()
        rec.violate(f"calc-no-exception-{name}", f"{name}: exception of a model was lost")
    except Boom:
        pass
    except Exception as x:
        rec.violate(f"calc-exception-{name}", f"{name}: Boom leaving the with-block became {type(x).__name__}: {x}")
    rec.check(not foxes.core.has_engine(), f"calc-left-{name}", f"{name}: engine left active")
    # selection of the engine by the algorithm
    if name not in ("local_cluster", "ray"):
        kw = {} if name == "single" else dict(n_procs=2, chunk_size_states=cs)
        key = str(rng.choice(["engine", "engine_type"]))
        algo = scn.algo("Downwind", **{key: name}, **kw)
        g = foxes.core.get_engine(error=False, default=False)
        rec.event("algo-engine")
        rec.check(g is not None and type(g) is type(e) and (name == "single" or (g.n_procs, g.chunk_size_states) == (2, cs)), f"algo-engine-{name}", lambda: f"{key}={name}: active engine {g}")
        compare(rec, ref, algo.calc_farm(), f"algo-engine-{name}", what=f"{name} by algorithm")
        foxes.reset_engine()
        rec.check(not foxes.core.has_engine(), f"calc-left-{name}", f"{name}: engine left active after reset_engine")


def k_cluster(spec, rng, rec):
    with new("local_cluster", 2, cluster_pars=dict(dashboard_address=None)) as e:
        check_map(e, "local_cluster", rng, rec, "lc", n=5)
        for x in (new("numpy"), new("xarray")):
            try:
                x.initialize()
                rec.violate("not-refused", "second engine besides a local cluster")
            except ValueError:
                pass
    rec.check(not foxes.core.has_engine(), "calc-left-local_cluster", "local cluster left active")
    rec.event("cluster")
    # other engines in the same session do not need the cluster
    k_calc(dict(spec, i=0), rng, rec, engines=["local_cluster"])
    k_calc(dict(spec, i=spec["i"]), rng, rec, engines=["xarray", "dask"])


def k_ray(spec, rng, rec):
    import sys

    os.environ["PYTHONPATH"] = os.pathsep.join(p for p in sys.path if p)
    os.environ.setdefault("RAY_AUTH_MODE", "disabled")
    os.environ.setdefault("RAY_USAGE_STATS_ENABLED", "0")
    with new("ray", 2) as e:
        check_map(e, "ray", rng, rec, "ray", n=5)
        rec.check(foxes.core.get_engine() is e, "map-active-ray", "ray: not active after map")
    rec.check(not foxes.core.has_engine(), "calc-left-ray", "ray left active")
    rec.event("ray")


def k_files(spec, rng, rec):
    """engines used one after the other, with states that read files during the calculation"""
    sp = random_spec(rng, int(rng.integers(1 << 30)), n_t=(2, 4), n_s=(4, 8), states=("field",), frames=("rotor_wd",))
    mode = ["lazy", "lazy", "fly"][spec["i"] % 3]
    with new("single"):
        ref = Scenario(sp).algo("Downwind").calc_farm()
    scn = Scenario(dict(sp, load_mode=mode))
    pools = ["threads", "process", "multiprocess", "numpy", "single", "dask"]
    seq = [str(rng.choice(["single", "numpy", "threads"])), ["process", "multiprocess"][spec["i"] % 2]]
    seq += [str(rng.choice(pools)) for k in range(int(rng.integers(1, 3)))]
    same = scn.states() if rng.random() < 0.5 else None
    # threads of earlier work in this process do not exist in its child processes
    da.ones(64, chunks=1).sum().compute()
    rec.sig = [mode, seq, same is None]
    for name in seq:
        kw = {} if name == "single" else dict(chunk_size_states=int(rng.integers(1, 5)))
        with new(name, 2, **kw):
            st = same if same is not None else scn.states()
            res = scn.algo("Downwind", states=st).calc_farm()
        rec.event("files-" + mode)
        compare(rec, ref, res, f"files-{mode}-{name}", what=f"{mode} states by {name} after {seq}")
    rec.check(not foxes.core.has_engine(), "calc-left-files", "engine left active")
