"""C01: farm results do not depend on the engine, chunk sizes or worker count"""

import numpy as np
import foxes
import foxes.variables as FV

from harness.core import rng_of
from harness.scen import Scenario, random_spec, engine_ctx, lighten
from harness import probes

PROPERTY = "C01"
RULE = (
    "random farm/states/model choice, one single-chunk reference run, then the same "
    "calculation with several (engine, n_procs, chunk_size_states, chunk_size_points); "
    "non-trivial when the partition had >= 2 chunks and some turbine was in a wake"
)
ASSUMES = [
    "floating point differences between chunkings stay below rtol 1e-8",
    "order_ssel is chunk-local bookkeeping and excluded",
]
REQUIRED_EVENTS = ["engine:numpy", "engine:threads", "engine:process", "states-monitored", "moved"]

POOL = ["numpy", "threads", "process", "multiprocess", "dask", "default", "xarray"]
SKIP = {"order_ssel"}


def cases(tier, seed):
    n = 72 if tier == "quick" else 500
    out = []
    for i in range(n):
        rng = rng_of(PROPERTY, seed, i)
        frames = ("rotor_wd", "rotor_wd", "yawed_k004", "streamlines_100")
        sp = random_spec(
            rng,
            rng.integers(1 << 31),
            states=["timeseries", "table", "mh", "field"],
            n_s=(2, 16),
            frames=frames,
        )
        sp["cls"] = str(rng.choice(["Downwind", "Downwind", "Iterative"]))
        sp["tm"] = int(rng.integers(0, 3))
        sp["move"] = bool(rng.random() < 0.2) and not sp["frame"].startswith("stream")
        lighten(sp)
        if not sp["frame"].startswith("stream"):
            sp["load_mode"] = ["preload", "fly", "lazy"][i % 3]
        es = []
        for j in range(3):
            e = POOL[(i + j * 2) % len(POOL)] if j else "numpy"
            if e == "xarray" and sp["states"] == "field":
                e = "multiprocess"
            es.append(
                [
                    e,
                    int(rng.integers(1, 5)),
                    [None, 1, 2, 3, 5, 7, 1000][rng.integers(0, 7)],
                    [None, 1, 3, 1000][rng.integers(0, 4)],
                ]
            )
        sp["engines"] = es
        out.append(sp)
    # heavier engines, a few cases only
    heavy = ["local_cluster"] if tier == "quick" else ["local_cluster", "ray", "mpi"] * 3
    for i, e in enumerate(heavy):
        rng = rng_of(PROPERTY, seed, "heavy", i)
        sp = random_spec(rng, rng.integers(1 << 31), states=["timeseries", "table"], n_s=(4, 9))
        sp["cls"] = "Downwind" if i % 2 == 0 else "Iterative"
        sp["tm"] = 0
        sp["engines"] = [[e, 2, 3, 2]]
        out.append(sp)
    # engine default chunking with many states
    for i in range(2 if tier == "quick" else 12):
        rng = rng_of(PROPERTY, seed, "many", i)
        sp = random_spec(rng, rng.integers(1 << 31), states=["timeseries", "table"], n_t=(2, 5), n_s=(501, 700))
        sp["cls"] = "Downwind"
        sp["tm"] = 0
        sp["engines"] = [["default", None, None, None], ["process", 3, None, None], ["threads", 4, 77, None]]
        out.append(sp)
    return out


def build(scn, spec):
    """farm, states, model book incl. turbine models with per state selections and data"""
    mb = scn.mbook()
    mb.turbine_models["probe"] = probes.ProbeModel()
    rng = rng_of("tm", spec["seed"])
    tmods = {i: ["probe"] for i in range(scn.n_t)}
    post = {i: [] for i in range(scn.n_t)}
    sels = {}
    if spec["tm"] >= 1:
        yawm = rng.uniform(-20, 20, (scn.n_s, scn.n_t))
        m = foxes.models.turbine_models.SetFarmVars(pre_rotor=True)
        m.add_var(FV.YAWM, yawm)
        mb.turbine_models["set_yawm"] = m
        for i in range(scn.n_t):
            tmods[i] += ["set_yawm", "yawm2yaw"]
    if spec["tm"] >= 2:
        m = foxes.models.turbine_models.SetFarmVars(pre_rotor=False)
        mp = rng.uniform(500, 3000, (scn.n_s, scn.n_t))
        m.add_var(FV.MAX_P, mp)
        mb.turbine_models["set_mp"] = m
        for i in range(scn.n_t):
            if rng.random() < 0.6:
                post[i] += ["set_mp", "PMask"]
                sels[i] = rng.random(scn.n_s) < 0.5

    if spec.get("move"):
        m = foxes.models.turbine_models.SetFarmVars(pre_rotor=True)
        m.add_var(FV.Y, scn.xy[:, 1] + rng.uniform(-300, 300, (scn.n_s, scn.n_t)))
        m.add_var(FV.D, rng.uniform(100, 130, (scn.n_s, scn.n_t)))
        mb.turbine_models["set_yd"] = m
        for i in range(scn.n_t):
            tmods[i] = ["set_yd"] + tmods[i]

    def mod(i, kw):
        base = [b for b in kw["turbine_models"]]
        kw["turbine_models"] = tmods[i] + base + post[i]
        if i in sels:
            kw["models_state_sel"] = [None] * (len(tmods[i]) + len(base)) + [sels[i], sels[i]]
        return kw

    return scn.farm(mod=mod), scn.states(), mb


def calc(scn, spec, engine):
    with engine_ctx(*engine):
        farm, states, mb = build(scn, spec)
        algo = scn.algo(spec["cls"], farm=farm, states=states, mbook=mb)
        fr = algo.calc_farm()
    return fr


def run(spec, rec):
    scn = Scenario(spec)
    if spec.get("move"):
        rec.event("moved")
    probes.reset()
    ref = calc(scn, spec, ("single",))
    wake = float(np.max(np.abs(ref["AMB_REWS"].values - ref["REWS"].values)))
    states = ref["state"].to_numpy() if "state" in ref.coords else None
    rec.check(
        states is None or len(np.unique(states)) == scn.n_s, "ref-states", "duplicate states"
    )
    for e in spec["engines"]:
        probes.reset()
        fr = calc(scn, spec, e)
        rec.event(f"engine:{e[0]}")
        key = f"{e[0]}"
        rec.check(
            set(fr.data_vars) == set(ref.data_vars),
            "variables|" + key,
            f"{e}: variables {sorted(set(fr.data_vars) ^ set(ref.data_vars))}",
        )
        if states is not None:
            rec.check(
                "state" in fr.coords and np.array_equal(fr["state"].to_numpy(), states),
                "state-order|" + key,
                f"{e}: state coordinate differs",
            )
        for v in ref.data_vars:
            if v in SKIP or v not in fr:
                continue
            a = fr[v].values
            b = ref[v].values
            if v == FV.WEIGHT and a.ndim != b.ndim:
                # the xarray engine adds the turbine dimension
                a = a if a.ndim == 2 else a[:, None]
                b = b if b.ndim == 2 else b[:, None]
            # the wake sweep of an iterative calculation stops by tolerance
            rec.close(
                a,
                b,
                f"farm:{v}|{key}",
                f"{spec['cls']} engine={e}: variable {v}",
                rtol=1e-8,
                atol=1e-8,
            )
        # which states were seen by the models, from inside the calculation
        log = [x for x in probes.LOG if x[0] == "farm"]
        if log and e[0] in ("numpy", "threads", "single", "dask"):
            seen = [s for x in log for s in x[2]]
            rec.event("chunks-monitored", len(log))
            rec.event("states-monitored", len(seen))
            rec.event("threads-seen", len({x[1] for x in log}))
            names, counts = np.unique(list(map(str, seen)), return_counts=True)
            want = states.tolist() if states is not None else range(scn.n_s)
            rec.check(
                sorted(names) == sorted(map(str, want)) and len(set(counts)) == 1,
                "equally-often|" + key,
                f"{e}: states processed {dict(zip(names, counts))}, expected each of {scn.n_s} equally often",
            )
            if len(log) > 1 and wake > 1e-3:
                rec.nontrivial()
        elif wake > 1e-3 and e[2] is not None and e[2] < scn.n_s:
            rec.nontrivial()
    rec.sig = [scn.n_t, scn.n_s, spec["wakes"], spec["engines"], spec["seed"]]
    rec.sample = dict(spec=spec, max_deficit=wake)
