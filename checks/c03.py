"""C03: parallel calculations are schedule independent"""

import hashlib
import numpy as np
import foxes
import foxes.variables as FV
import foxes.constants as FC

from harness.core import rng_of
from harness.scen import Scenario, random_spec, engine_ctx
from harness import probes

PROPERTY = "C03"
RULE = (
    "one serial reference, then the same calculation on the threads engine with forced "
    "thread switches inside the package (profile hook sleeping at random calls) and "
    "chunk-dependent delays that reverse or shuffle chunk completion, on the other "
    "engines with chunk delays; non-trivial when >= 2 worker threads alternated or "
    "chunks completed out of order"
)
ASSUMES = [
    "thread interleavings are sampled by injected delays, not enumerated",
    "floating point differences between chunkings stay below rtol 1e-8",
]
REQUIRED_EVENTS = ["yields", "thread-switches", "out-of-order-completions"]
SKIP = {"order_ssel"}
WORKERS = 6


def cases(tier, seed):
    n = 28 if tier == "quick" else 300
    out = []
    for i in range(n):
        rng = rng_of(PROPERTY, seed, i)
        sp = random_spec(
            rng,
            rng.integers(1 << 31),
            states=["timeseries", "table", "mh"],
            n_t=(2, 6),
            n_s=(6, 16),
            frames=("rotor_wd", "rotor_wd", "yawed_k004"),
            rotors=("centre", "grid4", "level3"),
        )
        sp["cls"] = str(rng.choice(["Downwind", "Downwind", "Iterative"]))
        sp["tm"] = int(rng.integers(0, 2))
        sp["n_p"] = int(rng.integers(4, 16))
        sp["runs"] = [
            ["threads", int(rng.integers(2, 9)), int(rng.integers(1, 4)), int(rng.integers(1, 5)), j]
            for j in range(3)
        ]
        e = ["process", "multiprocess", "dask", "numpy"][i % 4]
        sp["runs"].append([e, int(rng.integers(2, 5)), int(rng.integers(1, 4)), int(rng.integers(2, 9)), 9])
        out.append(sp)
    return out


def calc(scn, spec, engine, delays, p3):
    mb = scn.mbook()
    mb.turbine_models["delay"] = probes.DelayModel(delays)
    mb.point_models["pdelay"] = probes.DelayPoints(delays)
    mb.turbine_models["probe"] = probes.ProbeModel()
    rng = rng_of("tm", spec["seed"])
    pre = ["delay", "probe"]
    if spec["tm"]:
        m = foxes.models.turbine_models.SetFarmVars(pre_rotor=True)
        m.add_var(FV.YAWM, rng.uniform(-20, 20, (scn.n_s, scn.n_t)))
        mb.turbine_models["set_yawm"] = m
        pre += ["set_yawm", "yawm2yaw"]

    def mod(i, kw):
        kw["turbine_models"] = pre + kw["turbine_models"]
        return kw

    with engine_ctx(*engine):
        algo = scn.algo(spec["cls"], farm=scn.farm(mod=mod), mbook=mb)
        fr = algo.calc_farm()
        pr = algo.calc_points(fr, p3, point_models=["pdelay"])
    return fr, pr


def run(spec, rec):
    scn = Scenario(spec)
    pts = scn.points(spec["n_p"])
    p3 = np.tile(pts[None], (scn.n_s, 1, 1))
    fr0, pr0 = calc(scn, spec, ("single",), [0.0], p3)
    wake = float(np.max(np.abs(fr0["AMB_REWS"].values - fr0["REWS"].values)))
    sigs = []
    for e in spec["runs"]:
        rng = rng_of("delays", spec["seed"], e)
        probes.reset()
        mode = ["reverse", "random", "alternate"][rng.integers(0, 3)]
        n = scn.n_s
        delays = {
            "reverse": np.linspace(0.02, 0.0, n),
            "random": rng.uniform(0, 0.015, n),
            "alternate": np.where(np.arange(n) % 2 == 0, 0.015, 0.0),
        }[mode].tolist()
        with probes.SchedulePerturber(rng.integers(1 << 31)) as sp:
            fr, pr = calc(scn, spec, e[:4], delays, p3)
        rec.event("engine:" + e[0])
        rec.event("yields", sp.yields)
        rec.event("thread-switches", len(sp.seq))
        seq = [(x[0], x[2]) for x in probes.LOG if x[0] in ("start", "end")]
        ends = [i for k, i in seq if k == "end"]
        ooo = sum(1 for a, b in zip(ends, ends[1:]) if b < a)
        if e[0] == "threads":
            rec.event("out-of-order-completions", ooo)
            s = sp.signature()
            h = hashlib.sha1(repr((s, seq)).encode()).hexdigest()[:10]
            sigs.append(h)
            if wake > 1e-3 and (len(s) > 2 or ooo):
                rec.nontrivial()
            rec.event("distinct-interleavings", 1)
        for name, a, b in (("farm", fr, fr0), ("points", pr, pr0)):
            rec.check(
                set(a.data_vars) == set(b.data_vars),
                "variables|" + e[0],
                f"{e}: {name} variables differ",
            )
            if FC.STATE in b.coords:
                rec.close(
                    a[FC.STATE].values, b[FC.STATE].values, "state-order|" + e[0], f"{e} {name}"
                )
            for v in b.data_vars:
                if v in SKIP or v not in a:
                    continue
                x, y = a[v].values, b[v].values
                if x.ndim != y.ndim and v == FV.WEIGHT:
                    # with one point per chunk the weights keep the point dimension
                    x = x if x.ndim == 2 else x[:, None]
                    y = y if y.ndim == 2 else y[:, None]
                rec.close(
                    x,
                    y,
                    f"{name}:{v}|{e[0]}",
                    f"{spec['cls']} {e} delays={mode}: {name} variable {v}",
                    rtol=1e-8,
                    atol=1e-8,
                )
    rec.sig = [spec["seed"], sigs]
    rec.sample = dict(spec=spec, interleaving_hashes=sigs, max_deficit=wake)
