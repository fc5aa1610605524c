"""C02: point results depend only on (state, point), not on engine, chunks, order or subset"""

import numpy as np
import foxes
import foxes.variables as FV
import foxes.constants as FC

from harness.core import rng_of
from harness.scen import Scenario, random_spec, engine_ctx, lighten
from harness import probes

PROPERTY = "C02"
RULE = (
    "random farm/states/models, farm results once, then calc_points for a random point "
    "cloud with several engines/chunkings, permuted points, subsets of points and subsets "
    "of states; non-trivial when some point is in a wake and the run had >= 2 chunks"
)
ASSUMES = ["floating point differences between chunkings stay below rtol 1e-8"]
REQUIRED_EVENTS = ["engine:numpy", "engine:threads", "engine:process", "subset-of-states"]

POOL = ["numpy", "threads", "process", "multiprocess", "dask", "default", "xarray"]


def cases(tier, seed):
    n = 56 if tier == "quick" else 400
    out = []
    for i in range(n):
        rng = rng_of(PROPERTY, seed, i)
        sp = random_spec(
            rng,
            rng.integers(1 << 31),
            states=["timeseries", "table", "mh", "field"],
            n_t=(1, 8),
            n_s=(2, 14),
            frames=("rotor_wd", "rotor_wd", "rotor_wd", "streamlines_100"),
        )
        sp["cls"] = str(rng.choice(["Downwind", "Downwind", "Iterative"]))
        sp["n_p"] = int(rng.choice([1, 2, 7, 23, 40]))
        lighten(sp)
        if i % 7 == 3 and not sp["frame"].startswith("stream"):
            # the wake integral along the centreline must not depend on the other points of the call
            sup = ["linear", "quadratic", "ws_linear_lim", "max"][(i // 7) % 4].replace("ws_", "")
            sp["wakes"] = [f"TurbOParkIX_{sup}_k006_dx{int(rng.integers(35, 95))}", "CrespoHernandez_max_k003"]
            sp["n_p"] = int(rng.choice([7, 23, 40]))
            sp["n_t"] = min(sp["n_t"], 5)
        if sp["frame"].startswith("stream"):
            sp["n_p"] = min(sp["n_p"], 7)
        else:  # reading files at each step of a streamline takes too long
            sp["load_mode"] = ["preload", "fly", "lazy"][i % 3]
        es = []
        for j in range(3):
            e = POOL[(i + j * 2) % len(POOL)] if j else "numpy"
            if e == "xarray" and (sp["states"] == "field" or sp["frame"].startswith("stream")):
                e = "multiprocess"
            es.append(
                [
                    e,
                    int(rng.integers(1, 5)),
                    [None, 1, 2, 3, 5, 1000][rng.integers(0, 6)],
                    [None, 1, 2, 3, 5, 9, 1000][rng.integers(0, 7)],
                ]
            )
        sp["engines"] = es
        out.append(sp)
    for i in range(2 if tier == "quick" else 10):
        rng = rng_of(PROPERTY, seed, "big", i)
        sp = random_spec(rng, rng.integers(1 << 31), states=["timeseries", "table"], n_t=(2, 4), n_s=(2, 9))
        sp["cls"] = "Downwind"
        sp["n_p"] = int(rng.integers(1001, 2300))
        sp["engines"] = [["default", None, None, None], ["threads", 3, None, None], ["process", 4, 2, None], ["numpy", 3, None, 333]]
        out.append(sp)
    return out


def compare(rec, a, b, key, what, drop=()):
    rec.check(
        set(a.data_vars) == set(b.data_vars),
        "variables|" + key,
        f"{what}: variables differ by {sorted(set(a.data_vars) ^ set(b.data_vars))}",
    )
    for v in b.data_vars:
        if v in a and v not in drop:
            x, y = a[v].values, b[v].values
            if x.ndim != y.ndim and v == FV.WEIGHT:
                x = x if x.ndim == 2 else x[:, None]
                y = y if y.ndim == 2 else y[:, None]
            rec.close(x, y, f"points:{v}|{key}", f"{what}: variable {v}", rtol=1e-8, atol=1e-8)


def run(spec, rec):
    scn = Scenario(spec)
    n_p = spec["n_p"]
    pts = scn.points(n_p)
    rng = rng_of("C02run", spec["seed"])
    cls = spec["cls"]
    mb = scn.mbook()
    mb.point_models["pprobe"] = probes.PointProbe()
    with engine_ctx("single"):
        algo = scn.algo(cls, mbook=mb)
        fr = algo.calc_farm()
        p3 = np.tile(pts[None], (scn.n_s, 1, 1))
        ref = algo.calc_points(fr, p3, point_models=["pprobe"])
    wake = float(np.nanmax(np.abs(ref["AMB_WS"].values - ref["WS"].values)))
    echo = pts[:, 0] + 2 * pts[:, 1] + 3 * pts[:, 2]
    rec.close(
        ref["probe_xyh"].values,
        np.broadcast_to(echo[None], (scn.n_s, n_p)),
        "point-order",
        "reference: point model results are assigned to the wrong point",
    )

    # 1. engines and chunk sizes
    for e in spec["engines"]:
        mb = scn.mbook()
        mb.point_models["pprobe"] = probes.PointProbe()
        with engine_ctx(*e):
            algo = scn.algo(cls, mbook=mb)
            algo.calc_farm()
            r = algo.calc_points(fr, p3, point_models=["pprobe"])
        rec.event("engine:" + e[0])
        compare(rec, r, ref, e[0], f"{cls} engine={e}")
        if FC.STATE in ref.coords:
            rec.check(
                FC.STATE in r.coords
                and np.array_equal(r[FC.STATE].values, ref[FC.STATE].values),
                "state-order|" + e[0],
                f"{e}: state coordinate differs",
            )
        if wake > 1e-3 and ((e[3] or 1 << 30) < n_p or (e[2] or 1 << 30) < scn.n_s):
            rec.nontrivial()

    # 2. permuted points
    with engine_ctx("numpy", 2, None, max(1, n_p // 2)):
        perm = rng.permutation(n_p)
        algo = scn.algo(cls)
        algo.calc_farm()
        r = algo.calc_points(fr, p3[:, perm])
        rec.event("permuted-points")
        compare(rec, r, ref.isel(point=perm).drop_vars("probe_xyh"), "perm", "permuted points")

        # 3. point subset
        k = int(rng.integers(1, n_p + 1))
        sub = rng.permutation(n_p)[:k]
        algo = scn.algo(cls)
        algo.calc_farm()
        r = algo.calc_points(fr, p3[:, sub])
        rec.event("subset-of-points")
        compare(rec, r, ref.isel(point=sub).drop_vars("probe_xyh"), "subset", f"{k} of {n_p} points")

        # 4. state subset via the states_isel / states_sel parameters
        k = int(rng.integers(1, scn.n_s + 1))
        ss = rng.permutation(scn.n_s)[:k]
        if rng.random() < 0.5:
            ss = np.sort(ss)
        how = ["isel", "sel"][rng.integers(0, 2)]
        algo = scn.algo(cls)
        algo.calc_farm()
        if how == "isel":
            r = algo.calc_points(fr, p3[ss], states_isel=ss.tolist())
        else:
            r = algo.calc_points(fr, p3[ss], states_sel=fr[FC.STATE].values[ss])
        rec.event("subset-of-states")
        compare(
            rec,
            r,
            ref.isel(state=ss).drop_vars("probe_xyh"),
            "states_" + how,
            f"states {ss.tolist()} by {how}",
        )

        # 5. reduced outputs give the same numbers
        algo = scn.algo(cls)
        algo.calc_farm()
        outs = [str(x) for x in rng.permutation(["WS", "TI", "WD", "AMB_WS", "RHO"])[: rng.integers(1, 4)]]
        r = algo.calc_points(fr, p3, outputs=outs)
        rec.event("reduced-outputs")
        rec.check(
            set(outs) <= set(r.data_vars), "outputs", f"requested {outs}, got {list(r.data_vars)}"
        )
        compare(rec, r[outs], ref[outs], "outputs", f"outputs={outs}")
    rec.sample = dict(spec=spec, max_point_deficit=wake)
