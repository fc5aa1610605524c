"""C04: results do not depend on the order in which turbines are added"""

import numpy as np
import foxes
import foxes.variables as FV
import foxes.constants as FC

from harness.core import rng_of
from harness.scen import Scenario, random_spec, engine_ctx, lighten
from harness.cmp import compare, max_deficit

PROPERTY = "C04"
RULE = (
    "random heterogeneous farm (types, hub heights, per-turbine model lists with state "
    "selections and per-turbine data), calculated with the turbines in two or more orders; "
    "non-trivial when the order really changed and there are wakes"
)
ASSUMES = ["no two turbines at exactly equal downwind distance with mutual influence"]
REQUIRED_EVENTS = ["orders", "mixed-types", "per-turbine-data"]


def cases(tier, seed):
    n = 72 if tier == "quick" else 600
    out = []
    for i in range(n):
        rng = rng_of(PROPERTY, seed, i)
        sp = random_spec(
            rng,
            rng.integers(1 << 31),
            states=["timeseries", "table", "mh", "field"],
            n_t=(2, 9),
            n_s=(2, 10),
            frames=("rotor_wd", "rotor_wd", "rotor_wd", "yawed_k004", "streamlines_100"),
        )
        sp["cls"] = str(rng.choice(["Downwind", "Downwind", "Iterative"]))
        lighten(sp)
        sp["feat"] = [str(x) for x in rng.permutation(["yaw", "mask", "ctsel", "none"])[:2]]
        sp["cs"] = [None, 1, 3][rng.integers(0, 3)]
        out.append(sp)
    return out


def calc(scn, spec, order, p3):
    """builds everything in the given turbine order"""
    mb = scn.mbook()
    rng = rng_of("feat", spec["seed"])
    n_s, n_t = scn.n_s, scn.n_t
    yawm = rng.uniform(-20, 20, (n_s, n_t))
    mp = rng.uniform(500, 4000, (n_s, n_t))
    kct = rng.uniform(0.3, 0.8, (n_s, n_t))
    sels = rng.random((n_t, n_s)) < 0.6
    has_mask = rng.random(n_t) < 0.6
    has_ct = rng.random(n_t) < 0.6
    pre = []
    o = np.asarray(order)
    if "yaw" in spec["feat"]:
        m = foxes.models.turbine_models.SetFarmVars(pre_rotor=True)
        m.add_var(FV.YAWM, yawm[:, o])
        mb.turbine_models["set_yawm"] = m
        pre = ["set_yawm", "yawm2yaw"]
    if "mask" in spec["feat"]:
        m = foxes.models.turbine_models.SetFarmVars(pre_rotor=False)
        m.add_var(FV.MAX_P, mp[:, o])
        mb.turbine_models["set_mp"] = m
    if "ctsel" in spec["feat"]:
        m = foxes.models.turbine_models.SetFarmVars(pre_rotor=False)
        m.add_var(FV.CT, kct[:, o])
        mb.turbine_models["set_ct"] = m

    def mod(i, kw):
        mods = pre + kw["turbine_models"]
        sel = [None] * len(mods)
        if "mask" in spec["feat"] and has_mask[i]:
            mods = mods + ["set_mp", "PMask"]
            sel += [sels[i], sels[i]]
        if "ctsel" in spec["feat"] and has_ct[i]:
            mods = mods + ["set_ct"]
            sel += [sels[i]]
        kw["turbine_models"] = mods
        kw["models_state_sel"] = sel
        return kw

    with engine_ctx("numpy", 2, spec["cs"], None):
        algo = scn.algo(spec["cls"], farm=scn.farm(order=order, mod=mod), mbook=mb)
        fr = algo.calc_farm()
        pr = algo.calc_points(fr, p3)
    return fr, pr


def run(spec, rec):
    scn = Scenario(spec)
    pts = scn.points(6)
    p3 = np.tile(pts[None], (scn.n_s, 1, 1))
    rng = rng_of("orders", spec["seed"])
    fr0, pr0 = calc(scn, spec, np.arange(scn.n_t), p3)
    wake = max_deficit(fr0)
    if len(set(scn.ttype.tolist())) > 1:
        rec.event("mixed-types")
    if spec["feat"] != ["none"]:
        rec.event("per-turbine-data")
    orders = [np.arange(scn.n_t)[::-1], rng.permutation(scn.n_t)]
    for o in orders:
        fr, pr = calc(scn, spec, o, p3)
        rec.event("orders")
        compare(rec, fr, fr0, "farm", f"{spec['cls']} turbine order {o.tolist()}", perm=o)
        names = [f"WT_{i:03d}" for i in o]
        rec.check(
            fr[FC.TNAME].values.tolist() == names,
            "names",
            f"turbine names {fr[FC.TNAME].values.tolist()} expected {names}",
        )
        compare(rec, pr, pr0, "points", f"{spec['cls']} turbine order {o.tolist()}", rtol=1e-7)
        if wake > 1e-3 and not np.array_equal(o, np.arange(scn.n_t)):
            rec.nontrivial()
    rec.sample = dict(spec=spec, max_deficit=wake)
