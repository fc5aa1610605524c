"""C05: states are independent of each other"""

import numpy as np
import foxes
import foxes.variables as FV
import foxes.constants as FC

from harness.core import rng_of
from harness.scen import Scenario, random_spec, engine_ctx, lighten
from harness.cmp import compare, max_deficit

PROPERTY = "C05"
RULE = (
    "random scenario calculated for all states, then for random subsets, permutations and "
    "repetitions of the states rows, comparing farm and point results state by state; "
    "non-trivial when wakes occur and the selection is a proper one"
)
ASSUMES = [
    "iterative results are compared within 1e-4 since the number of sweeps is common to all states"
]
REQUIRED_EVENTS = ["subset", "permuted", "repeated", "single-state", "calm", "moved"]


def cases(tier, seed):
    n = 64 if tier == "quick" else 600
    out = []
    for i in range(n):
        rng = rng_of(PROPERTY, seed, i)
        sp = random_spec(
            rng,
            rng.integers(1 << 31),
            states=["timeseries", "table", "mh", "field"],
            n_t=(2, 8),
            n_s=(3, 12),
            frames=("rotor_wd", "rotor_wd", "rotor_wd", "yawed_k004", "streamlines_100"),
        )
        sp["cls"] = str(rng.choice(["Downwind", "Downwind", "Downwind", "Iterative"]))
        lighten(sp)
        if sp["n_s"] < 2:
            sp["n_s"] = 2
        sp["yaw"] = bool(rng.random() < 0.4)
        sp["sel"] = bool(rng.random() < 0.4)
        sp["move"] = bool(rng.random() < 0.25) and not sp["frame"].startswith("stream")
        sp["calm"] = bool(rng.random() < 0.4) and sp["states"] in ("timeseries", "table")
        sp["eng"] = [["single"], ["numpy", 2, 2, None], ["numpy", 2, 1, 3]][rng.integers(0, 3)]
        out.append(sp)
    return out


def calc(scn, spec, sel, p3):
    mb = scn.mbook()
    rng = rng_of("feat", spec["seed"])
    yawm = rng.uniform(-20, 20, (scn.n_s, scn.n_t))
    sels = rng.random((scn.n_t, scn.n_s)) < 0.6
    mp = rng.uniform(500, 4000, (scn.n_s, scn.n_t))
    pre = []
    if spec["move"]:  # positions and sizes for each state
        m = foxes.models.turbine_models.SetFarmVars(pre_rotor=True)
        m.add_var(FV.X, (scn.xy[:, 0] + rng.uniform(-300, 300, (scn.n_s, scn.n_t)))[sel])
        m.add_var(FV.H, rng.uniform(95, 130, (scn.n_s, scn.n_t))[sel])
        mb.turbine_models["set_xh"] = m
        pre = ["set_xh"]
    if spec["yaw"]:
        m = foxes.models.turbine_models.SetFarmVars(pre_rotor=True)
        m.add_var(FV.YAWM, yawm[sel])
        mb.turbine_models["set_yawm"] = m
        pre = pre + ["set_yawm", "yawm2yaw"]
    if spec["sel"]:
        m = foxes.models.turbine_models.SetFarmVars(pre_rotor=False)
        m.add_var(FV.MAX_P, mp[sel])
        mb.turbine_models["set_mp"] = m

    def mod(i, kw):
        mods = pre + kw["turbine_models"]
        ss = [None] * len(mods)
        if spec["sel"] and i % 2 == 0:
            mods = mods + ["set_mp", "PMask"]
            ss += [sels[i][sel], sels[i][sel]]
        kw["turbine_models"] = mods
        kw["models_state_sel"] = ss
        return kw

    with engine_ctx(*spec["eng"]):
        algo = scn.algo(spec["cls"], farm=scn.farm(mod=mod), mbook=mb, states=scn.states(sel=sel))
        fr = algo.calc_farm()
        pr = algo.calc_points(fr, p3[: len(sel)])
    return fr, pr


def run(spec, rec):
    scn = Scenario(spec)
    if spec["calm"]:
        # some states below cut-in or above cut-out: turbines that stand still
        k = rng_of("calm", spec["seed"]).integers(0, scn.n_s)
        scn.ws[k] = 1.5
        scn.ws[(k + 1) % scn.n_s] = 28.0
        rec.event("calm")
    if spec["move"]:
        rec.event("moved")
    pts = scn.points(5)
    p3 = np.tile(pts[None], (2 * scn.n_s, 1, 1))
    rng = rng_of("selections", spec["seed"])
    n = scn.n_s
    fr0, pr0 = calc(scn, spec, np.arange(n), p3)
    wake = max_deficit(fr0)
    tol = dict(rtol=1e-8, atol=1e-8) if spec["cls"] == "Downwind" else dict(rtol=1e-4, atol=1e-4)
    k = int(rng.integers(1, n))
    todo = {
        "subset": np.sort(rng.permutation(n)[:k]),
        "single-state": np.array([rng.integers(0, n)]),
    }
    if spec["states"] not in ("field",):
        todo["permuted"] = rng.permutation(n)
        todo["repeated"] = rng.integers(0, n, n)
    drop = ["weight"]
    for name, sel in todo.items():
        if name == "repeated" and spec["states"] == "table":
            sel = np.unique(sel)  # the state index has to be unique here
        fr, pr = calc(scn, spec, sel, p3)
        rec.event(name)
        a = fr.drop_vars([c for c in (FC.STATE,) if c in fr.coords])
        b = fr0.drop_vars([c for c in (FC.STATE,) if c in fr0.coords]).isel(state=sel)
        compare(rec, a, b, "farm|" + name, f"{spec['cls']} states {sel.tolist()}", skip=drop, **tol)
        a = pr.drop_vars([c for c in (FC.STATE,) if c in pr.coords])
        b = pr0.drop_vars([c for c in (FC.STATE,) if c in pr0.coords]).isel(state=sel)
        compare(rec, a, b, "points|" + name, f"{spec['cls']} states {sel.tolist()}", skip=drop, **tol)
        if FC.STATE in fr0.coords:
            rec.close(
                fr[FC.STATE].values, fr0[FC.STATE].values[sel], "labels", f"state labels {name}"
            )
        # weights: tables carry their own, otherwise all states count the same
        w = np.atleast_2d(fr[FV.WEIGHT].values.T).T[:, 0]
        if spec["states"] == "table":
            rec.close(w, scn.weight[sel], "weights", f"table weights {name}")
        else:
            rec.close(w, np.full(len(sel), 1 / len(sel)), "weights", f"uniform weights {name}")
        if wake > 1e-3:
            rec.nontrivial()
    rec.sample = dict(spec=spec, max_deficit=wake)
