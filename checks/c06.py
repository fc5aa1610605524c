"""C06: results are equivariant under translation, rotation and mirroring"""

import numpy as np
import foxes
import foxes.variables as FV
import foxes.constants as FC

from harness.core import rng_of
from harness.scen import Scenario, random_spec, engine_ctx, lighten
from harness.cmp import compare, max_deficit

PROPERTY = "C06"
RULE = (
    "random scenario with horizontally homogeneous inflow; farm and points are shifted, "
    "rotated together with the wind direction, or mirrored; non-trivial when wakes occur"
)
ASSUMES = [
    "floating point differences of transformed coordinates stay below rtol 1e-6, with cases "
    "sitting on a discontinuity (top hat edge, streamline segment switch) excluded by a retry "
    "at a slightly different angle: only deviations present in all of three tries count"
]
REQUIRED_EVENTS = ["shift", "rotate", "mirror"]


def cases(tier, seed):
    n = 80 if tier == "quick" else 800
    out = []
    for i in range(n):
        rng = rng_of(PROPERTY, seed, i)
        sp = random_spec(
            rng,
            rng.integers(1 << 31),
            states=["timeseries", "table", "mh"],
            n_t=(2, 8),
            n_s=(2, 10),
            frames=("rotor_wd", "rotor_wd", "rotor_wd", "yawed_k004", "yawed_k004", "streamlines_100"),
        )
        sp["cls"] = str(rng.choice(["Downwind", "Downwind", "Iterative"]))
        if rng.random() < 0.6:
            # mirror symmetric rotor discretization
            sp["rotor"] = str(rng.choice(["centre", "level3", "level5"]))
            sp["pwakes"] = str(rng.choice(["rotor_points", "centre", "axiwake5"]))
        lighten(sp)
        sp["yaw"] = bool(rng.random() < 0.5)
        sp["induction"] = str(rng.choice(["", "", "Rathmann", "SelfSimilar", "VortexSheet", "RHB"]))
        if sp["induction"]:
            sp["wakes"] = sp["wakes"] + [sp["induction"]]
            sp["cls"] = "Iterative"
            sp["frame"] = "rotor_wd"
        out.append(sp)
    return out


def calc(scn, spec, xy, states, yaw_sign, p3):
    mb = scn.mbook()
    rng = rng_of("feat", spec["seed"])
    yawm = rng.uniform(-20, 20, (scn.n_s, scn.n_t)) * yaw_sign
    pre = []
    if spec["yaw"]:
        m = foxes.models.turbine_models.SetFarmVars(pre_rotor=True)
        m.add_var(FV.YAWM, yawm)
        mb.turbine_models["set_yawm"] = m
        pre = ["set_yawm", "yawm2yaw"]

    def mod(i, kw):
        kw["turbine_models"] = pre + kw["turbine_models"]
        return kw

    with engine_ctx("single"):
        algo = scn.algo(
            spec["cls"], farm=scn.farm(xy=xy, mod=mod), mbook=mb, states=states
        )
        fr = algo.calc_farm()
        pr = algo.calc_points(fr, p3)
    return fr, pr


def run(spec, rec):
    scn = Scenario(spec)
    pts = scn.points(6)
    rng = rng_of("trafo", spec["seed"])
    tile = lambda p: np.tile(p[None], (scn.n_s, 1, 1))
    fr0, pr0 = calc(scn, spec, scn.xy, scn.states(), 1, tile(pts))
    wake = max_deficit(fr0)

    def once(kind):
        from harness.core import Recorder

        r = Recorder(spec)
        shift = {}
        if kind == "shift":
            d = rng.uniform(-5000, 5000, 2)
            xy = scn.xy + d[None]
            p = pts.copy()
            p[:, :2] += d
            st = scn.states()
            sgn = 1
            shift = {FV.X: d[0], FV.Y: d[1]}
            what = f"shift by {d.tolist()}"
        elif kind == "rotate":
            al = rng.uniform(0, 360)
            c, s = np.cos(np.deg2rad(al)), np.sin(np.deg2rad(al))
            R = np.array([[c, -s], [s, c]])  # counter clockwise by al
            xy = scn.xy @ R.T
            p = pts.copy()
            p[:, :2] = p[:, :2] @ R.T
            st = scn.states(dwd=-al)
            sgn = 1
            shift = {v: -al for v in (FV.WD, FV.AMB_WD, FV.YAW, FV.AMB_YAW)}
            what = f"rotation by {al}"
        else:
            xy = scn.xy * np.array([[1.0, -1.0]])
            p = pts * np.array([[1.0, -1.0, 1.0]])
            st = scn.states(mirror=True)
            sgn = -1
            shift = {v: (lambda y: 180.0 - y) for v in (FV.WD, FV.AMB_WD, FV.YAW, FV.AMB_YAW)}
            for v in (FV.YAWM, FV.AMB_YAWM):
                shift[v] = lambda y: -y
            what = "mirror y -> -y"
        fr, pr = calc(scn, spec, xy, st, sgn, tile(p))
        skip = [] if kind == "shift" else [FV.X, FV.Y]
        tol = dict(rtol=1e-6, atol=1e-6)
        compare(r, fr, fr0, "farm|" + kind, what, skip=skip, shift=shift, **tol)
        compare(r, pr, pr0, "points|" + kind, what, skip=skip, shift=shift, **tol)
        return r

    kinds = ["shift", "rotate"]
    # numerically integrated weights of grid rotors are mirror symmetric up to their
    # resolution only, hence exact mirroring is demanded from the others
    if "grid" not in spec["rotor"] and (
        spec["pwakes"] in ("rotor_points", "centre")
        or (
            spec["pwakes"] == "axiwake5"
            and not spec["induction"]  # else the default grid takes over
            and not spec["wakes"][0].startswith("Bastankhah2016")
        )
    ):
        kinds.append("mirror")
    for kind in kinds:
        rec.event(kind)
        bad = None
        for attempt in range(3):
            r = once(kind)
            for k, n in r.events.items():
                rec.event(k, n)
            keys = {k: m for k, m in r.violations}
            bad = keys if bad is None else {k: m for k, m in bad.items() if k in keys}
            if not bad or kind == "mirror":
                break
        for k, m in (bad or {}).items():
            rec.violate(k, m)
        if wake > 1e-3:
            rec.nontrivial()
    rec.sample = dict(spec=spec, max_deficit=wake)
