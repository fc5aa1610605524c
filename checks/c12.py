"""C12: rotor models average the flow over the rotor disc"""

import numpy as np
import foxes
import foxes.variables as FV
import foxes.constants as FC

from harness.core import rng_of
from harness.scen import Scenario, random_spec, engine_ctx
from harness import ref


def vec(wd):
    a = np.deg2rad(np.asarray(wd, float))
    return np.stack([-np.sin(a), -np.cos(a)], axis=-1)


PROPERTY = "C12"
RULE = (
    "random farm in sheared, veered or horizontally varying flow with a random rotor model; the "
    "rotor results are compared with weighted averages of calc_points results at independently "
    "placed rotor points, and with the integral over the disc; non-trivial when the flow varies "
    "over the rotor"
)
ASSUMES = ["no yaw misalignment", "rotor_points partial wakes for the averages with wakes"]
REQUIRED_EVENTS = ["rotor-averages", "waked-averages", "disc-integrals", "designs", "varying-flow"]
ROTORS = [
    "centre", "grid1", "grid4", "grid9", "grid16", "grid25", "grid64", "level1", "level2", "level3",
    "level5", "level10", "level30", "grid100", "grid4_raw", "grid9_raw", "grid25_raw", "level4_raw", "level7_raw",
]


def cases(tier, seed):
    n = 102 if tier == "quick" else 1020
    out = []
    for i in range(n):
        rng = rng_of(PROPERTY, seed, i)
        sp = dict(
            seed=int(rng.integers(1 << 31)),
            n_t=int(rng.integers(1, 6)),
            n_s=int(rng.integers(1, 6)),
            n_types=int(rng.integers(1, 4)),
            states=["mh", "field", "timeseries"][i % 3],
            layout=str(rng.choice(["random", "row"])),
            rotor=ROTORS[i % len(ROTORS)],
            pwakes="rotor_points",
            wakes=[
                str(rng.choice(["Bastankhah2014", "Bastankhah025", "TurbOPark", "Jensen"]))
                + "_" + str(rng.choice(["linear", "quadratic", "max"]))
                + "_" + str(rng.choice(["k002", "k0075", "ambka04"])),
            ] + ([f"CrespoHernandez_quadratic_k004"] if rng.random() < 0.5 else []),
        )
        if sp["states"] == "timeseries":
            sp["profile"] = str(rng.choice(["abl_log", "abl_neutral", "abl_stable", "shear"]))
        sp["cls"] = str(rng.choice(["Downwind", "Downwind", "Iterative"]))
        # strong veer, with wind from behind in parts of the rotor
        sp["veer"] = bool(sp["states"] == "mh" and i % 6 == 0)
        out.append(sp)
    for r in ROTORS:
        out.append(dict(mode="design", rotor=r, seed=0))
    return out


def run_design(spec, rec):
    """weights and points of the rotor model itself"""
    name = spec["rotor"]
    with engine_ctx("single"):
        algo = Scenario(dict(seed=5, n_t=2, n_s=1, rotor=name)).algo()
        algo.initialize()
        m = algo.rotor_model
        p, w = np.asarray(m.design_points()), np.asarray(m.rotor_point_weights())
        rec.check(m.n_rotor_points() == len(w) == len(p), "design|count", f"{m.n_rotor_points()} {len(w)} {len(p)}")
    q, wq = ref.rotor_points(name)
    rec.event("designs")
    rec.close(w.sum(), 1.0, "design|sum", f"{name}: sum of weights", rtol=1e-12)
    rec.check(np.all(w > 0), "design|positive", f"{name}: weights {w}")
    rec.close(np.einsum("p,pd->d", w, p), 0.0, "design|centred", f"{name}: mean point", atol=1e-9)
    rec.close(p[:, 0], 0.0, "design|plane", f"{name}: axial coordinates")
    # same set of weighted points as the independent construction
    a = sorted(map(tuple, np.round(np.c_[p[:, 1:], w], 2).tolist()))
    o1 = np.lexsort((np.round(p[:, 2], 9), np.round(p[:, 1], 9)))
    o2 = np.lexsort((np.round(q[:, 1], 9), np.round(q[:, 0], 9)))
    if rec.check(len(p) == len(q), "design|number", f"{name}: {len(p)} points, expected {len(q)}"):
        rec.close(p[o1][:, 1:], q[o2], "design|points", f"{name}: points", atol=1e-9)
        rec.close(w[o1], wq[o2], "design|weights", f"{name}: weights", atol=2e-3 if "raw" not in name else 1e-12)
    rec.nontrivial()


def avg(ws, wd, ti, w):
    """ws, wd, ti: (..., p)"""
    u = ws[..., None] * vec(wd)
    U = np.einsum("...pd,p->...d", u, w)
    WD = np.mod(np.rad2deg(np.arctan2(-U[..., 0], -U[..., 1])), 360)
    return U, WD, np.einsum("...p,p->...", ti, w), u


def run(spec, rec):
    if spec.get("mode") == "design":
        return run_design(spec, rec)
    scn = Scenario(spec)
    if spec["veer"]:
        r2 = rng_of("c12veer", spec["seed"])
        v = r2.uniform(60, 170, scn.n_s) * r2.choice([-1, 1], scn.n_s)
        scn.mh_wd = np.mod(scn.mh_wd + v[:, None] * (scn.mh_h[None] - 100) / 60.0, 360)
    q, w = ref.rotor_points(spec["rotor"])
    cls = spec["cls"]
    over = dict(mod_cutin=dict(modify_ct=False, modify_P=False)) if cls == "Iterative" else {}
    D = np.array([scn.types[k]["D"] for k in scn.ttype])
    H = np.array([scn.types[k]["H"] for k in scn.ttype])
    with engine_ctx("numpy", 2, [None, 1, 2][spec["seed"] % 3], None):
        algo = scn.algo(cls, **over)
        fr = algo.calc_farm()
        hub = np.zeros((scn.n_s, scn.n_t, 3))
        hub[:, :, :2] = scn.xy
        hub[:, :, 2] = H
        wd0 = algo.calc_points(fr, hub)[FV.AMB_WD].values
        n = vec(wd0)  # (s, t, 2)
        l = np.stack([-n[..., 1], n[..., 0]], axis=-1)
        P = np.zeros((scn.n_s, scn.n_t, len(w), 3))
        P[..., :2] = (
            scn.xy[None, :, None, :]
            + (D / 2)[None, :, None, None] * q[None, None, :, 0, None] * l[:, :, None]
        )
        P[..., 2] = H[None, :, None] + (D / 2)[None, :, None] * q[None, None, :, 1]
        g = {v: np.zeros(P.shape[:3]) for v in (FV.WS, FV.WD, FV.TI, FV.RHO, FV.AMB_WS, FV.AMB_WD, FV.AMB_TI)}
        for i in range(scn.n_t):
            # switch off turbine i, it does not feel its own wake
            fi = fr.copy(deep=True)
            fi[FV.CT].values[:, i] = 0.0
            pr = algo.calc_points(fi, P[:, i])
            for v in g:
                g[v][:, i] = pr[v].values
        # fine mesh for the integral over the disc of turbine 0
        m = 24
        r = np.sqrt((np.arange(m) + 0.5) / m)
        th = (np.arange(2 * m) + 0.5) * np.pi / m
        a, b = np.meshgrid(r, th, indexing="ij")
        F = np.zeros((scn.n_s, a.size, 3))
        F[..., :2] = scn.xy[0] + D[0] / 2 * (a * np.cos(b)).ravel()[None, :, None] * l[:, 0, None]
        F[..., 2] = H[0] + D[0] / 2 * (a * np.sin(b)).ravel()[None]
        fine = algo.calc_points(fr, F, ambient=True)
    # a turbine may feel others that stand at the same downwind position: none here
    for pre, tol in (("AMB_", 1e-7), ("", 1e-5)):
        U, WD, TI, u = avg(g[pre + "WS"], g[pre + "WD"], g[pre + "TI"], w)
        wsp = np.einsum("stpd,std->stp", u, n)
        want = {
            "REWS": np.maximum(np.einsum("stp,p->st", wsp, w), 0.0),
            "REWS2": np.sqrt(np.maximum(np.einsum("stp,p->st", wsp * np.abs(wsp), w), 0.0)),
            "REWS3": np.cbrt(np.maximum(np.einsum("stp,p->st", wsp**3, w), 0.0)),
            "TI": TI,
            "WD": WD,
        }
        sel = np.ones((scn.n_s, scn.n_t), dtype=bool)
        if pre == "" and scn.kind in ("field", "mh"):
            # judge turbines with clear downwind order only
            o = fr[FV.ORDER].values.astype(int)
            sel[:] = False
            sel[np.arange(scn.n_s), o[:, 0]] = True
            sel[np.arange(scn.n_s), o[:, -1]] = True
            d = np.einsum("sd,td->st", n.mean(axis=1), scn.xy)
            d = np.sort(d, axis=1)
            if scn.n_t > 1:
                # non-uniform directions: neither first nor last ambiguous
                amb = (d[:, 1] - d[:, 0] < 1500) | (d[:, -1] - d[:, -2] < 1500)
                sel[amb] = False
        for v, x in want.items():
            if pre + v not in fr:
                continue
            got = fr[pre + v].values
            d = got - x
            base = g[pre + "WS"] if "REWS" in v else g[pre + v]
            spr = np.ptp(base, axis=2)
            if v == "WD":
                d = np.mod(d + 180, 360) - 180
                spr = np.rad2deg(np.linalg.norm(np.ptp(u, axis=2), axis=-1) / np.linalg.norm(U, axis=-1))
            # area weights of the package are numerical integrals
            t = tol + (0.0 if "raw" in spec["rotor"] or len(w) == 1 else 4e-3) * spr
            rec.check(
                np.all(np.abs(d[sel]) <= t[sel]), f"{pre}{v}",
                lambda: f"{spec['rotor']} {pre}{v} differs from the average over rotor points by up to {np.abs(d[sel]).max()}",
                n=int(sel.sum()),
            )
        rec.event("rotor-averages" if pre else "waked-averages", int(sel.sum()))
    spread = np.ptp(g["AMB_WS"], axis=2).max()
    # the disc integral is approached by area weighted points
    if not spec["rotor"].endswith("_raw") and len(w) >= 4 and not spec["veer"]:
        wsf = fine[FV.AMB_WS].values
        u = wsf[..., None] * vec(fine[FV.AMB_WD].values)
        p = np.einsum("spd,sd->sp", u, n[:, 0])
        k = 1 if spec["rotor"].startswith("level") else 2
        nn = len(w) if k == 1 else int(np.sqrt(len(w)))
        if spec["rotor"].startswith("grid") or scn.kind != "field":
            tol = 0.3 * np.ptp(wsf, axis=1) / nn + 1e-3
            for v, x in (("AMB_REWS", p.mean(axis=1)), ("AMB_REWS3", np.cbrt((p**3).mean(axis=1)))):
                d = np.abs(fr[v].values[:, 0] - x) / tol
                rec.check(np.all(d <= 1), f"disc|{v}", f"{spec['rotor']} {v}: deviation from the disc integral {d.max():.2f} x tolerance", n=d.size)
            rec.event("disc-integrals", scn.n_s)
    if spec["veer"]:
        rec.event("reversed-points", int((np.einsum("stpd,std->stp", g["AMB_WS"][..., None] * vec(g["AMB_WD"]), n) < 0).sum()))
    rec.event("varying-flow", int(spread > 0.05))
    rec.event("rotor:" + spec["rotor"])
    rec.nontrivial(spread > 1e-3 or len(w) == 1)
    rec.sample = dict(spec=spec, spread=float(spread))
