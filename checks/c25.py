"""C25: induction (blockage) models and wake mirrors"""

import numpy as np
import foxes
import foxes.variables as FV
import foxes.constants as FC

from harness.core import rng_of
from harness.scen import Scenario, engine_ctx
from harness import ref
from checks.c10 import ref_turbine, amb_fun

PROPERTY = "C25"
RULE = (
    "random farms with an induction model of random parameters and superposition, with and without wake models and "
    "wake mirrors, downwind and iterative algorithms; wind speed and direction at random points and at all rotors "
    "compared with the published formulas, evaluated with the observed thrust and wind speed of the turbines; "
    "non-trivial when induction effects were compared"
)
ASSUMES = ["published formulas as written in checks/c25.py and harness/ref.py"]
REQUIRED_EVENTS = [
    "points-upstream", "points-speedup", "farm-effects", "mirrored", "with-wakes", "iterative", "downwind",
    "RHB", "VortexSheet", "Rathmann", "SelfSimilar", "SelfSimilar2020", "deflected",
]
KINDS = ["RHB", "VortexSheet", "Rathmann", "SelfSimilar", "SelfSimilar2020"]
SUPS = [
    None, "linear", "linear_amb", "linear_loc", "linear_lim", "linear_amb_lim", "linear_loc_lim", "product", "product_lim",
]
WAKES = ["Jensen_linear_k007", "Bastankhah2014_linear_k004", "Bastankhah2014_quadratic_amb_k002", "Jensen_product_k004", "Bastankhah025_linear_loc_ambka04"]
FRAME_ROT = ["centre", "centre", "centre", "grid4", "level3"]


def cases(tier, seed):
    n = 300 if tier == "quick" else 6000
    out = []
    for i in range(n):
        rng = rng_of(PROPERTY, seed, i)
        k = KINDS[i % len(KINDS)]
        sp = dict(
            seed=int(rng.integers(1 << 31)),
            n_t=int(rng.integers(1, 6)),
            n_s=int(rng.integers(1, 6)),
            n_types=int(rng.integers(1, 3)),
            states=str(rng.choice(["timeseries", "table"])),
            box=float(rng.uniform(2.2, 3.5)),
            kind=k,
            sup=SUPS[int(rng.integers(0, len(SUPS)))] if k != "RHB" else None,
            ind=str(rng.choice(["Madsen", "Betz"])),
            own=bool(rng.random() < 0.6),
            pre_only=bool(rng.random() < 0.3),
            gamma=float(np.round(rng.uniform(1.0, 1.12), 3)),
            rotor=str(rng.choice(FRAME_ROT)),
        )
        if rng.random() < 0.4:
            sp["profile"] = "shear"
        if not sp["own"]:
            sp.update(ind="Madsen", pre_only=False, gamma=1.1)
        w = []
        if rng.random() < 0.45:
            w = [WAKES[int(q)] for q in rng.permutation(len(WAKES))[: int(rng.integers(1, 3))]]
        first = bool(rng.random() < 0.5)
        sp["wk"] = w
        sp["first"] = first
        sp["cls"] = "Iterative" if w or rng.random() < 0.6 else "Downwind"
        sp["ground"] = [None, None, "ground_mirror", "blh_mirror_h500"][int(rng.integers(0, 4))]
        out.append(sp)
    return out


# ------------------------------------------------ published formulas
def mu(x):
    return 1 + x / np.sqrt(1 + x * x)


def shape_self_similar(kind, x, r, ct, gamma, ind):
    """x upstream negative, in units of R"""
    if kind == "SelfSimilar":
        a = ref.ct2a(ind, gamma * ct)
        rh = np.sqrt(0.587 * (1.32 + x * x))
    else:
        q = min(max(-abs(x), -6.0), -1.0)
        c = (mu(q) - mu(-1.0)) / (mu(-6.0) - mu(-1.0))
        far = -0.06489 * np.sin((ct - 0.4911) / 0.1577) + 1.116
        near = ((-1.381 * ct + 2.627) * ct - 1.524) * ct + 1.336
        a = ref.ct2a(ind, (c * far + (1 - c) * near) * ct)
        rh = 0.4897 - 0.672 * x
    return a * mu(x) / np.cosh(np.sqrt(2) * r / rh) ** (8 / 9)


def relative(sp, x, r, ct, R):
    """relative change of wind speed at downstream distance x and radius r (arrays)"""
    out = np.zeros(len(x))
    for i in range(len(x)):
        X, q = x[i] / R, r[i] / R
        if ct <= 1e-8:
            continue
        if X > 1e-12:
            if sp["pre_only"] or q <= 1:
                continue
            sign, X = 1.0, -X
        else:
            sign, X = -1.0, min(X, 0.0)
        if sp["kind"] == "VortexSheet":
            d = np.hypot(X, q)
            v = ref.ct2a(sp["ind"], ct) * (1 - d / np.sqrt(1 + d * d))
        elif sp["kind"] == "Rathmann":
            s2 = 2 * X / np.sqrt((X**2 + (q - 1) ** 2) * (X**2 + (q + 1) ** 2))
            sa = np.sqrt(max(0.5 * (1 - np.sqrt(max(1 - s2 * s2, 0.0))), 0.0))
            v = ref.ct2a(sp["ind"], ct) * mu(X) * sa / np.sqrt(X**2 + q**2 + 1) * (1 + X**2)
        else:
            v = shape_self_similar(sp["kind"], X, q, ct, sp["gamma"], sp["ind"])
        out[i] = sign * v
    return out


def half_body(sp, x, y, z, src):
    """velocity components along and across of the source flow, and a flag for points close to a boundary"""
    a = ref.ct2a(sp["ind"], src["CT"])
    R = src["D"] / 2
    u, v, skip = np.zeros(len(x)), np.zeros(len(x)), np.zeros(len(x), bool)
    if src["CT"] <= 1e-8:
        return u, v, skip
    q = 0.5 * src["REWS"] * a * R * R  # source strength over 4 pi
    xs = -R * np.sqrt(a / 2)  # stagnation point: q / xs^2 = REWS
    for i in range(len(x)):
        d = np.sqrt(x[i] ** 2 + y[i] ** 2 + z[i] ** 2)
        r2 = y[i] ** 2 + z[i] ** 2
        # stream function on the surface of the body: r^2 = 2 q / U (1 + cos)
        f = (x[i] / d if d > 0 else 1.0) + 1 - r2 * src["REWS"] / (2 * q)
        skip[i] = abs(f) < 1e-5 or abs(x[i] - xs) < 1e-5 * R or abs(x[i]) < 1e-7
        if f < 0 or x[i] < xs:
            u[i], v[i] = q * x[i] / d**3, q * y[i] / d**3
        elif x[i] <= 0:
            u[i] = -q / xs**2
    return u, v, skip


class Farm:
    """one state, from observed turbine values"""

    def __init__(self, sp, r, order):
        self.sp, self.r = sp, r

    def at(self, P, sources, W):
        """WS, WD at points P (n,3), with wakes W (list of WakeSpec), skip flags"""
        sp, r = self.sp, self.r
        n = len(P)
        amb = r.amb_ws(P[:, 2])
        ws = amb.copy()
        wd = np.full(n, r.wd)
        skip = np.zeros(n, bool)
        X, Y = P[:, :2] @ r.n, P[:, :2] @ r.m
        for w in W:
            acc = np.zeros(n)
            for s in sources:
                for h in r.heights(s):
                    x0, y0, xx, yy = self.local(s, P)
                    d, m = np.zeros(n), np.zeros(n, bool)
                    for i in range(n):
                        a, b = w.eval(xx[i], np.array([yy[i]]), np.array([P[i, 2] - h]), s)
                        d[i], m[i] = a[0], b[0]
                    acc = ref.sup_ws(w.sup, d, m, s, acc)
            ws = ws + ref.fin_ws(w.sup, acc, amb)
        acc = np.zeros(n)
        U, V = np.zeros(n), np.zeros(n)
        for s in sources:
            for h in r.heights(s):
                x0, y0, xx, yy = self.local(s, P)
                z = P[:, 2] - h
                skip |= np.abs(xx) < 1e-6
                if sp["kind"] == "RHB":
                    u, v, sk = half_body(sp, xx, yy, z, s)
                    U, V, skip = U + u, V + v, skip | sk
                else:
                    q = np.hypot(yy, z)
                    d = relative(sp, xx, q, s["CT"], s["D"] / 2)
                    skip |= (np.abs(q - s["D"] / 2) < 1e-6) & (xx > 0)
                    acc = ref.sup_ws(sp["sup"] or "linear", d, np.ones(n, bool), s, acc)
        if sp["kind"] == "RHB":
            uv = (amb + U)[:, None] * r.n + V[:, None] * r.m
            q = np.hypot(uv[:, 0], uv[:, 1])
            skip |= q < 0.01  # stagnation, no wind direction
            ws = ws + q - amb
            wd = np.mod(np.rad2deg(np.arctan2(-uv[:, 0], -uv[:, 1])), 360)
        elif sp["sup"] is None:
            ws = ws + acc
        else:
            ws = ws + ref.fin_ws(sp["sup"], acc, amb)
        return ws, wd, amb, skip

    def local(self, s, P):
        n = ref.wd2vec(s["WD"])
        m = np.array([-n[1], n[0]])
        d = P[:, :2] - np.array([s["x"], s["y"]])
        return 0, 0, d @ n, d @ m


def dang(a, b):
    return (np.asarray(a) - np.asarray(b) + 180) % 360 - 180


def run(spec, rec):
    scn = Scenario(spec)
    rng = rng_of("c25", spec["seed"])
    if scn.n_s > 2:
        scn.ws[0] = 1.0  # no thrust
    mb = scn.mbook()
    k = spec["kind"]
    name = k if spec["sup"] is None else f"{k}_{spec['sup']}"
    if spec["own"]:
        C = getattr(foxes.models.wake_models.induction, "RankineHalfBody" if k == "RHB" else k)
        kw = dict(induction=spec["ind"])
        if k != "RHB":
            kw["pre_rotor_only"] = spec["pre_only"]
            if spec["sup"] is not None:
                kw["superposition"] = "ws_" + spec["sup"]
        if k.startswith("SelfSimilar"):
            kw["gamma"] = spec["gamma"]
        mb.wake_models["own"] = C(**kw)
        name = "own"
    wakes = [name] + spec["wk"] if spec["first"] else spec["wk"] + [name]
    pw = {w: ("rotor_points" if spec["rotor"] != "centre" else "centre") for w in wakes}
    # points: everywhere, upstream, and on the axis
    N = 24
    pts = np.zeros((scn.n_s, N, 3))
    for s in range(scn.n_s):
        n = ref.wd2vec(scn.wd[s])
        l = np.array([-n[1], n[0]])
        for j in range(N):
            i = int(rng.integers(0, scn.n_t))
            t = scn.types[scn.ttype[i]]
            R = t["D"] / 2
            x = rng.uniform(-8, 3) * R
            q = rng.normal(0, 1.2, 2) * R
            if j < 3:
                q[:] = 0
                x = -R * [0.5, 1.0, 2.5][j] if rng.random() < 0.6 else -R * (1 + rng.normal() * 1e-9)
            pts[s, j, :2] = scn.xy[i] + x * n + q[0] * l
            pts[s, j, 2] = max(t["H"] + q[1], 0.5)
    with engine_ctx("numpy", 2, [None, 1, 2][int(rng.integers(0, 3))], [None, 7][int(rng.integers(0, 2))]):
        kw = dict(farm=scn.farm(), mbook=mb, wake_models=wakes, partial_wakes=pw, ground_models=spec["ground"])
        if spec["cls"] == "Iterative":
            kw["mod_cutin"] = dict(modify_ct=False, modify_P=False)
            kw["conv_crit"] = foxes.algorithms.iterative.models.ConvVarDelta({FV.REWS: 1e-9, FV.CT: 1e-9, FV.WD: 1e-8}, wd_vars=[FV.WD])
            kw["max_it"] = 60
        algo = scn.algo(spec["cls"], **kw)
        fr = algo.calc_farm()
        if spec["cls"] == "Iterative":
            conv = algo.iterations < 60
            rec.event("iterative")
        else:
            conv = True
            rec.event("downwind")
        pr = algo.calc_points(fr, pts)
    if not conv:
        rec.event("not-converged")
        return
    rec.event(k)
    nu = nd = nf = ndef = 0
    for s in range(scn.n_s):
        T = [ref_turbine(scn, i, 0.0, spec) for i in range(scn.n_t)]
        r = ref.RefFarm(T, scn.wd[s], scn.ti[s], scn.rho[s], amb_fun(scn, s), spec["wk"], ground=spec["ground"])
        for i, t in enumerate(T):
            for v in ("REWS", "AMB_REWS", "CT", "TI", "AMB_TI", "WD"):
                t[v] = float(fr[v].values[s, i])
        if min(t["REWS"] for t in T) < 0.1:
            continue
        F = Farm(spec, r, None)
        ws, wd, amb, skip = F.at(pts[s], T, r.W)
        o = ~skip
        what = f"state {s}: {wakes} {spec['sup']} {spec['ground']} gamma {spec['gamma']} {spec['ind']}"
        rec.close(pr[FV.WS].values[s][o], ws[o], f"WS|{k}", what, rtol=1e-7, atol=1e-7)
        e = dang(pr[FV.WD].values[s][o], wd[o])
        rec.close(e, 0 * e, f"WD|{k}", what, rtol=0, atol=1e-6)
        d = ws - amb
        nu += int((d < -1e-3).sum())
        nd += int((d > 1e-3).sum())
        ndef += int((np.abs(dang(wd, scn.wd[s])) > 1e-2).sum())
        # rotors
        rot = spec["rotor"]
        tol = 1e-5 if rot == "centre" else 3e-4  # numerical rotor weights
        order = np.argsort([r.pos(t)[0] for t in T], kind="stable")
        pos = {int(i): p for p, i in enumerate(order)}
        x = np.sort([r.pos(t)[0] for t in T])
        if k == "RHB" and np.any(np.diff(x) < 30):
            continue  # the downwind order may change with the wind direction
        for i, t in enumerate(T):
            if spec["cls"] == "Iterative":
                src = [q for j, q in enumerate(T) if j != i]
            else:
                src = [q for j, q in enumerate(T) if pos[j] > pos[i]]
            rx, ry, rz, rw = r.rpoints(t, rot)
            P = np.zeros((len(rx), 3))
            P[:, :2] = rx[:, None] * r.n + ry[:, None] * r.m
            P[:, 2] = rz
            if k == "RHB" and rot != "centre":
                continue  # rotors turn with the wind
            ws, wd, amb, skip = F.at(P, src, r.W)
            if skip.any() or ws.min() < 0.1:
                continue  # at a boundary, or wakes that exceed the wind speed
            if k == "RHB":
                # the rotor follows the local wind direction
                e = dang(fr[FV.WD].values[s, i], wd[0])
                rec.close(e, 0.0, f"WD|farm|{k}", f"turbine {i} {what}", rtol=0, atol=1e-5)
                y = float(np.cos(np.deg2rad(dang(fr[FV.YAW].values[s, i], wd[0])))) if FV.YAW in fr else 1.0
                want = ws[0] * y
            else:
                want = max(float(rw @ ws), 0.0)
            rec.close(fr[FV.REWS].values[s, i], want, f"REWS|farm|{k}", f"turbine {i} {what} {spec['cls']} {rot}", rtol=tol, atol=tol)
            rec.close(fr[FV.AMB_REWS].values[s, i], float(rw @ amb), f"AMB_REWS|{k}", what, rtol=tol, atol=tol)
            nf += int(abs(want - float(rw @ amb)) > 1e-3)
    rec.event("points-upstream", nu)
    rec.event("points-speedup", nd)
    rec.event("deflected", ndef)
    rec.event("farm-effects", nf)
    if spec["ground"]:
        rec.event("mirrored")
    if spec["wk"]:
        rec.event("with-wakes")
    rec.nontrivial(nu > 0)
    rec.sample = dict(kind=k, wakes=wakes, upstream=nu, speedup=nd, farm=nf)
