"""C28: wakes in curved flow follow the path of the chosen wake frame"""

import os
import tempfile
import numpy as np
import xarray as xr
import foxes
import foxes.variables as FV
import foxes.constants as FC

from harness.core import rng_of
from harness.scen import Scenario, engine_ctx
from harness import ref

PROPERTY = "C28"
RULE = (
    "farms in smooth wind fields whose direction varies along x, y and height, turbines placed in the wakes of others "
    "along independently integrated streamlines; the wind speed at turbines and at points of known streamline distance "
    "and lateral offset is compared with the wake formulas at that distance and offset, within the discretisation error "
    "of the step; straight and deflected frames likewise along the wind at the rotor; non-trivial when wakes bend and "
    "points inside of them were compared"
)
ASSUMES = [
    "first order integration with the given step: lateral error at most 0.6 step x curvature x distance",
    "radius of curvature of the flow at least 3 km, wakes below 3 km length, gaussian wakes",
]
REQUIRED_EVENTS = [
    "frame:streamlines", "frame:rotor_wd", "frame:yawed", "frame:farmo", "points-in-wake", "turbines-in-wake",
    "bent-wakes", "centreline-points", "beyond-max-length", "order-pairs",
]
FRAMES = ["streamlines", "rotor_wd", "streamlines", "yawed", "streamlines", "farmo", "streamlines", "centreline"]


def cases(tier, seed):
    n = 64 if tier == "quick" else 900
    out = []
    for i in range(n):
        rng = rng_of(PROPERTY, seed, i)
        fr = FRAMES[i % len(FRAMES)]
        out.append(
            dict(
                seed=int(rng.integers(1 << 31)),
                mode=fr,
                n_t=int(rng.integers(1, 5)) if i % 3 else 1,
                n_s=int(rng.integers(1, 5)),
                n_types=2,
                states="timeseries",
                step=[10, 20, 25, 50][rng.integers(0, 4)],
                lmax=[1.5, 5.0, 5.0][rng.integers(0, 3)],
                wake=str(rng.choice(["Bastankhah2014", "Bastankhah025", "TurbOPark"])),
                sup=str(rng.choice(["linear", "quadratic", "linear_amb", "linear_loc"])),
                k=str(rng.choice(["k004", "k006", "ambka04"])),
                cls=["Downwind", "Downwind", "Iterative"][rng.integers(0, 3)] if fr != "farmo" else "Iterative",
                height=bool(rng.random() < 0.5),
            )
        )
    return out


class Flow:
    """wind directions on a regular grid, tri-linear in between"""

    def __init__(self, spec, wd0):
        rng = rng_of("c28flow", spec["seed"])
        n = len(wd0)
        self.x = np.arange(-5000.0, 5001.0, 250.0)
        self.y = np.arange(-5000.0, 5001.0, 250.0)
        self.h = np.array([5.0, 80.0, 150.0, 600.0])
        g = rng.uniform(-0.008, 0.008, (n, 2))
        A = rng.uniform(-4, 4, n)
        ph = rng.uniform(0, 2 * np.pi, n)
        kv = rng.normal(size=(n, 2))
        kv *= (2 * np.pi / 5000.0 / np.linalg.norm(kv, axis=1))[:, None]
        c = rng.uniform(-0.02, 0.02, n) if spec["height"] else np.zeros(n)
        X, Y = self.x[None, None, :], self.y[None, :, None]
        H = self.h[:, None, None]
        self.wd = np.stack(
            [
                wd0[s] + g[s, 0] * X + g[s, 1] * Y + A[s] * np.sin(kv[s, 0] * X + kv[s, 1] * Y + ph[s]) + c[s] * (H - 100)
                for s in range(n)
            ]
        )
        gx = np.abs(np.diff(self.wd, axis=3)).max(axis=(1, 2, 3)) / 250.0
        gy = np.abs(np.diff(self.wd, axis=2)).max(axis=(1, 2, 3)) / 250.0
        self.kappa = np.deg2rad(np.hypot(gx, gy))

    def dir(self, s, p, h):
        """wind direction at points p (n, 2) and height h"""
        hi = np.clip(np.searchsorted(self.h, h) - 1, 0, len(self.h) - 2)
        t = (h - self.h[hi]) / (self.h[hi + 1] - self.h[hi])
        f = (1 - t) * self.wd[s, hi] + t * self.wd[s, hi + 1]
        u = (p[:, 0] - self.x[0]) / 250.0
        v = (p[:, 1] - self.y[0]) / 250.0
        i = np.clip(np.floor(u).astype(int), 0, len(self.x) - 2)
        j = np.clip(np.floor(v).astype(int), 0, len(self.y) - 2)
        a, b = u - i, v - j
        return (
            (1 - a) * (1 - b) * f[j, i] + a * (1 - b) * f[j, i + 1] + (1 - a) * b * f[j + 1, i] + a * b * f[j + 1, i + 1]
        )

    def vec(self, s, p, h):
        w = np.deg2rad(self.dir(s, p, h))
        return -np.stack([np.sin(w), np.cos(w)], axis=-1)

    def line(self, s, p0, h, L, ds=10.0):
        """streamline through p0: points every ds along the arc, and tangents"""
        n = int(L / ds) + 1
        P = np.zeros((n, 2))
        P[0] = p0
        for i in range(n - 1):
            p = P[i : i + 1]
            k1 = self.vec(s, p, h)
            k2 = self.vec(s, p + 0.5 * ds * k1, h)
            k3 = self.vec(s, p + 0.5 * ds * k2, h)
            k4 = self.vec(s, p + ds * k3, h)
            P[i + 1] = p[0] + ds / 6 * (k1 + 2 * k2 + 2 * k3 + k4)[0]
        return P, self.vec(s, P, h)


def line_coos(P, T, q, ds=10.0):
    """distance along and offset to the left of a line, for points q (n, 2)"""
    d = np.linalg.norm(q[:, None] - P[None], axis=-1)
    i = np.argmin(d, axis=1)
    x = np.zeros(len(q))
    y = np.zeros(len(q))
    for j in range(len(q)):
        # foot point on the better of the two neighbouring segments
        best = None
        for a in (i[j] - 1, i[j]):
            if a < 0 or a >= len(P) - 1:
                if not (a == -1 or a == len(P) - 1):
                    continue
                b, t = (0, T[0]) if a == -1 else (len(P) - 1, T[-1])
                s = float((q[j] - P[b]) @ t)
                if (a == -1 and s > 0) or (a != -1 and s < 0):
                    continue
                s0, f = b * ds, s
                foot = P[b] + s * t
            else:
                t = (P[a + 1] - P[a]) / np.linalg.norm(P[a + 1] - P[a])
                f = float(np.clip((q[j] - P[a]) @ t, 0, ds))
                s0 = a * ds
                foot = P[a] + f * t
            # offset measured perpendicular to the direction of the segment
            v = q[j] - foot
            r = float(np.hypot(*v))
            o = np.sign(v @ np.array([-t[1], t[0]])) * r
            if best is None or r < best[0]:
                best = (r, s0 + f, o)
        if best is None:
            best = (0, i[j] * ds, d[j, i[j]])
        x[j], y[j] = best[1], best[2]
    return x, y


def run(spec, rec):
    mode = spec["mode"]
    scn = Scenario(dict(spec, states="timeseries"))
    rng = rng_of("c28", spec["seed"])
    nS, nT = scn.n_s, scn.n_t
    scn.ws = np.clip(scn.ws, 5.0, 14.0)
    flow = Flow(spec, scn.wd)
    types = [scn.types[i] for i in scn.ttype]
    sl = mode in ("streamlines", "centreline")

    # layout: turbines in the wakes of others, for one of the states
    s0 = int(rng.integers(0, nS))
    xy = np.zeros((nT, 2))
    xy[0] = rng.uniform(-600, 600, 2)
    for t in range(1, nT):
        o = int(rng.integers(0, t))
        P, T = flow.line(s0, xy[o], types[o]["H"], 1600.0)
        i = int(rng.integers(35, 150))
        xy[t] = P[i] + rng.normal(0, 0.5) * types[o]["D"] * np.array([-T[i, 1], T[i, 0]])
    perm = rng.permutation(nT)
    xy = xy[perm]

    gam = np.zeros((nS, nT))
    mb = scn.mbook()
    tm = []
    if mode == "yawed":
        gam = rng.uniform(-25, 25, (nS, nT))
        m = foxes.models.turbine_models.SetFarmVars(pre_rotor=True)
        m.add_var(FV.YAWM, gam)
        mb.turbine_models["set_yawm"] = m
        tm = ["set_yawm", "yawm2yaw"]
    farm = foxes.WindFarm()
    for t in range(nT):
        farm.add_turbine(
            foxes.Turbine(xy=xy[t].copy(), turbine_models=tm + [types[t]["name"]]), verbosity=0
        )
    time = np.datetime64("2020-01-01T00:00:00", "ns") + np.arange(nS) * np.timedelta64(600, "s")
    dims = ("Time", "height", "UTMY", "UTMX")
    sh = flow.wd.shape
    ds = xr.Dataset(
        coords=dict(Time=time, height=flow.h, UTMY=flow.y, UTMX=flow.x),
        data_vars=dict(
            ws=(dims, np.broadcast_to(scn.ws[:, None, None, None], sh).copy()),
            wd=(dims, np.mod(flow.wd, 360)),
        ),
    )
    fd, fn = tempfile.mkstemp(suffix=".nc", dir=os.getcwd())
    os.close(fd)
    ds.to_netcdf(fn)
    TI = float(rng.uniform(0.05, 0.15))
    states = foxes.input.states.FieldDataNC(
        fn, output_vars=[FV.WS, FV.WD, FV.TI, FV.RHO], var2ncvar={FV.WS: "ws", FV.WD: "wd"},
        fixed_vars={FV.TI: TI, FV.RHO: 1.2}, time_format=None, bounds_extra_space=1e6, bounds_error=False,
    )

    # streamlines of all rotors and points around them
    L = 1000 * spec["lmax"]
    lines = [[flow.line(s, xy[t], types[t]["H"], L + 400.0) for t in range(nT)] for s in range(nS)]
    N = 60
    pts = np.zeros((nS, N, 3))
    for s in range(nS):
        for i in range(N):
            t = int(rng.integers(0, nT))
            P, T = lines[s][t]
            D, H = types[t]["D"], types[t]["H"]
            j = int(rng.integers(0, min(len(P), 260))) if i % 6 else int(rng.integers(len(P) - 36, len(P)))
            pts[s, i, :2] = P[j] + rng.normal(0, 0.7) * D * np.array([-T[j, 1], T[j, 0]])
            if i % 10 == 5:
                pts[s, i, :2] = P[0] - rng.uniform(0.05, 3) * D * T[0] + rng.normal(0, 0.4, 2) * D
            pts[s, i, 2] = np.clip(H + rng.normal(0, 0.3) * D, 10.0, None)

    frame = {"rotor_wd": "rotor_wd", "farmo": "rotor_wd_farmo", "yawed": "yawed_k004"}.get(mode, "sl")
    mb.wake_frames["sl"] = foxes.models.wake_frames.Streamlines2D(step=float(spec["step"]), max_length_km=spec["lmax"])
    name = f"{spec['wake']}_{spec['sup']}_{spec['k']}"
    wakes = [name]
    if mode == "centreline":
        wakes = ["TurbOParkIX_linear_k004_dx40", "CrespoHernandez_max_k004"]
        fro = mb.wake_frames["sl"]
        orig = fro.get_centreline_points

        def probe(algo, mdata, fdata, downwind_index, x, *a, **k):
            p = orig(algo, mdata, fdata, downwind_index, x, *a, **k)
            judge_centreline(rec, spec, flow, lines, mdata, fdata, downwind_index, x, p, xy)
            return p

        fro.get_centreline_points = probe
    kw = dict(mod_cutin=dict(modify_ct=False, modify_P=False)) if spec["cls"] == "Iterative" else {}
    if mode == "centreline":
        kw, spec = {}, dict(spec, cls="Downwind")
    cs = [None, 1, 2][rng.integers(0, 3)]
    with engine_ctx("numpy", 2, cs, [None, 17][rng.integers(0, 2)]):
        algo = scn.algo(
            spec["cls"], farm=farm, states=states, mbook=mb, rotor_model="centre", wake_models=wakes,
            wake_frame=frame, partial_wakes="centre", ground_models=None, **kw,
        )
        if spec["cls"] == "Iterative":
            algo.conv_crit = foxes.algorithms.iterative.models.ConvVarDelta({FV.REWS: 1e-10, FV.CT: 1e-10})
        fr = algo.calc_farm()
        if mode == "centreline":
            rec.event("frame:streamlines")
            rec.nontrivial(rec.events.get("centreline-points", 0) > 0)
            return
        pr = algo.calc_points(fr, pts)

    rec.event("frame:" + mode)
    W = ref.WakeSpec(name)
    nw = nturb = npair = bent = 0
    wmax = 0.0
    for s in range(nS):
        src = []
        for t in range(nT):
            d = np.abs(np.mod(fr[FV.AMB_WD].values[s, t] - flow.dir(s, xy[t : t + 1], types[t]["H"])[0] + 180, 360) - 180)
            rec.check(d < 0.02, "rotor-wd", f"state {s} turbine {t}: ambient wind direction differs by {d} deg")
            src.append(
                dict(
                    D=types[t]["D"], H=types[t]["H"], gamma=gam[s, t], K=np.nan,
                    **{v: float(fr[v].values[s, t]) for v in (FV.CT, FV.TI, FV.REWS, FV.AMB_REWS, FV.AMB_TI, FV.AMB_CT)},
                )
            )
        pos = np.concatenate([xy, pts[s, :, :2]])
        z = np.concatenate([[t["H"] for t in types], pts[s, :, 2]])
        amb = np.concatenate([fr[FV.AMB_REWS].values[s], pr[FV.AMB_WS].values[s]])
        obs = np.concatenate([fr[FV.REWS].values[s], pr[FV.WS].values[s]])
        acc = np.zeros((2, len(pos)))
        judge = np.ones(len(pos), bool)
        if mode == "yawed":
            # the rotor value of a yawed turbine is judged in uniform flow (C10, C11)
            judge[:nT] = False
        X = np.zeros((nT, len(pos)))
        E = np.zeros((nT, len(pos)))
        for t in range(nT):
            P, T = lines[s][t]
            if sl:
                x, y = line_coos(P, T, pos)
                st, ka = spec["step"], flow.kappa[s]
                ey = 0.6 * ka * st * (np.abs(x) + 3 * st) + 0.05
                ex = ka * st * np.abs(y) + ka**2 * st * x**2 + 0.05
                near = np.abs(x - L) < 3 * st
                off = x > L
                lost = np.abs(y) > 1200
                rec.event("beyond-max-length", int((off & ~near & (np.abs(y) < 200)).sum()))
            else:
                w = np.deg2rad(fr[FV.WD].values[s, t])
                n = -np.array([np.sin(w), np.cos(w)])
                x = (pos - xy[t]) @ n
                y = (pos - xy[t]) @ np.array([-n[1], n[0]])
                ex = ey = np.zeros(len(pos))
                near = off = lost = np.zeros(len(pos), bool)
            lo, hi = np.zeros(len(pos)), np.zeros(len(pos))
            for i in range(len(pos)):
                if i == t or x[i] < -ex[i] or (off[i] and not near[i]):
                    continue
                v = []
                for dx in (-1, 0, 1) if ex[i] else (0,):
                    for dy in (-1, -0.5, 0, 0.5, 1) if ey[i] else (0,):
                        xi = x[i] + dx * ex[i]
                        yi = y[i] + dy * ey[i]
                        if mode == "yawed" and xi > 1e-8 and src[t]["CT"] > 1e-8:
                            yi -= ref.b16_pars(
                                xi, src[t]["D"], src[t]["CT"], src[t]["TI"], np.deg2rad(gam[s, t]), 0.04, "Madsen"
                            )["delta"]
                        r = W.eval(xi, np.array([yi]), np.array([z[i] - src[t]["H"]]), src[t])[0][0]
                        v.append(abs(float(r)))
                if ey[i] and abs(y[i]) < ey[i]:
                    v.append(abs(float(W.eval(max(x[i], 0), np.zeros(1), np.array([z[i] - src[t]["H"]]), src[t])[0][0])))
                lo[i], hi[i] = 0.0 if near[i] or lost[i] else min(v), max(v)
            X[t], E[t] = x, hi
            for q, d in ((0, lo), (1, hi)):
                acc[q] = ref.sup_ws(spec["sup"], -d, np.ones(len(d), bool), src[t], acc[q])
        # order of evaluation
        if spec["cls"] == "Downwind":
            order = fr[FV.ORDER].values[s].astype(int)
            place = np.argsort(order)
            for t in range(nT):
                for u in range(nT):
                    if t != u and E[t, u] > 1e-4 and X[t, u] > 30:
                        ok = place[t] < place[u]
                        npair += 1
                        if sl and not near[u]:
                            rec.check(ok, "order", f"state {s}: turbine {u} is in the wake of {t}, but evaluated first: {order}")
                        elif not ok:
                            judge[u] = False
        w1 = amb + ref.fin_ws(spec["sup"], acc[0], amb)
        w0 = amb + ref.fin_ws(spec["sup"], acc[1], amb)
        a, b = np.minimum(w0, w1), np.maximum(w0, w1)
        m = 0.05 * (b - a) + (1e-3 if sl else 1e-6)
        bad = judge & ~((obs >= a - m) & (obs <= b + m))
        wmax = max(wmax, float((b - a)[judge].max(initial=0)))
        for k, lab, sel in (("REWS", "turbine", slice(0, nT)), ("WS", "point", slice(nT, None))):
            bb = np.where(bad[sel])[0]
            rec.check(
                not len(bb), f"{k}|{mode}",
                lambda: f"state {s} {spec['cls']} {frame} step {spec['step']} {name}: {lab} {bb[0]} at x={X[:, sel][:, bb[0]]}, got {obs[sel][bb[0]]}, "
                f"expected {a[sel][bb[0]]} to {b[sel][bb[0]]}, ambient {amb[sel][bb[0]]} ({len(bb)} {lab}s)",
                n=int(judge[sel].sum()),
            )
        inw = judge & (amb - a > 0.05)
        nw += int(inw[nT:].sum())
        nturb += int(inw[:nT].sum())
        if sl:
            for P, T in lines[s]:
                i = min(len(P) - 1, 150)
                bent += int(np.abs(P[i] - P[0] - 10 * i * T[0]).max() > 40)
    rec.event("points-in-wake", nw)
    rec.event("turbines-in-wake", nturb)
    rec.event("order-pairs", npair)
    rec.event("bent-wakes", bent)
    rec.event("bracket-cm/s-max", int(100 * wmax))
    rec.nontrivial(nw > 0)
    rec.sample = dict(spec=spec, points_in_wake=nw, bent=bent, widest_bracket=wmax)


def judge_centreline(rec, spec, flow, lines, mdata, fdata, di, x, p, xy):
    """centreline points lie on the streamline of the rotor, at the requested distances"""
    i0 = mdata.states_i0(counter=True)
    st = spec["step"]
    for k in range(x.shape[0]):
        s = i0 + k
        t = int(np.argmin(np.linalg.norm(xy - fdata[FV.TXYH][k, di, :2], axis=1)))
        P, T = lines[s][t]
        g = 10.0 * np.arange(len(P))
        m = (x[k] >= 0) & (x[k] <= min(g[-1], 1000 * spec["lmax"] - st))
        q = np.stack([np.interp(x[k], g, P[:, 0]), np.interp(x[k], g, P[:, 1])], axis=-1)
        d = np.linalg.norm(p[k, :, :2] - q, axis=-1)
        tol = 0.6 * flow.kappa[s] * st * (x[k] + 3 * st) + 0.2
        rec.check(
            np.all(d[m] <= tol[m]), "centreline",
            lambda: f"state {s} turbine {t}: centreline point at x={x[k][m][np.argmax((d - tol)[m])]} is {np.max((d - tol)[m])} m too far "
            f"from the streamline (tolerance {tol[m].max()})", n=int(m.sum()),
        )
        rec.close(p[k, m, 2], fdata[FV.TXYH][k, di, 2], "centreline-height", f"state {s}", atol=1e-9)
        rec.event("centreline-points", int(m.sum()))
