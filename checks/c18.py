"""C18: derived outputs equal direct evaluations of the same calculation"""

import numpy as np
import pandas as pd
import xarray as xr
import matplotlib

matplotlib.use("Agg")
import matplotlib.pyplot as plt

import foxes
import foxes.variables as FV
import foxes.constants as FC

from harness.core import rng_of
from harness.cmp import compare
from harness.scen import Scenario, engine_ctx, random_spec, make_curve

PROPERTY = "C18"
RULE = (
    "slices, stacked slices, figures, point tables, wind roses, layouts, maps and turbine curves of random farms, "
    "each compared with calc_points / explicit binning / the recorded farm results; non-trivial with waked points "
    "or several filled bins"
)
ASSUMES = ["calc_points itself is judged by C03 and C05-C11"]
KINDS = ["points", "slice", "slice", "slices", "figure", "rose", "rose", "binplot", "statesrose", "misc", "curves", "animation"]
REQUIRED_EVENTS = ["kind:" + k for k in sorted(set(KINDS))] + [
    "mean", "states", "ori:xy", "ori:xz", "ori:yz", "format:numpy", "format:pandas", "format:xarray", "isel", "sel",
    "normalize", "vminmax", "labels", "default-variables", "x_direction", "n_img_points", "points-2d", "points-3d",
    "states-mean", "to-file", "rose:points", "rose:sector-edges", "rose:inf", "weights:states", "weights:turbines", "weights:points",
    "rotor-lines", "P_max", "points:weight_turbine", "curves:rho", "curves:ti", "curves:no-axes", "animation:titles", "animator", "rotor-plot", "slice-file:xarray", "slice-file:pandas",
]


def cases(tier, seed):
    n = 144 if tier == "quick" else 1920
    out = []
    for i in range(n):
        rng = rng_of(PROPERTY, seed, i)
        kind = KINDS[i % len(KINDS)]
        sp = random_spec(
            rng, int(rng.integers(1 << 31)), n_t=(1, 5), n_s=(2, 7), states=["timeseries", "table", "mh"],
            wakes=("Jensen", "Bastankhah2014"), tik=False,
            sup=["linear", "quadratic", "max"], pwakes=(None,), grounds=False, rotors=("centre", "grid4"),
        )
        if kind in ("rose", "binplot", "statesrose"):
            sp["n_s"] = int(rng.integers(10, 60))
        sp.update(kind=kind, engine=["numpy", [None, 2][int(rng.integers(0, 2))]] if rng.random() < 0.7 else ["single", None])
        sp["ci"] = i // len(KINDS)
        if kind == "animation":
            sp["n_s"] = int(rng.integers(2, 5))
        sp["pw"] = kind in ("slice", "slices", "figure") and bool(rng.random() < 0.35)
        out.append(sp)
    return out


class PointWeights:
    """mixed into states: statistical weights that differ between points"""

    def calculate(self, algo, mdata, fdata, tdata):
        r = super().calculate(algo, mdata, fdata, tdata)
        g = 1 + 0.6 * np.sin(tdata[FC.TARGETS][..., 0] / 300 + 7 * r[FV.WS])
        tdata[FV.WEIGHT] = tdata[FV.WEIGHT] * g
        return r


class Env:
    """one calculated farm and a direct evaluator at arbitrary points"""

    def __init__(self, spec):
        self.scn = Scenario(spec)
        self.spec = spec

    def algo(self):
        st = self.scn.states()
        if self.spec.get("pw"):
            pw = object.__new__(type("PW", (PointWeights, type(st)), {}))
            pw.__dict__.update(st.__dict__)
            st = pw
        return self.scn.algo(states=st)

    def start(self):
        self.a = self.algo()
        self.fr = self.a.calc_farm()
        return self

    def at(self, pts, ambient=False):
        """results at points (n_p, 3) for all states, by a fresh algorithm"""
        a = self.algo()
        a.calc_farm()
        p = np.broadcast_to(np.asarray(pts, float)[None], (self.scn.n_s,) + np.shape(pts)).copy()
        return a.calc_points(self.fr, p)


def ctx(e):
    return engine_ctx("numpy", 2, e[1], None) if e[0] == "numpy" else engine_ctx("single")


# ------------------------------------------------------------------ slices
def axes_of(xd):
    """unit vectors x, y, z of a rotated frame, x pointing along wind direction xd"""
    th = np.deg2rad(270.0 - xd)
    return np.array([np.cos(th), np.sin(th), 0]), np.array([-np.sin(th), np.cos(th), 0]), np.array([0, 0, 1.0])


def slice_pars(rng, env, ori, rec):
    """random arguments and the grid they define"""
    fr = env.fr
    kw = {}
    xd = 270.0
    if ori != "xy" and rng.random() < 0.6:
        xd = float(rng.uniform(0, 360)) if rng.random() < 0.7 else float(rng.choice([0, 90, 180]))
        kw["x_direction"] = xd
        rec.event("x_direction")
    ex, ey, ez = axes_of(xd)
    P = np.stack([fr[v].values for v in (FV.X, FV.Y, FV.H)], -1)
    c = dict(x=P @ ex, y=P @ ey, z=P @ ez)
    lim = {}
    for o in ori:
        sp = 500.0
        if rng.random() < 0.6:
            sp = float(rng.uniform(100, 900))
            kw[o + "space"] = sp
        lo, hi = c[o].min() - sp, c[o].max() + sp
        if o == "z":
            lo = 0.0
        if rng.random() < 0.4:
            lo = float(c[o].min() - rng.uniform(50, 300)) if o != "z" else float(rng.uniform(5, 40))
            kw[o + "min"] = lo
        if rng.random() < 0.4:
            hi = float(c[o].max() + rng.uniform(50, 300))
            kw[o + "max"] = hi
        if o == "z" and sp != 500.0 and "zspace" in kw and ori == "xy":
            del kw["zspace"]
        lim[o] = (lo, hi)
    n = "xyz".replace(ori[0], "").replace(ori[1], "")
    pos = 0.5 * (c[n].min() + c[n].max())
    if rng.random() < 0.5:
        pos = float(rng.uniform(c[n].min() - 50, c[n].max() + 50))
        kw[n] = pos
    la, lb = (lim[o][1] - lim[o][0] for o in ori)
    if rng.random() < 0.4:
        na, nb = int(rng.integers(2, 9)), int(rng.integers(2, 9))
        kw["n_img_points"] = (na, nb)
        rec.event("n_img_points")
    else:
        r = max(la, lb) / rng.uniform(4, 9)
        kw["resolution"] = float(r)
        na, nb = int(np.floor(la / r + 0.5)) + 1, int(np.floor(lb / r + 0.5)) + 1
        if min(na, nb) < 2 or min(np.mod(la / r + 0.5, 1), np.mod(lb / r + 0.5, 1)) < 1e-6:
            del kw["resolution"]
            na, nb = 4, 5
            kw["n_img_points"] = (na, nb)
    A, B = np.linspace(*lim[ori[0]], na), np.linspace(*lim[ori[1]], nb)
    e = dict(x=ex, y=ey, z=ez)
    pts = A[:, None, None] * e[ori[0]] + B[None, :, None] * e[ori[1]] + pos * e[n]
    return kw, A, B, pos, n, pts


def expected(env, pts, variables, mode, sidx, rec):
    """dict of arrays (n_a, n_b) or (n_s, n_a, n_b)"""
    na, nb = pts.shape[:2]
    pr = env.at(pts.reshape(-1, 3))
    w = pr[FV.WEIGHT].values
    w = w if w.ndim == 2 else np.repeat(w[:, None], na * nb, 1)
    rec.event("weights:states" if pr[FV.WEIGHT].ndim == 1 else "weights:points")
    out = {}
    for v in variables:
        d = pr[v].values[sidx]
        if mode == "mean":
            ww = w[sidx]
            d = (ww * d).sum(0) / ww.sum(0)
            out[v] = d.reshape(na, nb)
        else:
            out[v] = d.reshape(-1, na, nb)
    if FV.AMB_WS in pr and FV.WS in pr:
        rec.nontrivial(bool(np.max(np.abs(pr[FV.AMB_WS].values - pr[FV.WS].values)) > 1e-3))
    return out


def state_choice(rng, env, rec):
    n = env.scn.n_s
    r = rng.random()
    st = env.fr[FC.STATE].values
    if r < 0.5 or n < 2:
        return {}, np.arange(n)
    k = np.sort(rng.permutation(n)[: int(rng.integers(1, n))])
    if r < 0.75:
        rec.event("isel")
        return dict(states_isel=[int(i) for i in k]), k
    rec.event("sel")
    return dict(states_sel=list(st[k])), k


def mods(rng, kw, ori, n, exp, A, B, pos, rec, allow=True):
    A, B = A.copy(), B.copy()
    lab = {}
    V = list(exp)
    if allow and rng.random() < 0.5:
        rec.event("normalize")
        fa, fb, fc = rng.uniform(50, 200, 3)
        kw["normalize_" + ori[0]], kw["normalize_" + ori[1]], kw["normalize_" + n] = float(fa), float(fb), float(fc)
        A, B, pos = A / fa, B / fb, pos / fc
        f = float(rng.uniform(2, 9))
        kw["normalize_v"] = {V[0]: f}
        exp[V[0]] = exp[V[0]] / f
    if rng.random() < 0.4:
        rec.event("vminmax")
        v = V[-1]
        lo, hi = np.quantile(exp[v], [0.3, 0.8])
        kw["vmin"], kw["vmax"] = {v: float(lo)}, {v: float(hi)}
        exp[v] = np.clip(exp[v], lo, hi)
    if allow and rng.random() < 0.4:
        rec.event("labels")
        lab = {ori[0]: ori[0].upper() + "pos", V[0]: "lab_" + V[0]}
        kw["label_map"] = lab
    return A, B, pos, lab


TOL = dict(rtol=1e-8, atol=1e-8)


def judge_slice(rec, d, fmt, mode, exp, A, B, pos, ori, n, lab, states, key):
    L = lambda s: lab.get(s, s)
    V = list(exp)
    na, nb = len(A), len(B)
    ns = () if mode == "mean" else (len(states),)
    if fmt == "xarray":
        dims = (() if mode == "mean" else (L(FC.STATE),)) + (L(ori[1]), L(ori[0]))
        rec.check(set(map(str, d.data_vars)) == {L(v) for v in V}, "vars|" + key, f"{list(d.data_vars)} for {V} {lab}")
        rec.close(d[L(ori[0])].values, A, "coords|" + key, f"{ori[0]} positions", **TOL)
        rec.close(d[L(ori[1])].values, B, "coords|" + key, f"{ori[1]} positions", **TOL)
        rec.close(np.float64(d.attrs[L(n)]), pos, "coords|" + key, f"{n} position", **TOL)
        if mode == "states":
            rec.check(bool(np.all(d[FC.STATE].values == states)), "states|" + key, "state coordinates")
        for v in V:
            if L(v) in d:
                x = d[L(v)].transpose(*dims).values
                rec.close(x, np.swapaxes(exp[v], -1, -2), "values|" + key, f"{v} of {mode} {ori} slice, {fmt}", **TOL)
    elif fmt == "pandas":
        rec.check(len(d) == int(np.prod(ns + (na, nb))), "shape|" + key, f"{len(d)} rows")
        rec.check(set(d.columns) == {L(v) for v in V}, "vars|" + key, f"{list(d.columns)} for {V} {lab}")
        for v in V:
            if L(v) in d and len(d) == exp[v].size:
                x = d[L(v)].to_numpy().reshape(ns + (na, nb))
                rec.close(x, exp[v], "values|" + key, f"{v} of {mode} {ori} slice, {fmt}", **TOL)
    else:
        rec.check(d.shape == ns + (na, nb, len(V)), "shape|" + key, f"shape {d.shape}")
        for k, v in enumerate(V):
            if d.shape == ns + (na, nb, len(V)):
                rec.close(d[..., k], exp[v], "values|" + key, f"{v} of {mode} {ori} slice, {fmt}", **TOL)


def run_slice(spec, rec, rng, env):
    S = foxes.output.SliceData(env.a, env.fr, out_dir="out")
    for mode in ("mean", "states"):
        for ori in ("xy", "xz", "yz"):
            kw, A, B, pos, n, pts = slice_pars(rng, env, ori, rec)
            skw, sidx = state_choice(rng, env, rec)
            fmt = str(rng.choice(["numpy", "pandas", "xarray", "xarray"]))
            V = [FV.WS, FV.TI, FV.AMB_WS, FV.RHO]
            V = [V[i] for i in rng.permutation(4)[: int(rng.integers(1, 5))]]
            default = rng.random() < 0.2
            if default:
                rec.event("default-variables")
                pr = env.at(pts.reshape(-1, 3)[:1])
                V = [v for v in pr.data_vars if pr[v].dims == (FC.STATE, FC.POINT) and v != FV.WEIGHT]
            exp = expected(env, pts, V, mode, sidx, rec)
            A2, B2, pos2, lab = mods(rng, kw, ori, n, exp, A, B, pos, rec)
            if not default:
                kw["variables"] = list(V)
            f = getattr(S, f"get_{mode}_data_{ori}")
            if rng.random() < 0.3:
                d, st = f(data_format=fmt, ret_states=True, **kw, **skw)
            elif rng.random() < 0.3 and "normalize_x" not in kw and "normalize_y" not in kw:
                d, g = f(data_format=fmt, ret_grid=True, **kw, **skw)
                o = dict(zip("xyz", g[:3]))
                rec.close(o[ori[0]], A, "ret-grid", "returned grid", **TOL)
                rec.close(o[ori[1]], B, "ret-grid", "returned grid", **TOL)
                rec.close(np.broadcast_to(pts.reshape(1, -1, 3), g[3].shape), g[3], "ret-grid", "returned points", **TOL)
                st = None
            elif rng.random() < 0.5 and fmt != "numpy":
                rec.event("slice-file:" + fmt)
                fn = "slice.nc" if fmt == "xarray" else "slice.csv"
                d, st = f(data_format=fmt, to_file=fn, **kw, **skw), None
                V2 = [v for v in V if lab.get(v, v) in d]
                if fmt == "xarray":
                    q = xr.load_dataset("out/" + fn)
                    for v in V2:
                        rec.close(q[lab.get(v, v)].values, d[lab.get(v, v)].values, "file|xarray", f"{v} in slice file", rtol=1e-6, atol=1e-3)
                else:
                    q = pd.read_csv("out/" + fn)
                    for v in V2:
                        if lab.get(v, v) in q:
                            rec.close(q[lab.get(v, v)].values, d[lab.get(v, v)].values, "file|pandas", f"{v} in slice file", rtol=1e-6, atol=1e-3)
                        else:
                            rec.violate("file|pandas", f"{v} missing in file")
            else:
                d, st = f(data_format=fmt, **kw, **skw), None
            rec.event("mean" if mode == "mean" else "states")
            rec.event("ori:" + ori)
            rec.event("format:" + fmt)
            states = env.fr[FC.STATE].values[sidx]
            if st is not None:
                rec.check(bool(np.all(st == states)), "ret-states", f"{st} for {states}")
            key = f"{mode}-{fmt}" + ("|default" if default else "") + ("|selected" if skw else "")
            if default and fmt != "numpy":
                # extra variables such as weights are allowed
                d = d[[lab.get(v, v) for v in V]] if all(lab.get(v, v) in d for v in V) else d
            if default and fmt == "numpy":
                rec.check(d.shape[-1] >= len(V), "shape|" + key, f"{d.shape}")
                continue
            judge_slice(rec, d, fmt, mode, exp, A2, B2, pos2, ori, n, lab, states, key)


def run_slices(spec, rec, rng, env):
    S = foxes.output.SlicesData(env.a, env.fr)
    mode, ori = str(rng.choice(["mean", "states"])), str(rng.choice(["xy", "xz", "yz"]))
    for ori in ("xy", "xz", "yz"):
        kw, A, B, pos, n, pts = slice_pars(rng, env, ori, rec)
        kw.pop(n, None)
        fr = env.fr
        ex = axes_of(kw.get("x_direction", 270.0))["xyz".index(n)]
        C = np.stack([fr[v].values for v in (FV.X, FV.Y, FV.H)], -1) @ ex
        lst = [float(z) for z in rng.uniform(C.min() - 30, C.max() + 60, int(rng.integers(1, 4)))]
        skw, sidx = state_choice(rng, env, rec)
        V = [FV.WS, FV.TI]
        d = getattr(S, f"get_{mode}_data_{ori}")(lst, variables=list(V), **kw, **skw)
        rec.event(mode)
        rec.check(d.sizes[n] == len(lst), "slices|size", f"{dict(d.sizes)}")
        rec.close(np.asarray(d[n].values, float), np.array(lst), "slices|coords", "stack coordinate", **TOL)
        rec.close(d[ori[0]].values, A, "slices|coords", "positions", **TOL)
        rec.close(d[ori[1]].values, B, "slices|coords", "positions", **TOL)
        for i, z in enumerate(lst):
            exp = expected(env, pts + (z - pos) * ex, V, mode, sidx, rec)
            for v in V:
                x = d[v].isel({n: i}).transpose(*((() if mode == "mean" else (FC.STATE,)) + (ori[0], ori[1]))).values
                rec.close(x, exp[v], f"slices|{mode}", f"{v} of slice {n}={z:.1f}", **TOL)


def run_figure(spec, rec, rng, env):
    F = foxes.output.FlowPlots2D(env.a, env.fr)
    ori = str(rng.choice(["xy", "xz", "yz"]))
    var = str(rng.choice([FV.WS, FV.TI, FV.AMB_WS, FV.RHO]))
    # mean
    for ori in ("xy", "xz", "yz"):
        kw, A, B, pos, n, pts = slice_pars(rng, env, ori, rec)
        skw, sidx = state_choice(rng, env, rec)
        exp = expected(env, pts, [var], "mean", sidx, rec)[var]
        fig, im, data = getattr(F, f"get_mean_fig_{ori}")(var, ret_im=True, ret_data=True, **kw, **skw)
        z = np.ma.getdata(im[0].get_array())
        rec.close(np.reshape(z, exp.T.shape), exp.T, "figure|mean", f"image of mean {var}, {ori}", **TOL)
        rec.close(data, exp, "figure|ret-data", f"returned data of mean {var}, {ori}", **TOL)
        plt.close(fig)
        # states
        kw, A, B, pos, n, pts = slice_pars(rng, env, ori, rec)
        skw, sidx = state_choice(rng, env, rec)
        exp = expected(env, pts, [var], "states", sidx, rec)[var]
        rot = ori == "xy" and rng.random() < 0.7
        k = -1
        for k, (fig, si, im) in enumerate(
            getattr(F, f"gen_states_fig_{ori}")(
                var, ret_im=True, ret_state=True, rotor_color="red" if rot else None, **kw, **skw
            )
        ):
            z = np.reshape(np.ma.getdata(im[0].get_array()), exp[k].T.shape)
            rec.close(z, exp[k].T, "figure|states", f"image of {var}, {ori}, state {k}", **TOL)
            rec.check(si == k, "figure|state-index", f"{si} for {k}")
            if rot:
                rec.event("rotor-lines")
                fr = env.fr
                s = sidx[k]
                L = [ln for ln in fig.axes[0].lines]
                rec.check(len(L) == env.scn.n_t, "figure|rotor-count", f"{len(L)} lines")
                for t, ln in enumerate(L[: env.scn.n_t]):
                    xy = np.stack(ln.get_data(), -1).astype(float)
                    X = np.array([float(fr[v].values[s, t]) for v in (FV.X, FV.Y)])
                    rec.close(xy.mean(0), X, "figure|rotor-centre", "rotor line centre", rtol=1e-9, atol=1e-6)
                    e = axes_of(float(fr[FV.AMB_WD].values[s, t]))
                    d = xy[1] - xy[0]
                    D = float(fr[FV.D].values[s, t])
                    rec.close(np.linalg.norm(d), D, "figure|rotor-length", "rotor line length", rtol=1e-8)
                    rec.close(d @ e[0][:2] / D, 0.0, "figure|rotor-angle", f"rotor line of state {s} not normal to the wind", atol=1e-7)
            plt.close(fig)
        rec.check(k + 1 == len(sidx), "figure|count", f"{k+1} figures for {len(sidx)} states")


# ------------------------------------------------------------------ points
def run_points(spec, rec, rng, env):
    n_s = env.scn.n_s
    PC = foxes.output.PointCalculator(env.a, env.fr, out_dir="out")
    P = env.scn.points(int(rng.integers(1, 6)), seed=3)
    P = np.broadcast_to(P[None], (n_s,) + P.shape).copy()
    w = env.fr[FV.WEIGHT].values
    w = w if w.ndim == 1 else w[:, 0]
    for two in (False, True):
        if two:
            rec.event("points-2d")
            pts, full = P[0].copy(), np.broadcast_to(P[:1], P.shape).copy()
        else:
            rec.event("points-3d")
            full = P + rng.uniform(-50, 50, (n_s, 1, 1)) * np.array([1, 1, 0.0])
            pts = full.copy()
        a = env.algo()
        a.calc_farm()
        ref = a.calc_points(env.fr, full)
        rec.nontrivial(bool(np.max(np.abs(ref[FV.WS].values - ref[FV.AMB_WS].values)) > 1e-4))
        keep = pts.copy()
        got = PC.calculate(pts, to_file="p.nc")
        rec.event("to-file")
        compare(rec, got, ref, "points", "PointCalculator results")
        rec.check(np.array_equal(pts, keep), "points|input", "points were modified")
        ds = xr.load_dataset("out/p.nc")
        for k, c in enumerate("xyz"):
            x = np.broadcast_to(ds[c].values, full[..., k].shape)
            rec.close(x, full[..., k], "points-file|pos", "positions in file", rtol=1e-7, atol=1e-3)
        for v in ref.data_vars:
            if v == FV.WEIGHT:
                continue
            rec.close(ds[v].values, ref[v].values, "points-file|values", f"{v} in file", rtol=1e-6, atol=1e-3)
        rec.check(bool(np.all(ds[FC.STATE].values == env.fr[FC.STATE].values)), "points-file|states", "states in file")
        fr0 = PC.farm_results
        wt, kw = w, {}
        if rng.random() < 0.6:
            # weights that differ between turbines
            rec.event("points:weight_turbine")
            wt = rng.uniform(0.1, 1, (n_s, env.scn.n_t))
            wt /= wt.sum(0)
            PC.farm_results = fr0.copy()
            PC.farm_results[FV.WEIGHT] = ((FC.STATE, FC.TURBINE), wt)
            t = int(rng.integers(0, env.scn.n_t))
            wt, kw = wt[:, t], dict(weight_turbine=t)
        m = PC.calculate(pts, states_mean=True, to_file="m.nc", write_vars=[FV.WS, FV.AMB_TI], **kw)
        PC.farm_results = fr0
        rec.event("states-mean")
        ds = xr.load_dataset("out/m.nc")
        for k, c in enumerate("xyz"):
            rec.close(ds[c].values, (wt[:, None] * full[..., k]).sum(0), "points-mean|pos", "mean positions in file", rtol=1e-6, atol=1e-3)
        for v in (FV.WS, FV.AMB_WS, FV.TI, FV.RHO, FV.AMB_TI):
            e = (wt[:, None] * ref[v].values).sum(0)
            rec.close(m[v].values, e, "points-mean", f"states mean of {v}", **TOL)
            if v in (FV.WS, FV.AMB_TI):
                rec.close(ds[v].values, e, "points-mean|file", f"states mean of {v} in file", rtol=1e-6, atol=1e-3)


# ------------------------------------------------------------------- roses
def bins(wd, ws, n, wb):
    """indices of sectors centred at multiples of 360/n, and of the speed bins"""
    d = 360.0 / n
    i = np.floor((wd + d / 2) / d).astype(int) % n
    j = np.full(len(ws), -1)
    for k in range(len(wb) - 1):
        last = k == len(wb) - 2
        j[(ws >= wb[k]) & ((ws <= wb[k + 1]) if last else (ws < wb[k + 1]))] = k
    return i, j


def rose_input(spec, rec, rng, env):
    """farm results with directions at sector edges and optional turbine weights"""
    fr = env.fr.copy(deep=True)
    n = int(rng.choice([1, 2, 4, 8, 12, 16, 36, 5, 7, 22]))
    d = 360.0 / n
    if rng.random() < 0.5 and (n in (4, 8, 12, 36, 2)):
        rec.event("rose:sector-edges")
        wd = fr[FV.AMB_WD].values.copy()
        k = min(len(wd), 5)
        wd[:k] = np.mod(d * rng.integers(0, n, k) + d / 2, 360)[:, None]
        wd[k : k + 2] = np.array([0.0, 360 - d / 2])[: len(wd[k : k + 2]), None]
        fr[FV.AMB_WD] = (fr[FV.AMB_WD].dims, wd)
    if rng.random() < 0.5:
        w = rng.uniform(0.1, 1, fr[FV.AMB_WD].shape)
        fr[FV.WEIGHT] = ((FC.STATE, FC.TURBINE), w / w.sum(0))
        rec.event("weights:turbines")
    else:
        w = rng.uniform(0.1, 1, env.scn.n_s)
        fr[FV.WEIGHT] = ((FC.STATE,), w / w.sum())
        rec.event("weights:states")
    return fr, n


def wgt(fr, t):
    w = fr[FV.WEIGHT].values
    return w if w.ndim == 1 else w[:, t]


def run_rose(spec, rec, rng, env):
    fr, n = rose_input(spec, rec, rng, env)
    t = int(rng.integers(0, env.scn.n_t))
    v = str(rng.choice([FV.AMB_REWS, FV.REWS, FV.TI]))
    x = fr[v].values[:, t]
    wb = np.unique(np.round(np.r_[0, np.quantile(x, np.sort(rng.random(int(rng.integers(1, 5))))), x.max() + 0.5], 3))
    inf = rng.random() < 0.3
    pts = rng.random() < 0.3
    wdv = FV.AMB_WD
    if pts:
        rec.event("rose:points")
        P = np.broadcast_to(env.scn.points(3, seed=4)[None], (env.scn.n_s, 3, 3)).copy()
        res = env.a.calc_points(env.fr, P)
        v, t = FV.WS, int(rng.integers(0, 3))
        x = res[v].values[:, t]
        wb = np.array([0, 5.0, 9.0, 40.0])
        R = foxes.output.RosePlotOutput(point_results=res)
    else:
        res = fr
        R = foxes.output.RosePlotOutput(farm_results=fr)
    keep = res.copy(deep=True)
    if inf:
        rec.event("rose:inf")
        full = np.r_[wb[:-1], np.inf]
        d = R.get_data(n, v, list(wb[:-1]), turbine=t, point=t, add_inf=True)
    else:
        full = wb
        d = R.get_data(n, v, list(wb), turbine=t, point=t)
    compare(rec, res, keep, "rose-input", "results modified by RosePlotOutput")
    i, j = bins(res[wdv].values[:, t], x, n, full)
    e = np.zeros((n, len(full) - 1))
    w = wgt(res, t)
    for s in range(len(x)):
        if j[s] >= 0:
            e[i[s], j[s]] += 100 * w[s]
    rec.nontrivial(int((e > 0).sum()) > 1)
    rec.close(d["frequency"].values, e, "rose|frequency", f"rose of {v} with {n} sectors", rtol=1e-9, atol=1e-9)
    rec.close(d[wdv].values, np.arange(n) * 360.0 / n, "rose|sectors", "sector centres", atol=1e-9)
    rec.close(d[f"bin_min_{v}"].values, full[:-1], "rose|bins", "lower bin bounds")
    rec.close(d[f"bin_min_{wdv}"].values, (np.arange(n) - 0.5) * 360 / n, "rose|bins", "lower sector bounds", atol=1e-9)
    rec.close(d[f"bin_max_{wdv}"].values, (np.arange(n) + 0.5) * 360 / n, "rose|bins", "upper sector bounds", atol=1e-9)
    if not inf and n > 1:
        ax, d2 = R.get_figure(n, v, list(wb), turbine=t, point=t, ret_data=True)
        compare(rec, d2, d, "rose-figure", "data of the figure")
        tot = np.zeros(n)
        K = len(wb) - 1
        h = np.array([p.get_height() for p in ax.patches]).reshape(K, n)
        rec.close(h.T, e, "rose|bars", "bar heights", rtol=1e-9, atol=1e-9)
        b = np.array([p.get_y() for p in ax.patches]).reshape(K, n)
        rec.close(b, np.cumsum(np.r_[np.zeros((1, n)), e.T[:-1]], 0), "rose|bars", "bar bottoms", rtol=1e-9, atol=1e-9)
        c = np.array([p.get_x() + p.get_width() / 2 for p in ax.patches]).reshape(K, n)
        th = np.mod(np.pi / 2 - np.deg2rad(np.arange(n) * 360 / n), 2 * np.pi)
        rec.close(np.cos(c - th[None]), np.ones((K, n)), "rose|bars", "bar directions", atol=1e-9)
        plt.close(ax.get_figure())


def run_binplot(spec, rec, rng, env):
    fr, n = rose_input(spec, rec, rng, env)
    t = int(rng.integers(0, env.scn.n_t))
    B = foxes.output.WindRoseBinPlot(fr)
    v = str(rng.choice([FV.P, FV.CT, FV.REWS]))
    x = fr[FV.AMB_REWS].values[:, t]
    wb = np.unique(np.round(np.r_[0, np.quantile(x, np.sort(rng.random(int(rng.integers(1, 5))))), x.max() + 0.5], 3))
    i, j = bins(fr[FV.AMB_WD].values[:, t], x, n, wb)
    w, y = wgt(fr, t), fr[v].values[:, t]
    for c in ("weights", "mean_no_weights", "sum_no_weights"):
        d = B.get_data(v, list(wb), wd_sectors=n, turbine=t, contraction=c)
        e = np.full((n, len(wb) - 1), np.nan if c != "sum_no_weights" else 0.0)
        for a in range(n):
            for b in range(len(wb) - 1):
                m = (i == a) & (j == b)
                if m.any():
                    e[a, b] = (w[m] * y[m]).sum() / w[m].sum() if c == "weights" else (y[m].mean() if c[0] == "m" else y[m].sum())
        rec.nontrivial(int(np.isfinite(e).sum()) > 1)
        rec.close(d[v].values, e, "binplot|" + c, f"{v} with {n} sectors, {c}", rtol=1e-8, atol=1e-8)
    rec.close(d[FV.AMB_WD].values, np.arange(n) * 360.0 / n, "binplot|sectors", "sector centres", atol=1e-9)


def run_statesrose(spec, rec, rng, env):
    p = np.array([*env.scn.xy.mean(0), float(rng.uniform(40, 160))])
    n = int(rng.choice([4, 8, 12, 16]))
    wb = [0, 5, 7, 9, 11, 40]
    R = foxes.output.StatesRosePlotOutput(env.scn.states(), p)
    d = R.get_data(n, FV.AMB_WS, wb)
    a = env.algo()
    fr = a.calc_farm()
    pr = a.calc_points(fr, np.broadcast_to(p[None, None], (env.scn.n_s, 1, 3)).copy())
    x = pr[FV.AMB_WS].values[:, 0]
    i, j = bins(pr[FV.AMB_WD].values[:, 0], x, n, np.array(wb))
    e = np.zeros((n, len(wb) - 1))
    w = wgt(pr, 0)
    for s in range(len(x)):
        e[i[s], j[s]] += 100 * w[s]
    rec.nontrivial(int((e > 0).sum()) > 1)
    rec.close(d["frequency"].values, e, "statesrose", "rose of states at a point", rtol=1e-8, atol=1e-8)


# -------------------------------------------------------------------- misc
def run_misc(spec, rec, rng, env):
    fr = env.fr
    rec.nontrivial()
    # table
    keep = fr.copy(deep=True)
    T = foxes.output.StateTurbineTable(fr, out_dir="out")
    V = [FV.P, FV.REWS, FV.AMB_REWS]
    nm = {FV.P: "power", FC.STATE: "time"} if rng.random() < 0.5 else {}
    kw = {}
    st, tt = np.arange(fr.sizes[FC.STATE]), np.arange(fr.sizes[FC.TURBINE])
    if rng.random() < 0.5:
        tt = np.sort(rng.permutation(tt)[: max(1, len(tt) // 2)])
        kw["isel"] = {FC.TURBINE: list(tt)}
    elif rng.random() < 0.5:
        st = np.sort(rng.permutation(st)[: max(1, len(st) // 2)])
        kw["sel"] = {nm.get(FC.STATE, FC.STATE): fr[FC.STATE].values[st]}
    d = T.get_dataset(V, name_map=nm, to_file="t.nc", **kw)
    ds = xr.load_dataset("out/t.nc")
    for v in V:
        e = fr[v].values[np.ix_(st, tt)]
        rec.close(d[nm.get(v, v)].values, e, "table|values", f"{v} of table")
        rec.close(fr[v].values, keep[v].values, "table|input", f"{v} modified by writing a table")
        rec.close(ds[nm.get(v, v)].values, e, "table|file", f"{v} of table file", rtol=1e-6, atol=1e-3)
    rec.check(bool(np.all(d[nm.get(FC.STATE, FC.STATE)].values == fr[FC.STATE].values[st])), "table|states", "states of table")
    # map
    if env.scn.n_s > 1:
        ax = foxes.output.StateTurbineMap(fr).plot_map(FV.P)
        z = np.ma.getdata(ax.collections[0].get_array())
        rec.close(np.reshape(z, fr[FV.P].shape), fr[FV.P].values, "map", "state turbine map")
        q = np.asarray(ax.collections[0].get_coordinates(), float)
        for t, (y, lb) in enumerate(zip(ax.get_yticks(), ax.get_yticklabels())):
            if lb.get_text() == str(t):
                rec.check(q[0, t, 1] < y < q[0, t + 1, 1], "map|ticks", f"tick {y} of turbine {t}, its row is {q[0, t:t+2, 1]}")
        plt.close(ax.get_figure())
    # layout
    s = int(rng.integers(0, env.scn.n_s))
    farm = env.a.farm
    for res in (True, False):
        L = foxes.output.FarmLayoutOutput(farm, farm_results=fr, from_results=res, results_state=s if res else None, out_dir="out")
        g = L.get_layout_data()
        rec.close(g[:, :2], env.scn.xy, "layout|xy", "layout data", rtol=1e-9, atol=1e-6)
        if res:
            rec.close(g[:, 2], fr[FV.H].values[s], "layout|h", "layout heights")
        dd = list(L.get_layout_dict().values())[0]
        for k, tb in enumerate(farm.turbines):
            q = dd[tb.name]
            rec.close(np.array([q["UTMX"], q["UTMY"], q["id"]], float), np.array([*env.scn.xy[k], k], float), "layout|dict", "layout dict", atol=1e-6)
    w = fr[FV.WEIGHT].values
    w = w if w.ndim == 2 else w[:, None]
    p = fr[FV.P].values
    for op, e in dict(mean=(w * p).sum(0), sum=p.sum(0), min=p.min(0), max=p.max(0)).items():
        if env.scn.n_t < 2:
            break
        ax, im = L.get_figure(color_by=f"{op}_{FV.P}", ret_im=True)
        rec.close(np.ma.getdata(im.get_array()), e, "layout|color", f"colors by {op}", rtol=1e-9, atol=1e-9)
        rec.close(np.ma.getdata(im.get_offsets()), env.scn.xy, "layout|points", "scatter positions", rtol=1e-9, atol=1e-6)
        plt.close(ax.get_figure())


    # rotor points
    rec.event("rotor-plot")
    rm = env.a.mbook.rotor_models[str(rng.choice(["grid4", "grid16", "grid9", "level3", "level10"]))]
    im = foxes.output.RotorPointPlot(rm, env.a).get_point_figure()
    P, W = np.asarray(rm.design_points()), np.asarray(rm.rotor_point_weights())
    rec.close(np.ma.getdata(im.get_offsets()), P[:, 1:], "rotor-plot|points", "plotted rotor points")
    rec.close(np.ma.getdata(im.get_array()), 100 * W, "rotor-plot|weights", "plotted weights")
    plt.close(im.figure)


def run_curves(spec, rec, rng, env):
    c = make_curve(rng)
    mb = foxes.ModelBook()
    D = float(rng.uniform(80, 150))
    tt = foxes.models.turbine_types
    kind = ["file", "rho", "ti"][spec["ci"] % 3]
    kw = {}
    pnom = dict(D=D, H=100.0, P_nominal=float(c.P.max()))
    cur = {"P": c.P.to_numpy(), "ct": c.ct.to_numpy()}
    if kind == "file":
        mb.turbine_types["TX"] = tt.PCtFile(c.copy(), **pnom)
    else:
        # curves for several air densities or turbulence intensities
        g = np.array([0.9, 1.1, 1.3]) if kind == "rho" else np.array([0.02, 0.1, 0.2])
        fac = np.array([0.7, 0.9, 1.0]) if kind == "rho" else np.array([1.0, 0.93, 0.8])
        rec.event("curves:" + kind)
        x = float(rng.uniform(g[0], g[-1]))
        kw[kind] = x
        fP = pd.DataFrame({**{str(q): c.P.to_numpy() * f for q, f in zip(g, fac)}}, index=c.ws.to_numpy())
        fc = pd.DataFrame({**{str(q): c.ct.to_numpy() * f for q, f in zip(g, fac)}}, index=c.ws.to_numpy())
        f = np.interp(x, g, fac)
        cur = {k: v * f for k, v in cur.items()}
        cls = tt.WsRho2PCtFromTwo if kind == "rho" else tt.WsTI2PCtFromTwo
        mb.turbine_types["TX"] = cls(fP, fc, **pnom)
    T = foxes.output.TurbineTypeCurves(mb)
    step = float(rng.choice([0.1, 0.25, 0.5]))
    kw.update(ws_min=3.5, ws_max=24.5, ws_step=step)
    pm = None
    if kind == "file" and rng.random() < 0.75:
        pm = float(c.P.max() * rng.uniform(0.5, 0.95))
        kw["P_max"] = pm
        rec.event("P_max")
    n0 = set(mb.turbine_models.keys())
    V = [FV.P, FV.CT]
    r = rng.random()
    if r < 0.5:
        axs = T.plot_curves("TX", V, axs=list(plt.subplots(1, 2)[1]), **kw)
    elif r < 0.8:
        rec.event("curves:no-axes")
        axs = T.plot_curves("TX", V, **kw)
    else:
        rec.event("curves:no-axes")
        axs = [T.plot_curves("TX", v, **kw)[0] for v in V]
    rec.check(set(mb.turbine_models.keys()) == n0, "curves|mbook", "model book changed")
    rec.nontrivial()
    for ax, col in zip(axs, ("P", "ct")):
        x, y = ax.lines[0].get_data()
        x, y = np.asarray(x, float), np.asarray(y, float)
        rec.check(abs(x[0] - 3.5) < 1e-9 and x[-1] >= 24.5 - 1e-6, "curves|range", f"{x[0]} {x[-1]}")
        m = (x > c.ws.min()) & (x < c.ws.max())
        rec.close(y[m], np.interp(x[m], c.ws, cur[col]), f"curves|{col}" + ("" if kind == "file" else "|" + kind), f"default {col} curve", rtol=1e-8, atol=1e-8)
        if pm is not None:
            y1 = np.asarray(ax.lines[1].get_data()[1], float)
            if col == "P":
                rec.close(y1[m], np.minimum(y[m], pm), "curves|P_max", "limited power curve", rtol=1e-8, atol=1e-6)
        plt.close(ax.get_figure())


# -------------------------------------------------------------- animations
PLANE = ("x_direction", "n_img_points", "resolution", "x", "y", "z") + tuple(a + b for a in "xyz" for b in ("min", "max", "space"))


def run_animation(spec, rec, rng, env):
    """images created while stepping through the states are those of the full calculation"""
    var = str(rng.choice([FV.WS, FV.AMB_WS, FV.TI]))
    ori = ["xy", "xz", "yz"][spec["seed"] % 3]
    rec.event("ori:" + ori)
    kw, A, B, pos, n, pts = slice_pars(rng, env, ori, rec)
    exp = expected(env, pts, [var], "states", np.arange(env.scn.n_s), rec)[var]
    title = None
    if rng.random() < 0.6:
        title = lambda i, s: f"<{i}|{s}>"
        rec.event("animation:titles")
    kw.update(var=var, title=title, animated=bool(rng.random() < 0.5))
    if rng.random() < 0.5:
        kw.update(vmin=float(exp.min()), vmax=float(exp.max()))
    rot = ori == "xy" and rng.random() < 0.6
    if rot:
        kw["rotor_color"] = "red"
    st = env.fr[FC.STATE].values
    A_ = env.scn.algo(cls="Sequential")
    pl = foxes.output.SeqFlowAnimationPlugin(orientation=ori, **kw)
    A_.plugins.append(pl)
    both = bool(rng.random() < 0.5)
    if both:  # the same and another animation, combined by the animator
        ps = [foxes.output.SeqFlowAnimationPlugin(orientation=ori, var=w, vmin=0.0, vmax=400.0, animated=True, **{x: y for x, y in kw.items() if x in PLANE}) for w in (var, FV.WD)]
        A_.plugins.extend(ps)
    k = -1
    for k, fr in enumerate(A_):
        rec.close(fr[FV.REWS].values[0], env.fr[FV.REWS].values[k], "animation|farm", f"REWS of state {k} in a sequential run", rtol=1e-5, atol=1e-5)
    rec.check(k + 1 == len(st), "animation|steps", f"{k + 1} steps for {len(st)} states")
    for fr in env.scn.algo(cls="Sequential"):  # another calculation, without this animation
        pass
    fig, ax = plt.subplots()
    k = -1
    for k, (f, im) in enumerate(pl.gen_images(ax)):
        z = np.reshape(np.ma.getdata(im[0].get_array()), exp[k].T.shape)
        rec.close(z, exp[k].T, "animation|image", f"image {k} of {var}, {ori}", rtol=1e-5, atol=1e-5)
        rec.check(f is fig, "animation|figure", "image drawn in another figure")
        lb = (ax.get_xlabel()[0], ax.get_ylabel()[0])
        rec.check(lb == tuple(ori), "animation|axes", f"axes {lb} for orientation {ori}")
        rec.close(np.sort(ax.get_xlim()), np.array([A[0], A[-1]]), "animation|xlim", "horizontal limits", rtol=1e-9, atol=1e-6)
        rec.close(np.sort(ax.get_ylim()), np.array([B[0], B[-1]]), "animation|ylim", "vertical limits", rtol=1e-9, atol=1e-6)
        t = ax.texts[-1].get_text() if kw["animated"] else ax.get_title()
        if title is not None:
            rec.check(t == title(k, st[k]), "animation|title", f"title '{t}' of image {k}, expected '{title(k, st[k])}'")
        if "vmin" in kw:
            rec.close(np.array(im[0].get_clim()), np.array([kw["vmin"], kw["vmax"]]), "animation|clim", "colour range")
        if rot:
            n_t = env.scn.n_t
            L = ax.lines[-n_t:]
            rec.check(len(ax.lines) == n_t * (k + 1), "animation|rotors", f"{len(ax.lines)} lines after {k + 1} images of {n_t} turbines")
            for t_, ln in enumerate(L):
                xy = np.stack(ln.get_data(), -1).astype(float)
                e = axes_of(float(env.fr[FV.AMB_WD].values[k, t_]))
                rec.close((xy[1] - xy[0]) @ e[0][:2], 0.0, "animation|rotor-angle", f"rotor line of image {k} not normal to the wind", atol=1e-5)
    rec.check(k + 1 == len(st), "animation|count", f"{k + 1} images for {len(st)} states")
    plt.close(fig)
    if both:
        rec.event("animator")
        wd = expected(env, pts, [FV.WD], "states", np.arange(env.scn.n_s), rec)[FV.WD]
        fig, ax = plt.subplots(1, 2)
        an = foxes.output.Animator()
        for a, p in zip(ax, ps):
            an.add_generator(p.gen_images(a))
        marks = [ax[0].scatter([i], [i], animated=True) for i in range(len(st) - 1)]
        an.add_generator((fig, [q]) for q in marks)  # one frame less
        frames = an.animate(verbosity=0)
        frames._draw_was_started = True
        F = list(frames.new_frame_seq())
        rec.check(len(F) == len(st), "animator|frames", f"{len(F)} frames for {len(st)} states")
        for k, f in enumerate(F):
            rec.check([q for q in f if q in marks] == marks[k : k + 1], "animator|shorter", f"frame {k}: marker missing or added")
            z = [np.ma.getdata(q.get_array()) for q in f if isinstance(q, matplotlib.collections.QuadMesh)]
            rec.check(len(z) == 2, "animator|artists", f"{len(z)} images in frame {k} of two animations")
            for q, e in zip(z, (exp[k], wd[k])):
                rec.close(np.reshape(q, e.T.shape), e.T, "animator|image", f"frame {k}", rtol=1e-5, atol=1e-5)
        plt.close(fig)


def run(spec, rec):
    rng = rng_of("c18", spec["seed"])
    env = Env(spec)
    rec.event("kind:" + spec["kind"])
    with ctx(spec["engine"]):
        env.start()
        globals()["run_" + spec["kind"]](spec, rec, rng, env)
    plt.close("all")
    rec.sample = dict(kind=spec["kind"], n_t=env.scn.n_t, n_s=env.scn.n_s)
