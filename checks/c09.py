"""C09: unsteady wakes and flow: streak lines, delays, causality, stationary limit"""

import numpy as np
import pandas as pd
import foxes
import foxes.variables as FV
import foxes.constants as FC

from harness.core import rng_of
from harness.scen import Scenario, random_spec, engine_ctx, make_curve
from harness.cmp import max_deficit
from harness import ref

PROPERTY = "C09"
RULE = (
    "random farms in random time series with the three dynamic wake frames and with one point flow: delayed scalar simulator for constant "
    "wind directions, streak lines for turning wind, perturbed futures, moved farms, other chunks, stationary inflow; non-trivial when "
    "delayed wakes or delayed inflow were observed"
)
ASSUMES = [
    "displacements between states differ by less than a factor of 1.8",
    "between its nodes a streak line is judged in constant wind direction only",
]
REQUIRED_EVENTS = [
    "delayed-turbines", "delayed-points", "before-front", "behind-front", "node-points", "future-changed", "truncated", "stationary", "chunks",
    "moved", "permuted", "selected", "opf-selected", "opf-moved", "opf-ref", "opf-delay", "opf-ahead", "opf-ends", "opf-turbines", "opf-weights", "centreline", "plugin-updates", "seq-ambient", "age-limit", "own-hub",
    "frame:timelines", "frame:dyn", "frame:seq",
]
NOCUT = dict(mod_cutin=dict(modify_ct=False, modify_P=False))
FRAMES = ["timelines", "dyn", "seq"]
WIND = ["Jensen", "Bastankhah2014", "Bastankhah025", "TurbOPark", "Bastankhah2014B"]
TIW = ["CrespoHernandez", "IECTI2019", "IECTI2005"]
SUP = ["linear", "linear_amb", "quadratic", "linear_loc", "max", "quadratic_amb", "product", "linear_lim"]
OV = [FV.WS, FV.WD, FV.TI, FV.RHO]


def cases(tier, seed):
    q = tier == "quick"
    out = []

    def add(kind, n, **kw):
        for i in range(n):
            rng = rng_of(PROPERTY, seed, kind, i)
            out.append(dict(kind=kind, i=i, seed=int(rng.integers(1 << 31)), **kw))

    add("delay", 60 if q else 900)
    add("nodes", 30 if q else 450)
    add("causal", 24 if q else 360)
    add("moved", 24 if q else 360)
    add("steady", 18 if q else 270)
    add("opf", 40 if q else 600)
    add("seqrun", 24 if q else 360)
    add("hub", 9 if q else 120)
    return out


def run(spec, rec):
    rng = rng_of("C09run", spec["seed"])
    globals()["k_" + spec["kind"]](spec, rng, rec)


def pick(rng, seq):
    return seq[int(rng.integers(len(seq)))]


class Case:
    """a farm in a horizontally uniform time series"""

    def __init__(self, rng, n_t=(2, 5), n_s=(4, 9), turn=0.0, row=True, ratio=1.35):
        self.rng = rng
        self.n_t = int(rng.integers(n_t[0], n_t[1] + 1))
        self.n_s = n = int(rng.integers(n_s[0], n_s[1] + 1))
        m = int(rng.integers(1, 3))
        self.types = []
        for i in range(m):
            D = float(np.round(rng.uniform(80, 150), 1))
            self.types.append(
                dict(name=f"T{i}", D=D, H=float(np.round(D / 2 + rng.uniform(25, 60), 1)), curve=make_curve(rng), rho=1.225)
            )
        self.tt = rng.integers(0, m, self.n_t)
        wd0 = float(rng.uniform(0, 360))
        self.ws = rng.uniform(6.5, 6.5 * ratio, n)
        self.wd = np.mod(wd0 + (np.cumsum(rng.uniform(-turn, turn, n)) if turn else 0.0), 360) * np.ones(n)
        self.ti = rng.uniform(0.04, 0.12, n) if rng.random() < 0.6 else np.full(n, 0.07)
        self.rho = np.full(n, 1.225)
        self.dtk = pick(rng, ["regular", "regular", "irregular", "dt_min"])
        dt = int(pick(rng, [40, 60, 90, 120]))
        self.dt = np.full(n, dt)
        if self.dtk == "irregular":
            self.dt = rng.integers(dt, int(1.3 * dt) + 1, n)
            self.dt[-1] = self.dt[max(n - 2, 0)]
        self.set_time()
        # weights of the states, in half of the cases
        h = int(abs(self.ws[0]) * 1e6)
        self.w = np.random.default_rng(h).uniform(0.1, 1.0, n) if h % 2 else None
        # positions along and across the mean wind
        nd = ref.wd2vec(wd0)
        self.nd, self.md = nd, np.array([-nd[1], nd[0]])
        Dm = max(t["D"] for t in self.types)
        x = np.cumsum(rng.uniform(3.0, 9.0, self.n_t)) * Dm
        y = rng.uniform(-0.9, 0.9, self.n_t) * Dm
        o = rng.uniform(-3000, 3000, 2)
        self.xy = o + x[:, None] * nd + y[:, None] * self.md
        self.xy = self.xy[rng.permutation(self.n_t)]

    def set_time(self):
        d = np.r_[0, np.cumsum(self.dt[:-1])]
        self.time = np.datetime64("2022-05-01T00:00:00", "ns") + d.astype("timedelta64[s]")

    @property
    def step(self):
        return self.ws * self.dt

    def wakes(self, frame=None):
        rng = self.rng
        if frame == "timelines" and rng.random() < 0.4:
            # needs points along the wake centreline
            w = [f"TurbOParkIX_{pick(rng, SUP)}_k004_dx{int(rng.integers(30, 90))}"]
            return w + [f"{pick(rng, ['CrespoHernandez', 'IECTI2019k'])}_{pick(rng, ['quadratic', 'max'])}_k004"]
        k = str(pick(rng, ["k002", "k004", "k0075", "ambka04"]))
        w = [f"{pick(rng, WIND)}_{pick(rng, SUP)}_{k}"]
        if rng.random() < 0.4:
            t = pick(rng, TIW)
            w.append(f"{t}_{pick(rng, ['linear', 'quadratic', 'max'])}" + ("" if t != "CrespoHernandez" else "_k004"))
        return w

    # --- foxes objects
    def states(self, sel=None, ws=None, wd=None, ti=None, cls=None, **kw):
        sel = slice(None) if sel is None else sel
        ws, wd, ti = (a if b is None else b for a, b in ((self.ws, ws), (self.wd, wd), (self.ti, ti)))
        ind = pd.Index(self.time[sel], name="Time")
        df = pd.DataFrame(index=ind, data=dict(ws=ws[sel], wd=np.mod(wd, 360)[sel], ti=ti[sel]))
        if self.w is not None:
            df["weight"] = self.w[sel]
        a = dict(data_source=df, output_vars=OV, var2col={FV.WS: "ws", FV.WD: "wd", FV.TI: "ti"}, fixed_vars={FV.RHO: 1.225})
        return (foxes.input.states.Timeseries if cls is None else cls)(**a, **kw)

    def frame(self, name, **kw):
        F = foxes.models.wake_frames
        if self.dtk == "dt_min":
            kw["dt_min"] = self.dt[0] / 60
        if name == "timelines":
            return F.Timelines(**kw)
        if name == "dyn":
            return F.DynamicWakes(**{"max_age": self.n_s + 1, **kw})
        return F.SeqDynamicWakes(**kw)

    def algo(self, frame, wakes, states=None, xy=None, order=None, fkw={}, frame_obj=None, own_h=False, **kw):
        mb = foxes.ModelBook()
        for i, t in enumerate(self.types):
            H = t["H"] + (37.0 - 20 * i) * own_h
            mb.turbine_types[t["name"]] = foxes.models.turbine_types.PCtFile(t["curve"].copy(), D=t["D"], H=H, rho=t["rho"])
        fo = self.frame(frame, **fkw) if isinstance(frame, str) else frame
        mb.wake_frames["my_frame"] = fo if frame_obj is None else frame_obj
        farm = foxes.WindFarm()
        xy = self.xy if xy is None else xy
        for i in range(self.n_t) if order is None else order:
            farm.add_turbine(
                foxes.Turbine(
                    xy=xy[i].copy(), name=f"WT{i}", turbine_models=[self.types[self.tt[i]]["name"]],
                    **(dict(H=self.types[self.tt[i]]["H"]) if own_h else {}),
                ),
                verbosity=0,
            )
        cls = foxes.algorithms.Sequential if frame == "seq" else foxes.algorithms.Iterative
        crit = foxes.algorithms.iterative.models.ConvVarDelta({FV.REWS: 1e-9, FV.TI: 1e-10, FV.CT: 1e-10})
        return cls(
            farm, self.states() if states is None else states, wake_models=list(wakes), wake_frame="my_frame", mbook=mb,
            conv_crit=crit, verbosity=0, **NOCUT, **kw,
        )

    def check_weights(self, fr, n):
        if self.w is not None:
            w = fr[FV.WEIGHT].values.reshape(n, -1)
            ok = np.allclose(w, self.w[:n, None], rtol=1e-10)
            assert ok, f"weights of the results {w[:, 0]} are not those of the time series {self.w[:n]}"

    def calc(self, frame, wakes, pts=None, engine=("single", None, None, None), **kw):
        """farm results as dict of arrays, point results at pts (n_s, n_p, 3)"""
        with engine_ctx(*engine):
            al = self.algo(frame, wakes, **kw)
            if frame != "seq":
                fr = al.calc_farm()
                self.check_weights(fr, fr.sizes[FC.STATE])
                pr = al.calc_points(fr, pts) if pts is not None else None
                return (
                    {v: fr[v].values for v in fr.data_vars if fr[v].dims == (FC.STATE, FC.TURBINE)},
                    None if pr is None else {v: pr[v].values for v in (FV.WS, FV.WD, FV.TI, "AMB_WS") if v in pr},
                )
            F, P = [], []
            for s, fr in enumerate(al):
                F.append({v: fr[v].values[0] for v in fr.data_vars if fr[v].dims == (FC.STATE, FC.TURBINE)})
                if pts is not None:
                    pr = al.calc_points(fr, pts[s][None])
                    P.append({v: pr[v].values[0] for v in (FV.WS, FV.WD, FV.TI) if v in pr})
            return (
                {v: np.stack([f[v] for f in F]) for v in F[0]},
                None if pts is None else {v: np.stack([p[v] for p in P]) for v in P[0]},
            )


def ieng(rng, frame):
    if frame == "seq":
        return ("single", None, None, None)
    e = pick(rng, ["single", "numpy", "threads", "process"] if rng.random() < 0.3 else ["single", "numpy", "numpy"])
    return (e, 2, int(rng.integers(1, 5)), int(rng.integers(3, 9)) if rng.random() < 0.3 else None)


# ------------------------------------------------------------ delays


class Delayed:
    """scalar simulator: wakes seen at state s were emitted when the air passed the turbine"""

    def __init__(self, c, wakes, max_age=None, **kw):
        self.c = c
        self.max_age = c.n_s + 10 if max_age is None else max_age
        self.R = [
            ref.RefFarm(self.turbines(), c.wd[s], c.ti[s], c.rho[s], (lambda Z, u=c.ws[s]: np.full(len(Z), u)), wakes, **kw) for s in range(c.n_s)
        ]
        self.bad = np.zeros((c.n_s, c.n_t), bool)
        self.seen = 0  # wakes from earlier states
        self.front = 0
        self.behind = 0
        self.lim = 0

    def turbines(self):
        c = self.c
        out = []
        for i in range(c.n_t):
            t = c.types[c.tt[i]]
            cu = t["curve"]
            out.append(
                dict(
                    x=c.xy[i, 0], y=c.xy[i, 1], H=t["H"], D=t["D"], ws=cu["ws"].to_numpy(), P_curve=cu["P"].to_numpy(), ct_curve=cu["ct"].to_numpy(),
                    rho=t["rho"], gamma=0.0,
                )
            )
        return out

    def source(self, s, x):
        """age of the wake at distance x in state s; None: not there yet, nan: unclear"""
        c = self.c
        if x <= 0:
            return 0
        A = min(s, self.max_age - 1)
        L = np.r_[0, np.cumsum(c.step[:s][::-1])][: A + 1]
        d = np.abs(x - L)
        a = int(np.argmin(d))
        if a == A and x > L[a]:
            if x - L[a] > 1.001 * c.step.max():
                self.lim += int(A < s)
                return None
            if x - L[a] > 0.999 * c.step.min():
                return np.nan
        e = np.sort(d)
        if len(e) > 1 and e[1] - e[0] < 1.0:
            return np.nan
        return a

    def sources(self, s, X, skip=None):
        """snapshots of all turbines that reach downwind coordinate X in state s, and if that is clear"""
        R = self.R[s]
        out, bad = [], False
        for i in range(self.c.n_t):
            if i == skip:
                continue
            x = X - R.pos(R.T[i])[0]
            if x <= 1e-8:
                continue
            a = self.source(s, x)
            if a is None:
                self.front += 1
            elif np.isnan(a):
                bad = True
            else:
                self.seen += int(a > 0)
                self.behind += 1
                bad = bad or self.bad[s - a, i]
                out.append(self.R[s - a].T[i])
        return out, bad

    def run(self):
        for s in range(self.c.n_s):
            R = self.R[s]
            for i in sorted(range(self.c.n_t), key=lambda i: R.pos(R.T[i])[0]):
                t = R.T[i]
                up, self.bad[s, i] = self.sources(s, R.pos(t)[0], skip=i)
                n = len(ref.rotor_points(R.rotor)[1])
                dws, dti = np.zeros(n), np.zeros(n)
                for W in R.W:
                    e = R.turbine_effect(W, t, up)
                    if W.var == "WS":
                        dws = dws + e
                    else:
                        dti = dti + e
                R.finish(t, dws, dti)

    def point(self, s, p):
        R = self.R[s]
        up, bad = self.sources(s, float(p[:2] @ R.n))
        T = R.T
        R.T = up
        ws, ti = R.points(p[None])
        R.T = T
        return ws[0], ti[0], bad


def k_delay(spec, rng, rec):
    fname = FRAMES[spec["i"] % 3]
    c = Case(rng)
    w = c.wakes()
    kw = {}
    if rng.random() < 0.5:
        kw["partial_wakes"] = pick(rng, ["centre", "rotor_points", "axiwake5"])
    if rng.random() < 0.3:
        kw["rotor_model"] = pick(rng, ["grid4", "level5", "grid9"])
    fkw = {}
    age = None
    if fname == "dyn" and rng.random() < 0.4:
        age = fkw["max_age"] = int(rng.integers(2, 5))
    n_p = 12
    pts = np.zeros((c.n_s, n_p, 3))
    L = c.step.mean() * (c.n_s + 1)
    for s in range(c.n_s):
        b = c.xy[rng.integers(0, c.n_t, n_p)]
        pts[s, :, :2] = b + (rng.uniform(-0.1, 1.0, n_p) ** 2 * min(L, 3000))[:, None] * c.nd + (rng.uniform(-1, 1, n_p) * 80)[:, None] * c.md
        pts[s, :, 2] = rng.uniform(40, 160, n_p)
    eng = ieng(rng, fname)
    fr, pr = c.calc(fname, w, pts, eng, fkw=fkw, **kw)
    o = Delayed(c, w, age, rotor=kw.get("rotor_model", "centre"), pwakes=kw.get("partial_wakes"))
    o.run()
    what = f"{fname} {c.dtk} {w} {kw} {fkw} {eng}"
    rec.event("frame:" + fname)
    ok = ~o.bad
    grid = kw.get("rotor_model", "centre") != "centre" or o.R[0].wmod(o.R[0].W[0]).startswith("grid")
    tol = 1.5e-3 if grid else 1e-6
    for v in (FV.AMB_REWS, FV.REWS, FV.CT, FV.TI):
        want = np.array([[t[v] for t in R.T] for R in o.R])
        sc = 5.0 if v == FV.CT else 1.0
        rec.close(fr[v], want, f"{v}|delay|{fname}", what, rtol=tol * sc, atol=tol * sc, mask=ok)
    rec.event("delayed-turbines", o.seen)
    seen = o.seen
    if age is not None:
        rec.event("age-limit", o.lim)
    # flow, with the observed turbine results
    for s in range(c.n_s):
        for i in range(c.n_t):
            for v in (FV.REWS, FV.TI, FV.CT, FV.AMB_REWS, FV.AMB_TI, FV.AMB_CT):
                if v in fr:
                    o.R[s].T[i][v] = float(fr[v][s, i])
        o.R[s].W = [ref.WakeSpec(x) for x in w]
    o.bad[:] = False
    o.front = o.behind = 0
    want = np.array([[o.point(s, pts[s, j]) for j in range(n_p)] for s in range(c.n_s)])
    ok = want[..., 2] == 0
    rec.close(pr[FV.WS], want[..., 0], f"WS|delay-points|{fname}", what, rtol=1e-6, atol=1e-6, mask=ok)
    rec.close(pr[FV.TI], want[..., 1], f"TI|delay-points|{fname}", what, rtol=1e-6, atol=1e-6, mask=ok)
    rec.event("delayed-points", o.seen - seen)
    rec.event("before-front", o.front)
    rec.event("behind-front", o.behind)
    rec.nontrivial(seen > 0 and float(np.max(fr[FV.AMB_REWS] - fr[FV.REWS])) > 1e-3)
    rec.sample = dict(what=what)
    rec.sig = [fname, c.dtk, w[0], str(kw), eng[0]]


# ------------------------------------------------------------ streak lines


def k_nodes(spec, rng, rec):
    """turning wind: points on the streak line of a turbine, at the places of its nodes"""
    fname = FRAMES[spec["i"] % 3]
    c = Case(rng, n_t=(1, 1), turn=35.0, ratio=1.6)
    w = c.wakes()
    nodes = []  # (s, a, L, p)
    for s in range(c.n_s):
        p, L = c.xy[0].copy(), 0.0
        N = [p.copy()]
        ls = [0.0]
        for a in range(1, s + 1):
            # the air that passed the turbine at state s - a
            q = c.xy[0].copy()
            l = 0.0
            for k in range(s - a, s):
                q = q + c.step[k] * ref.wd2vec(c.wd[k])
                l += c.step[k]
            N.append(q)
            ls.append(l)
        N = np.array(N)
        for a in range(1, s + 1):
            d = np.linalg.norm(N - N[a], axis=-1)
            d[a] = 1e9
            if d.min() > 5:
                nodes.append((s, a, ls[a], N[a]))
    n_p = max([1] + [sum(1 for n in nodes if n[0] == s) for s in range(c.n_s)]) + 1
    H = c.types[c.tt[0]]["H"]
    pts = np.zeros((c.n_s, n_p, 3))
    want = np.full((c.n_s, n_p, 2), np.nan)
    lst = [[n for n in nodes if n[0] == s] for s in range(c.n_s)]
    for s in range(c.n_s):
        for j in range(n_p):
            z = H + rng.uniform(-45, 45)
            if j < len(lst[s]):
                pts[s, j] = [*lst[s][j][3], z]
            else:
                pts[s, j] = [c.xy[0][0] - 9e4, c.xy[0][1], z]
    eng = ieng(rng, fname)
    fr, pr = c.calc(fname, w, pts, eng)
    rec.event("frame:" + fname)
    o = Delayed(c, w)
    o.run()
    what = f"{fname} {c.dtk} {w} {eng}"
    for v in (FV.REWS, FV.CT, FV.TI, FV.AMB_TI):
        t = np.array([[t[v] for t in R.T] for R in o.R])
        rec.close(fr[v], t, f"{v}|single|{fname}", what, rtol=1e-7, atol=1e-7)
    dmax = 0.0
    base = [dict(R.T[0]) for R in o.R]
    for s in range(c.n_s):
        R = o.R[s]
        for j, n in enumerate(lst[s]):
            src = dict(base[s - n[1]])
            q = n[3] - n[2] * R.n
            src.update(x=q[0], y=q[1])
            R.T = [src]
            want[s, j] = [float(x[0]) for x in R.points(pts[s, j][None])]
        for j in range(len(lst[s]), n_p):
            want[s, j] = c.ws[s], c.ti[s]
        dmax = max(dmax, float(np.max(c.ws[s] - want[s, :, 0])))
    rec.event("node-points", len(nodes))
    rec.close(pr[FV.WS], want[..., 0], f"WS|node|{fname}", what, rtol=1e-6, atol=1e-6)
    rec.close(pr[FV.TI], want[..., 1], f"TI|node|{fname}", what, rtol=1e-6, atol=1e-6)
    rec.nontrivial(len(nodes) > 3 and dmax > 1e-3)
    rec.sample = dict(what=what)
    rec.sig = [fname, c.dtk, w[0], eng[0]]


# ------------------------------------------------------------ relations


def farm_points(c, rng, n):
    pts = np.zeros((c.n_s, n, 3))
    D = max(t["D"] for t in c.types)
    for s in range(c.n_s):
        nd = ref.wd2vec(c.wd[s])
        b = c.xy[rng.integers(0, c.n_t, n)]
        pts[s, :, :2] = b + rng.uniform(0, 14, n)[:, None] * D * nd + rng.uniform(-80, 80, (n, 2))
        pts[s, :, 2] = rng.uniform(40, 160, n)
    return pts


RV = [FV.REWS, FV.TI, FV.CT, FV.P, FV.AMB_REWS, FV.AMB_TI]


def same(rec, fr, pr, f2, p2, key, what, s=slice(None), t=slice(None)):
    for v in RV:
        rec.close(f2[v][s][:, t], fr[v][s], f"{v}|{key}", what, rtol=1e-6, atol=2e-6 if v != FV.P else 1e-2)
    if pr is not None:
        for v in (FV.WS, FV.TI):
            rec.close(p2[v][s], pr[v][s], f"{v}|{key}-points", what, rtol=1e-6, atol=2e-6)


def k_causal(spec, rng, rec):
    fname = FRAMES[spec["i"] % 3]
    c = Case(rng, turn=pick(rng, [0.0, 12.0, 30.0]))
    w = c.wakes(fname)
    if w[0].startswith("TurbOParkIX"):
        rec.event("centreline")
    pts = farm_points(c, rng, 8)
    eng = ieng(rng, fname)
    fr, pr = c.calc(fname, w, pts, eng)
    rec.event("frame:" + fname)
    k = int(rng.integers(1, c.n_s))
    f = np.arange(c.n_s) >= k
    ws = np.where(f, c.ws * rng.uniform(0.7, 1.2, c.n_s), c.ws)
    wd = np.where(f, c.wd + rng.uniform(-60, 60, c.n_s), c.wd)
    ti = np.where(f, c.ti * rng.uniform(0.5, 2, c.n_s), c.ti)
    what = f"{fname} {c.dtk} {w} {eng} {c.n_s} states"
    f2, p2 = c.calc(fname, w, pts, eng if rng.random() < 0.5 else ieng(rng, fname), states=c.states(ws=ws, wd=wd, ti=ti))
    same(rec, fr, pr, f2, p2, f"future|{fname}", f"{what}, other inflow from state {k}", s=slice(0, k))
    rec.event("future-changed")
    # inflow of the last states removed
    m = int(rng.integers(2, c.n_s)) if c.n_s > 2 else 2
    e = m - 1 if c.dtk == "irregular" else m
    n0, c.n_s = c.n_s, m
    f3, p3 = c.calc(fname, w, pts[:m], eng, states=c.states(sel=slice(0, m)), fkw=dict(max_age=n0 + 1) if fname == "dyn" else {})
    same(rec, {v: d[:m] for v, d in fr.items()}, {v: d[:m] for v, d in pr.items()}, f3, p3, f"truncated|{fname}", f"{what}, first {m} states only", s=slice(0, e))
    rec.event("truncated")
    rec.nontrivial(float(np.max(fr[FV.AMB_REWS] - fr[FV.REWS])) > 1e-3)
    rec.sample = dict(what=what)
    rec.sig = [fname, c.dtk, w[0], eng[0], k]


def k_moved(spec, rng, rec):
    fname = FRAMES[spec["i"] % 3]
    c = Case(rng, n_t=(2, 6), turn=pick(rng, [0.0, 12.0, 30.0]))
    w = c.wakes(fname)
    if w[0].startswith("TurbOParkIX"):
        rec.event("centreline")
    pts = farm_points(c, rng, 8)
    e1 = ("single", None, None, None)
    fr, pr = c.calc(fname, w, pts, e1)
    rec.event("frame:" + fname)
    what = f"{fname} {c.dtk} {w} {c.n_s} states"
    if fname != "seq":
        e = (pick(rng, ["numpy", "numpy", "threads", "process"]), 2, int(rng.integers(1, c.n_s)), int(rng.integers(2, 8)))
        f2, p2 = c.calc(fname, w, pts, e)
        same(rec, fr, pr, f2, p2, f"chunks|{fname}", f"{what} engine {e}")
        rec.event("chunks")
        e = ieng(rng, fname)
        k = np.sort(rng.choice(c.n_s, int(rng.integers(1, c.n_s)), replace=False))
        with engine_ctx(*e):
            al = c.algo(fname, w)
            f3 = al.calc_farm()
            kw = dict(states_isel=list(k)) if rng.random() < 0.5 else dict(states_sel=list(f3[FC.STATE].values[k]))
            p3 = al.calc_points(f3, pts[k], **kw)
        for v in (FV.WS, FV.TI):
            rec.close(p3[v].values, pr[v][k], f"{v}|selected|{fname}", f"{what} engine {e} states {k}", rtol=1e-6, atol=2e-6)
        rec.event("selected")
    a = float(rng.uniform(0, 360))
    r = np.deg2rad(a)
    M = np.array([[np.cos(r), np.sin(r)], [-np.sin(r), np.cos(r)]])  # clockwise
    sh = rng.uniform(-2000, 2000, 2)
    q = pts.copy()
    q[..., :2] = pts[..., :2] @ M.T + sh
    f2, p2 = c.calc(fname, w, q, e1, states=c.states(wd=c.wd + a), xy=c.xy @ M.T + sh)
    same(rec, fr, pr, f2, p2, f"rotated|{fname}", f"{what} rotated by {a} deg")
    rec.event("moved")
    o = rng.permutation(c.n_t)
    f2, p2 = c.calc(fname, w, pts, e1, order=o)
    same(rec, fr, pr, f2, p2, f"permuted|{fname}", f"{what} turbine order {o}", t=np.argsort(o))
    rec.event("permuted")
    rec.nontrivial(float(np.max(fr[FV.AMB_REWS] - fr[FV.REWS])) > 1e-3)
    rec.sample = dict(what=what)
    rec.sig = [fname, c.dtk, w[0]]


def k_steady(spec, rng, rec):
    fname = FRAMES[spec["i"] % 3]
    c = Case(rng, n_t=(2, 6), ratio=1.0)
    c.ti[:] = c.ti[0]
    c.dt[:] = c.dt[0]
    c.set_time()
    D = max(t["D"] for t in c.types)
    if rng.random() < 0.6:
        # any positions
        L = 3.2 * D * np.sqrt(c.n_t)
        p = []
        while len(p) < c.n_t:
            x = rng.uniform(0, L, 2)
            if all(np.linalg.norm(x - y) > 2.2 * D for y in p):
                p.append(x)
            else:
                L *= 1.01
        c.xy = np.array(p) + rng.uniform(-2000, 2000, 2)
    pts = farm_points(c, rng, 10)
    pts[:] = pts[-1]
    n = ref.wd2vec(c.wd[0])
    X = np.r_[c.xy @ n, pts[-1][:, :2] @ n]
    ext = X.max() - (c.xy @ n).min()
    m = int(np.ceil(ext / c.step[0])) + 2
    k = np.zeros(m, int)
    for a in ("ws", "wd", "ti", "rho", "dt"):
        setattr(c, a, getattr(c, a)[k])
    pts = pts[k]
    c.n_s = m
    c.set_time()
    w = c.wakes(fname)
    if w[0].startswith("TurbOParkIX"):
        rec.event("centreline")
    elif rng.random() < 0.25:
        w[0] = f"Bastankhah2016_{pick(rng, SUP)}_k004"
    kw = {}
    if rng.random() < 0.6:
        kw["rotor_model"] = pick(rng, ["grid4", "level3", "centre", "grid9"])
    if rng.random() < 0.6:
        kw["partial_wakes"] = pick(rng, ["centre", "rotor_points", "grid4"])
    if rng.random() < 0.3:
        kw["ground_models"] = "ground_mirror"
    fr, pr = c.calc(fname, w, pts, ieng(rng, fname), **kw)
    rec.event("frame:" + fname)
    f2, p2 = c.calc(foxes.models.wake_frames.RotorWD(), w, pts, **kw)
    what = f"{fname} {c.dtk} {w} {kw} {m} equal states of {c.step[0]:.0f} m, farm of {ext:.0f} m"
    same(rec, f2, p2, fr, pr, f"steady|{fname}", what, s=slice(m - 1, m))
    rec.event("stationary")
    rec.nontrivial(float(np.max(fr[FV.AMB_REWS] - fr[FV.REWS])) > 1e-3)
    rec.sample = dict(what=what)
    rec.sig = [fname, c.dtk, w[0], str(kw)]


def k_hub(spec, rng, rec):
    """the wind at hub height moves the wakes, also where the turbine has another hub height than its type"""
    fname = FRAMES[spec["i"] % 3]
    c = Case(rng, turn=pick(rng, [0.0, 12.0]))
    w = c.wakes(fname)
    h = [20.0, 90.0, 160.0, 250.0]
    d = {}
    for k, z in enumerate(h):
        d[f"WS-{int(z)}"] = c.ws * (z / 100) ** 0.3
        d[f"WD-{int(z)}"] = np.mod(c.wd + (z - 100) / 8, 360)
        d[f"TI-{int(z)}"] = c.ti * (1 - k / 20)
    d["RHO"] = c.rho
    if c.w is not None:
        d["weight"] = c.w

    def states():
        df = pd.DataFrame(index=pd.Index(c.time, name="Time"), data=d)
        return foxes.input.states.MultiHeightTimeseries(df, output_vars=OV, heights=h, bounds_error=False)

    pts = farm_points(c, rng, 10)
    # wakes at hub height of the first turbine's type, where the wind is known
    e = ieng(rng, fname)
    fr, pr = c.calc(fname, w, pts, e, states=states())
    f2, p2 = c.calc(fname, w, pts, ieng(rng, fname), states=states(), own_h=True)
    rec.event("frame:" + fname)
    rec.event("own-hub")
    H = np.array([c.types[k]["H"] for k in c.tt])
    rec.close(f2[FV.H], np.tile(H, (c.n_s, 1)), f"H|hub|{fname}", "hub heights of the turbines", rtol=1e-12)
    same(rec, fr, pr, f2, p2, f"hub|{fname}", f"{fname} {c.dtk} {w} hub heights of turbines instead of types, sheared and veering flow")
    rec.nontrivial(float(np.max(fr[FV.AMB_REWS] - fr[FV.REWS])) > 1e-3)
    rec.sample = dict(what=f"{fname} {w}")
    rec.sig = [fname, c.dtk, w[0], e[0]]


# ------------------------------------------------------------ one point flow


class Opf:
    """flow that is known at one point: shifted in time along the wind direction of the state"""

    def __init__(self, rng, c):
        self.c = c
        self.rng = rng
        n = c.n_s
        self.mh = rng.random() < 0.35
        if self.mh:
            self.h = np.cumsum(np.round(rng.uniform(30, 70, int(rng.integers(2, 4)))))
        else:
            self.h = np.array([float(np.round(rng.uniform(60, 120), 1))])
        k = len(self.h)
        self.ws = c.ws[:, None] * (1 + np.cumsum(rng.uniform(0.0, 0.15, k)) * (k > 1))[None]
        self.wd = c.wd[:, None] + (np.cumsum(rng.uniform(-4, 4, k)) * (k > 1))[None] * np.ones((n, 1))
        self.ti = rng.uniform(0.03, 0.2, (n, k))
        self.rho = rng.uniform(1.1, 1.3, n)
        self.ref = c.xy.mean(axis=0) + rng.uniform(-800, 800, 2)

    def df(self, dwd=0.0, sel=slice(None)):
        c = self.c
        d = {}
        for i, h in enumerate(self.h):
            t = f"-{int(h)}" if self.mh else ""
            d["WS" + t], d["WD" + t], d["TI" + t] = self.ws[:, i], np.mod(self.wd[:, i] + dwd, 360), self.ti[:, i]
        d["RHO"] = self.rho
        if c.w is not None:
            d["weight"] = c.w
        return pd.DataFrame(index=pd.Index(c.time, name="Time"), data=d).iloc[sel]

    def states(self, ref=None, dwd=0.0, tl=None):
        ST = foxes.input.states
        kw = dict(dt_min=self.c.dt[0] / 60) if self.c.dtk == "dt_min" else {}
        r = self.ref if ref is None else ref
        if self.mh:
            hl = list(self.h) if self.rng.random() < 0.5 else None
            if self.rng.random() < 0.5:
                return ST.OnePointFlowMultiHeightTimeseries(
                    r, self.df(dwd), output_vars=OV, heights=list(self.h), bounds_error=False, tl_heights=hl, **kw
                )
            b = ST.MultiHeightTimeseries(self.df(dwd), output_vars=OV, heights=list(self.h), bounds_error=False)
            s = ST.OnePointFlowStates(r, base_states=b, tl_heights=hl, **kw)
            s.intp_pars["bounds_error"] = False
            return s
        tl = [float(self.h[0])] if tl is None else tl
        if self.rng.random() < 0.3:
            r, tl = [*r, tl[0]], None
        if self.rng.random() < 0.5:
            return ST.OnePointFlowTimeseries(r, self.df(dwd), output_vars=OV, tl_heights=tl, **kw)
        return ST.OnePointFlowStates(r, base_states=ST.Timeseries(self.df(dwd), output_vars=OV), tl_heights=tl, **kw)

    def at(self, s, p):
        """values at a point, number of states that were looked back (> 0) or ahead (< 0), and if the ends were hit"""
        n = self.c.n_s
        R = []
        for i in range(len(self.h)):
            w = np.array([ref.wd2vec(a) for a in self.wd[:, i]])
            d = (self.ws[:, i] * self.c.dt)[:, None] * w @ w[s]
            x = float((p[:2] - self.ref) @ w[s])
            X = np.r_[0, np.cumsum(d[:-1])]
            X = X[s] - X  # state j is at distance X[j]
            uv = self.ws[:, i, None] * w
            V = [uv[:, 0], uv[:, 1], self.ti[:, i], self.rho]
            R.append([float(np.interp(x, X[::-1], v[::-1])) for v in V])
            a = int(x > 1e-6) * int(np.sum(X[:s] < x)) - int(x < -1e-6) * int(np.sum(X[s:] > x))
            e = x > X[0] or x < X[-1]
        R = np.array(R)
        z = float(p[2])
        if len(self.h) > 1:
            i = int(np.clip(np.searchsorted(self.h, z) - 1, 0, len(self.h) - 2))
            f = (z - self.h[i]) / (self.h[i + 1] - self.h[i])
            r = (1 - f) * R[i] + f * R[i + 1]
        else:
            r = R[0]
        return [float(np.hypot(r[0], r[1])), float(np.mod(np.rad2deg(np.arctan2(r[0], r[1])) + 180, 360)), r[2], r[3]], a, e


def close_wd(rec, a, b, key, what, mask=None):
    d = np.mod(np.asarray(a) - np.asarray(b) + 180, 360) - 180
    rec.close(d, np.zeros_like(d), key, what, atol=1e-5, mask=mask)


def k_opf(spec, rng, rec):
    c = Case(rng, n_t=(2, 5), turn=pick(rng, [0.0, 5.0, 9.0]))
    o = Opf(rng, c)
    # hub heights within the data
    for t in c.types:
        if o.mh:
            t["H"] = float(np.round(rng.uniform(o.h[0], o.h[-1]), 1))
    n_p = 14
    L = float(np.mean(c.step))
    pts = np.zeros((c.n_s, n_p, 3))
    for s in range(c.n_s):
        nd = ref.wd2vec(o.wd[s, 0])
        md = np.array([-nd[1], nd[0]])
        x = rng.uniform(-1.2, 1.2, n_p) * L * c.n_s * 0.6
        x[:3] = 0
        x[3:5] *= 3
        y = rng.uniform(-3000, 3000, n_p)
        y[0] = 0
        pts[s, :, :2] = o.ref + x[:, None] * nd + y[:, None] * md
        pts[s, :, 2] = rng.uniform(o.h[0], o.h[-1], n_p)
    want = [[o.at(s, pts[s, j]) for j in range(n_p)] for s in range(c.n_s)]
    W = np.array([[w[0] for w in r] for r in want])
    a = np.array([[w[1] for w in r] for r in want])
    e = np.array([[w[2] for w in r] for r in want])
    TW = np.array([[o.at(s, [*c.xy[i], c.types[c.tt[i]]["H"]])[0] for i in range(c.n_t)] for s in range(c.n_s)])
    frame = pick(rng, ["rotor", "rotor", "timelines", "dyn", "seq"])
    eng = ieng(rng, frame)
    w = c.wakes()
    what = f"{frame} {c.dtk} {eng} heights {o.h} {c.n_s} states"
    if frame == "rotor":
        f0 = foxes.models.wake_frames.RotorWD()
    else:
        f0 = frame
    with engine_ctx(*eng):
        al = c.algo(f0, w, states=o.states())
        if frame == "seq":
            F, P = [], []
            for s, fr in enumerate(al):
                F.append(fr)
                P.append(al.calc_points(fr, pts[s][None]))
            get = lambda R, v: np.concatenate([r[v].values for r in R])
        else:
            fr = al.calc_farm()
            if c.w is not None:
                c.check_weights(fr, c.n_s)
                rec.event("opf-weights")
            F, P = [fr], [al.calc_points(fr, pts)]
            get = lambda R, v: R[0][v].values
            if frame == "rotor":
                k = np.sort(rng.choice(c.n_s, int(rng.integers(1, c.n_s)), replace=False))
                ps = al.calc_points(fr, pts[k], states_isel=list(k))
                for i, v in enumerate(["AMB_WS", "AMB_WD", "AMB_TI", "AMB_RHO"]):
                    rec.close(ps[v].values, get(P, v)[k], f"{v}|opf-selected", f"{what} states {k} selected", rtol=1e-6, atol=1e-6)
                rec.event("opf-selected")
    for i, v in enumerate(["AMB_WS", "AMB_WD", "AMB_TI", "AMB_RHO"]):
        tv = "AMB_REWS" if v == "AMB_WS" else v
        if v == "AMB_WD":
            close_wd(rec, get(P, v), W[..., i], f"{v}|opf-points", what)
            close_wd(rec, get(F, v), TW[..., i], f"{v}|opf-turbines", what)
        else:
            rec.close(get(P, v), W[..., i], f"{v}|opf-points", what, rtol=1e-6, atol=1e-6)
            rec.close(get(F, tv), TW[..., i], f"{tv}|opf-turbines", what, rtol=1e-6, atol=1e-6)
    rec.event("frame:" + frame)
    rec.event("opf-ref", int(np.sum(a == 0)))
    rec.event("opf-delay", int(np.sum((a > 0) & ~e)))
    rec.event("opf-ahead", int(np.sum((a < 0) & ~e)))
    rec.event("opf-ends", int(np.sum(e)))
    rec.event("opf-turbines", c.n_t * c.n_s)
    # everything moved
    if frame != "seq":
        sh = rng.uniform(-1, 1, 2) * pick(rng, [3e3, 6e4])
        with engine_ctx(*(eng if rng.random() < 0.5 else ieng(rng, frame))):
            al = c.algo(f0, w, states=o.states(ref=o.ref + sh), xy=c.xy + sh)
            f2 = al.calc_farm()
            q = pts.copy()
            q[..., :2] += sh
            p2 = al.calc_points(f2, q)
        for v in (FV.AMB_REWS, FV.REWS, FV.TI, FV.CT):
            rec.close(f2[v].values, get(F, v), f"{v}|opf-moved|{frame}", f"{what} moved by {sh}", rtol=1e-5, atol=1e-6)
        for v in (FV.WS, FV.TI):
            rec.close(p2[v].values, get(P, v), f"{v}|opf-moved-points|{frame}", f"{what} moved by {sh}", rtol=1e-5, atol=1e-6)
        rec.event("opf-moved")
    rec.nontrivial(bool(np.any((a != 0) & ~e)))
    rec.sample = dict(what=what)
    rec.sig = [frame, c.dtk, eng[0], len(o.h)]


# ------------------------------------------------------------ sequential runs


class Plug(foxes.algorithms.sequential.SequentialPlugin):
    """records its calls"""

    def __init__(self, log):
        super().__init__()
        self.log = log

    def initialize(self, algo):
        super().initialize(algo)
        self.log.append(("init",))

    def update(self, algo, fres, pres=None):
        super().update(algo, fres, pres)
        get = lambda r, v: r[v if v in r else FV.var2amb[v]].values.copy()
        p = None if pres is None else get(pres, FV.WS)
        self.log.append(("update", algo.counter, algo.index, list(fres[FC.STATE].values), get(fres, FV.REWS), p, algo.iterating))

    def finalize(self, algo):
        super().finalize(algo)
        self.log.append(("final",))


def k_seqrun(spec, rng, rec):
    frame = pick(rng, ["rotor", "rotor", "seq", "streamlines"])
    c = Case(rng, turn=20.0, n_s=(1, 7) if frame != "seq" or rng.random() < 0.2 else (2, 7))
    if c.n_s == 1:
        c.dtk = "dt_min"
    w = c.wakes()
    mk = {
        "rotor": lambda: foxes.models.wake_frames.RotorWD(),
        "streamlines": lambda: foxes.models.wake_frames.Streamlines2D(step=100.0),
        "seq": lambda: c.frame("seq"),
    }[frame]
    pts = farm_points(c, rng, 6)
    pts[:] = pts[:1]
    P = bool(rng.random() < 0.6)
    amb = bool(rng.random() < 0.3)
    what = f"{frame} {c.dtk} {w} {c.n_s} states points={P} ambient={amb}"
    log1, log2 = [], []
    kw = dict(points=pts[:1] if P else None, plugins=[Plug(log1), Plug(log2)])
    kw["ambient"] = amb
    with engine_ctx("single"):
        al = seq_algo(c, mk(), w, **kw)
        rounds = int(rng.integers(1, 3))
        R = []
        for k in range(rounds):
            F, Q = [], []
            for s, r in enumerate(al):
                fr, pr = r if P else (r, None)
                F.append(fr)
                Q.append(pr)
                rec.check(al.counter == s, "seq-counter", f"{what}: counter {al.counter} at state {s}")
                rec.close(al.cur_farm_results[FV.AMB_REWS].values, fr[FV.AMB_REWS].values, "seq-current", what)
                if not amb:
                    rec.close(al.cur_farm_results[FV.REWS].values, fr[FV.REWS].values, "seq-current", what)
            R.append((F, Q))
            rec.check(len(F) == c.n_s, "seq-states", f"{what}: {len(F)} states")
            rec.check(not al.iterating, "seq-end", f"{what}: iterating after the end")
            rec.check(list(al.farm_results[FC.STATE].values) == list(c.time), "seq-labels", f"{what}: {al.farm_results[FC.STATE].values}")
            for v in [v for v in (FV.REWS, FV.AMB_REWS, FV.TI, FV.AMB_TI, FV.P, FV.CT, FV.AMB_P) if v in F[0]]:
                rec.check(v in al.farm_results, f"{v}|seq-farm-results", f"{what}: missing")
                rec.close(al.farm_results[v].values, np.concatenate([f[v].values for f in F]), f"{v}|seq-farm-results", what, rtol=1e-12)
            if P:
                for v in [v for v in (FV.WS, FV.AMB_WS) if v in Q[0]]:
                    rec.close(al.point_results[v].values, np.concatenate([q[v].values for q in Q]), f"{v}|seq-point-results", what, rtol=1e-12)
        rec.event("seq-rounds", rounds)
    # plugins
    for lg in (log1, log2):
        n = c.n_s + 2
        for k in range(rounds):
            l = lg[k * n : (k + 1) * n]
            ok = len(l) == n and l[0] == ("init",) and l[-1] == ("final",) and all(x[0] == "update" for x in l[1:-1])
            rec.check(ok, "plugin-calls", f"{what}: calls {[x[0] for x in l]}")
            if ok:
                for s, x in enumerate(l[1:-1]):
                    rec.check(
                        x[1] == s and x[2] == c.time[s] and x[3] == [c.time[s]] and x[6], "plugin-state", f"{what}: state {s}: {x[1:4]}, iterating {x[6]}"
                    )
                    rec.close(x[4], R[k][0][s][FV.AMB_REWS if amb else FV.REWS].values, "plugin-farm", f"{what} state {s}")
                    if P:
                        rec.close(x[5], R[k][1][s][FV.AMB_WS if amb else FV.WS].values, "plugin-points", f"{what} state {s}")
                rec.event("plugin-updates", c.n_s)
        rec.check(len(lg) == rounds * n, "plugin-extra", f"{what}: {len(lg)} calls in {rounds} rounds")
    F, Q = R[0]
    fr = {
        v: np.concatenate([f[v].values for f in F])
        for v in (FV.REWS, FV.AMB_REWS, FV.TI, FV.AMB_TI, FV.P, FV.AMB_P, FV.CT)
        if v in F[0] and v in al.farm_results
    }
    if amb:
        for v in (FV.REWS, FV.TI, FV.P):
            a = FV.var2amb[v]
            rec.check(a in fr, f"{a}|seq-ambient", f"{what}: missing")
            if v in fr:
                rec.close(fr[v], fr[a], f"{v}|seq-ambient", what)
        if P:
            for q in Q:
                if FV.WS in q:
                    rec.close(q[FV.WS].values, q[FV.AMB_WS].values, "WS|seq-ambient-points", what)
        rec.event("seq-ambient")
    if rounds == 2:
        for v in fr:
            rec.close(np.concatenate([f[v].values for f in R[1][0]]), fr[v], f"{v}|seq-again", what, rtol=1e-9, atol=1e-9)
    # all states at once
    if frame != "seq":
        with engine_ctx("single"):
            a2 = c.algo(mk(), w)
            f2 = a2.calc_farm(ambient=amb)
            if P:
                p2 = a2.calc_points(f2, pts, ambient=amb)
        for v in fr:
            if v in f2:
                rec.close(fr[v], f2[v].values, f"{v}|seq-all", what, rtol=1e-6, atol=1e-6)
        if P and not amb:
            for v in (FV.WS, FV.TI):
                rec.close(np.concatenate([q[v].values for q in Q]), p2[v].values, f"{v}|seq-all-points", what, rtol=1e-6, atol=1e-6)
        rec.event("seq-all")
    rec.nontrivial(c.n_s > 1)
    rec.sample = dict(what=what)
    rec.sig = [frame, P, amb, rounds]


def seq_algo(c, frame, w, **kw):
    al = c.algo("seq", w, fkw={}, frame_obj=frame, **kw)
    return al
