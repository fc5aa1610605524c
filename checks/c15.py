"""C15: every kind of states delivers the ambient conditions that its data define"""

import os

import numpy as np
import pandas as pd
import xarray as xr

import foxes
import foxes.variables as FV
import foxes.constants as FC

from harness.core import rng_of
from harness.probes import PointProbe
from harness.scen import engine_ctx, make_curve
from harness.cmp import angdiff

PROPERTY = "C15"
RULE = (
    "random data sets for each kind of states (tables, time series, wind roses, scans, multi-height, gridded "
    "fields, WRG) in each supported source format, selection and chunking; an independent reader/interpolator "
    "computes the ambient quantities at random points; non-trivial when more than one state is seen"
)
ASSUMES = [
    "wind vectors, not speeds and directions, are interpolated linearly in height and horizontally",
    "WRG frequencies are listed in per mille, as in WAsP resource grids",
]
KINDS = ["table", "timeseries", "tab", "single", "scan", "mh", "mhts", "mhnc", "mhncts", "field", "field", "wrg"]
REQUIRED_EVENTS = ["kind:" + k for k in sorted(set(KINDS))] + [
    "source:df", "source:csv", "source:csv.gz", "source:dataset", "source:nc", "source:files", "source:dataset", "other-farm", "source:tab",
    "mode:preload", "mode:lazy", "mode:fly", "solo-ws", "points-kept", "some-states", "source:dataset", "other-farm", "selected", "weights", "between-heights", "rerun", "fixed", "renamed",
]


def cases(tier, seed):
    n = 180 if tier == "quick" else 2200
    out = []
    for i in range(n):
        rng = rng_of(PROPERTY, seed, i)
        kind = KINDS[i % len(KINDS)]
        j = i // len(KINDS)
        out.append(
            dict(
                seed=int(rng.integers(1 << 31)), kind=kind, j=j,
                n_s=int(rng.integers(2, 13)), n_t=int(rng.integers(1, 4)), n_p=int(rng.integers(1, 7)),
                engine=[
                    ["numpy", 2, None, None], ["numpy", 2, 1, None], ["numpy", 2, 4, 2], ["threads", 2, 3, None],
                    ["single", 1, None, None], ["numpy", 2, 5, 3],
                ][int(rng.integers(0, 6))],
            )
        )
    return out


# ------------------------------------------------------------------ oracles
def vec(ws, wd):
    a = np.deg2rad(wd)
    return -ws * np.sin(a), -ws * np.cos(a)


def polar(u, v):
    return np.hypot(u, v), np.mod(np.rad2deg(np.arctan2(-u, -v)), 360)


def weights1d(grid, x):
    """indices and weight of the linear interpolation, constant outside"""
    grid = np.asarray(grid, dtype=float)
    if len(grid) == 1:
        z = np.zeros(x.shape, dtype=int)
        return z, z, np.zeros(x.shape)
    xx = np.clip(x, grid[0], grid[-1])
    i = np.clip(np.searchsorted(grid, xx, side="right") - 1, 0, len(grid) - 2)
    return i, i + 1, (xx - grid[i]) / (grid[i + 1] - grid[i])


def multilin(axes, data, coords):
    """data (n_s, *axes), coords: one array (n_s, n_p) per axis"""
    n_s = data.shape[0]
    s = np.arange(n_s)[:, None]
    ws = [weights1d(g, c) for g, c in zip(axes, coords)]
    out = 0.0
    for m in range(2 ** len(axes)):
        idx, w = [s], 1.0
        for d, (a, b, f) in enumerate(ws):
            hi = (m >> d) & 1
            idx.append(b if hi else a)
            w = w * (f if hi else 1 - f)
        out = out + w * data[tuple(idx)]
    return out


# ----------------------------------------------------------------- builders
class B:
    """one states object plus what it has to deliver"""

    def __init__(self, spec, rec):
        self.spec, self.rec = spec, rec
        self.rng = rng_of("c15", spec["seed"])
        self.n_s = spec["n_s"]
        self.weight = None  # (n_s,) or callable
        self.index = None
        self.source = None
        self.hlim = (15.0, 230.0)
        self.sel = None
        # farm and points live in here
        self.lo, self.hi = np.array([0.0, 0.0]), np.array([2000.0, 1500.0])
        self.off = self.rng.uniform(-5000, 5000, 2) if self.rng.random() < 0.5 else np.zeros(2)
        getattr(self, "k_" + spec["kind"])()

    # -------------------------------------------------------------- helpers
    def ev(self, k):
        self.rec.event(k)

    def choose(self, opts):
        return opts[int(self.rng.integers(0, len(opts)))]

    def columns(self, n):
        r = self.rng
        d = {
            FV.WS: r.uniform(4, 15, n), FV.WD: np.mod(r.uniform(-30, 360, n), 360), FV.TI: r.uniform(0.03, 0.2, n),
            FV.RHO: r.uniform(1.1, 1.3, n), "QX": r.uniform(-5, 5, n),
        }
        return d

    def pick_sel(self, n, labels):
        """returns kwargs and positions"""
        m = self.choose([None, None, "list", "slice", "range", "loc", "array"])
        if m is None or n < 3:
            return {}, np.arange(n)
        self.ev("selected")
        if m == "slice":
            a = int(self.rng.integers(0, n - 1))
            b = int(self.rng.integers(a + 1, n + 1))
            return dict(states_sel=slice(a, b)), np.arange(n)[a:b]
        if m == "range":
            return dict(states_sel=range(0, n, 2)), np.arange(0, n, 2)
        k = self.rng.permutation(n)[: int(self.rng.integers(1, n + 1))]
        if m == "loc":
            return dict(states_loc=[labels[i] for i in k]), k
        return dict(states_sel=k if m == "array" else [int(i) for i in k]), k

    def frame(self, df):
        """hands out the data frame, or a file with it"""
        m = self.choose(["df", "csv", "csv.gz"])
        self.ev("source:" + m)
        if m == "df":
            self.source = df.copy(deep=True)
            self.given = df
            return df
        df.to_csv("data." + m)
        return self.choose(["data." + m, os.path.abspath("data." + m)])

    def rename(self, cols):
        """var -> column name"""
        out = {}
        for v in cols:
            if self.rng.random() < 0.4:
                out[v] = "my_" + str(v).lower()
                self.ev("renamed")
        return out

    def split_fixed(self, vrs):
        fix = {}
        for v in vrs:
            if self.rng.random() < 0.25:
                fix[v] = float({FV.WS: 8.3, FV.WD: 271.5, FV.TI: 0.07, FV.RHO: 1.19, "QX": -3.25}[v])
                self.ev("fixed")
        return fix

    # ---------------------------------------------------------------- kinds
    def table(self, cls, index):
        n = self.n_s
        d = self.columns(n)
        ov = [str(v) for v in self.rng.permutation(list(d))]
        fix = self.split_fixed(ov)
        v2c = self.rename([v for v in ov if v not in fix])
        order = [v for v in self.rng.permutation(list(d))]
        cols = {v2c.get(v, v): d[v] for v in order if v not in fix}
        cols["other"] = self.rng.random(n)
        w = None
        if self.rng.random() < 0.5:
            self.ev("weights")
            w = self.rng.uniform(0.1, 1, n)
            w /= w.sum()
            c = FV.WEIGHT
            if self.rng.random() < 0.5:
                c = v2c[FV.WEIGHT] = "probability"
            cols[c] = w
        df = pd.DataFrame(index=index, data=cols)
        df = df[[str(c) for c in self.rng.permutation(df.columns)]]
        kw, k = self.pick_sel(n, list(index))
        self.states = cls(self.frame(df), output_vars=ov, var2col=v2c, fixed_vars=fix, **kw)
        self.n_s = len(k)
        self.index = np.asarray(index)[k]
        self.weight = w[k] if w is not None else np.full(len(k), 1 / len(k))
        self.amb = lambda p: {
            v: np.full(p.shape[:2], fix[v]) if v in fix else np.repeat(d[v][k][:, None], p.shape[1], 1) for v in ov
        }

    def k_table(self):
        n = self.n_s
        if self.rng.random() < 0.5:
            idx = pd.Index(self.rng.permutation(100)[:n], name="state")
        else:
            idx = pd.Index(np.arange(n), name="id")
        self.table(foxes.input.states.StatesTable, idx)

    def k_timeseries(self):
        t0 = pd.Timestamp("2021-02-27 12:00")
        step = self.choose(["10min", "1h", "1D"])
        self.table(
            foxes.input.states.Timeseries, pd.Index(pd.date_range(t0, periods=self.n_s, freq=step), name="Time")
        )

    def k_tab(self):
        r = self.rng
        nwd, nws = int(r.choice([1, 4, 6, 12, 7, 16])), int(r.integers(2, 7))
        ws = np.cumsum(r.uniform(0.5, 3, nws)).round(2) + (2.0 if r.random() < 0.5 else 0.0)
        wdf = r.uniform(1, 20, nwd).round(3)
        wsf = r.uniform(1, 300, (nws, nwd)).round(2)
        wsf[r.random(wsf.shape) < 0.25] = 0.0
        wsf[int(r.integers(0, nws))] += 1.0
        a = float(self.choose([1.0, 1.0, 1.15]))
        norm = bool(r.random() < 0.7)
        if not norm and r.random() < 0.5:
            wdf = wdf / wdf.sum() * 100
            wsf = wsf / wsf.sum(axis=0) * 1000
        if self.rng.random() < 0.5:
            self.ev("source:tab")
            with open("rose.tab", "w") as f:
                f.write("Some place\n 53.1 8.8 100.0\n")
                f.write(f" {nwd} {a:.2f} 0.0\n " + self.choose(["\t", " "]).join(repr(float(x)) for x in wdf) + "\n")
                for i in range(nws):
                    f.write("  ".join([repr(float(ws[i]))] + [repr(float(x)) for x in wsf[i]]) + "\n")
            src = "rose.tab"
            if norm:
                wdf = wdf / wdf.sum() * 100
                wsf = wsf / wsf.sum(axis=0) * 1000
        else:
            self.ev("source:dataset")
            norm = True
            src = xr.Dataset(
                coords=dict(ws=ws, wd=np.arange(0.0, 360.0, 360 / nwd)),
                data_vars=dict(wd_freq=(("wd",), wdf), ws_freq=(("ws", "wd"), wsf)),
                attrs=dict(factor_ws=a, shift_wd=0.0, description="", latitude=0.0, longitude=0.0, height=100.0),
            )
        ov = [FV.WS, FV.WD, FV.TI, FV.RHO]
        self.states = foxes.input.states.TabStates(src, ov, normalize=norm, fixed_vars={FV.TI: 0.06, FV.RHO: 1.2})
        edges = np.r_[0.0, a * ws]
        rows = []
        for i in range(nws):
            for j in range(nwd):
                f = wsf[i, j] / 1000 * wdf[j] / 100
                if f > 0:
                    rows.append([0.5 * (edges[i] + edges[i + 1]), j * 360 / nwd, f])
        rows = np.array(rows)
        self.n_s = len(rows)
        self.weight = rows[:, 2]
        self.index = np.arange(len(rows))
        self.sort = True  # states may come in any order
        self.amb = lambda p: {
            FV.WS: np.repeat(rows[:, 0, None], p.shape[1], 1), FV.WD: np.repeat(rows[:, 1, None], p.shape[1], 1),
            FV.TI: np.full(p.shape[:2], 0.06), FV.RHO: np.full(p.shape[:2], 1.2),
        }

    def k_single(self):
        d = {v: float(x[0]) for v, x in self.columns(1).items()}
        self.states = foxes.input.states.SingleStateStates(ws=d[FV.WS], wd=d[FV.WD], ti=d[FV.TI], rho=d[FV.RHO])
        self.n_s = 1
        self.weight = np.ones(1)
        self.amb = lambda p: {v: np.full(p.shape[:2], d[v]) for v in (FV.WS, FV.WD, FV.TI, FV.RHO)}

    def k_scan(self):
        r = self.rng
        vals = {
            FV.WS: np.sort(r.uniform(4, 14, int(r.integers(1, 4)))), FV.WD: r.uniform(0, 360, int(r.integers(1, 4))),
            FV.TI: r.uniform(0.03, 0.2, int(r.integers(1, 3))), FV.RHO: r.uniform(1.1, 1.3, int(r.integers(1, 3))),
        }
        scans = {str(v): vals[str(v)] for v in r.permutation(list(vals))}
        if r.random() < 0.5:
            scans = {v: [float(x) for x in a] for v, a in scans.items()}
        self.states = foxes.input.states.ScanStates(scans)
        rows = [{}]
        for v, a in scans.items():  # the last variable varies fastest
            rows = [dict(q, **{v: x}) for q in rows for x in a]
        self.n_s = len(rows)
        self.weight = np.full(self.n_s, 1 / self.n_s)
        self.sort = True
        self.index = np.arange(self.n_s)
        self.amb = lambda p: {v: np.repeat(np.array([q[v] for q in rows])[:, None], p.shape[1], 1) for v in scans}

    # multi height
    def mh_data(self):
        r, n = self.rng, self.n_s
        nh = int(r.integers(2, 6))
        h = np.sort(r.choice(np.arange(10, 300), nh, replace=False)).astype(float)
        if r.random() < 0.4:
            h[1] += 0.5
        d = {
            FV.WS: r.uniform(4, 15, (n, nh)), FV.WD: np.mod(r.uniform(-180, 180, (n, 1)) + r.uniform(-25, 25, (n, nh)), 360),
            FV.TI: r.uniform(0.03, 0.2, (n, nh)), FV.RHO: r.uniform(1.1, 1.3, (n, nh)), "QX": r.uniform(-5, 5, (n, nh)),
        }
        solo, fix = {}, {}
        for v in list(d):
            q = r.random()
            if v == FV.WS and q < 0.12:  # the same wind speed at all heights
                solo[v] = d.pop(v)[:, 0]
                self.ev("solo-ws")
            elif v == FV.WS and q < 0.2:
                d.pop(v)
                fix[v] = 8.25
                self.ev("solo-ws")
            elif v == FV.WD and q < 0.3:  # a wind speed profile with one direction
                solo[v] = d.pop(v)[:, 0]
            elif v in (FV.TI, FV.RHO, "QX") and q < 0.35:
                solo[v] = d.pop(v)[:, 0]
            elif v in (FV.TI, FV.RHO, "QX", FV.WD) and q < 0.5:
                d.pop(v)
                fix[v] = float({FV.TI: 0.07, FV.RHO: 1.19, "QX": -3.25, FV.WD: 123.0}[v])
                self.ev("fixed")
        if not d and not solo:  # a table without any data column is not a source
            d["QX"] = r.uniform(-5, 5, (n, nh))
            fix.pop("QX")
        return h, d, solo, fix

    def mh_expect(self, h, d, solo, fix, k):
        n = len(next(iter({**d, **solo}.values())))
        def amb(p):
            z = p[:, :, 2]
            f = lambda a: multilin([h], a[k], [z])
            out = {v: f(a) for v, a in d.items()}
            out.update({v: np.repeat(a[k][:, None], p.shape[1], 1) for v, a in solo.items()})
            out.update({v: np.full(p.shape[:2], a) for v, a in fix.items()})
            if FV.WD in d:
                ws = d[FV.WS] if FV.WS in d else solo[FV.WS][:, None] if FV.WS in solo else np.full((n, 1), fix[FV.WS])
                u, v = vec(ws, d[FV.WD])
                out[FV.WS], out[FV.WD] = polar(f(u), f(v))
                if FV.WS in fix:  # constant or length of the mean vector: not judged
                    del out[FV.WS]
            if len(h) > 1:
                self.ev("between-heights")
            return out

        self.amb = amb

    def mh_frame(self, cls, index):
        r, n = self.rng, self.n_s
        h, d, solo, fix = self.mh_data()
        v2c, cols = {}, {}
        for v, a in d.items():
            base = v
            if r.random() < 0.3:
                base = v2c[v] = "my_" + str(v).lower()
                self.ev("renamed")
            for i, hh in enumerate(h):
                c = f"{base}-{int(hh) if int(hh) == hh else hh}"
                if r.random() < 0.2:
                    v2c[c] = c = f"{v}_at_{i}"
                cols[c] = a[:, i]
        for v, a in solo.items():
            c = v
            if r.random() < 0.3:
                c = v2c[v] = "my_" + str(v).lower()
            cols[c] = a
        w = np.full(n, 1 / n)
        kw, k = self.pick_sel(n, list(index))
        w = None
        if r.random() < 0.5:
            self.ev("weights")
            w = r.uniform(0.1, 1, n)
            c = FV.WEIGHT
            if r.random() < 0.5:
                c = v2c[FV.WEIGHT] = "probability"
            cols[c] = w
        df = pd.DataFrame(index=index, data=cols)
        df = df[[str(c) for c in r.permutation(df.columns)]]
        ov = [str(v) for v in r.permutation(list(d) + list(solo) + list(fix))]
        lo = float(h[0])
        inside = len(h) > 1 and h[-1] > h[0] + 30 and r.random() < 0.4
        if inside:
            self.hlim = (lo, float(h[-1]))
        else:
            kw["bounds_error"] = False
        self.hub = float(np.clip(90, *self.hlim)) if inside else 90.0
        self.states = cls(self.frame(df), output_vars=ov, heights=list(h), var2col=v2c, fixed_vars=fix, **kw)
        self.n_s = len(k)
        self.index = np.asarray(index)[k]
        self.weight = w[k] if w is not None else np.full(len(k), 1 / len(k))
        self.mh_expect(h, d, solo, fix, k)

    def k_mh(self):
        self.mh_frame(
            foxes.input.states.MultiHeightStates, pd.Index(self.rng.permutation(90)[: self.n_s], name="state")
        )

    def k_mhts(self):
        self.mh_frame(
            foxes.input.states.MultiHeightTimeseries,
            pd.Index(pd.date_range("2020-12-31 23:00", periods=self.n_s, freq="30min"), name="Time"),
        )

    def mh_nc(self, cls, sname, labels, tkw):
        r, n = self.rng, self.n_s
        h, d, solo, fix = self.mh_data()
        hname = self.choose(["height", "H", "z"])
        v2c, dv, attrs = {}, {}, {}
        name = lambda v: v2c.get(v, v)
        v2c.update(self.rename(list(d) + list(solo)))
        for v, a in d.items():
            dv[name(v)] = ((sname, hname), a)
        for v, a in solo.items():
            if v not in (FV.WD,) and r.random() < 0.4:
                solo[v] = np.full(n, float(a[0]))
                attrs[name(v)] = float(a[0])
                self.ev("attribute")
            else:
                dv[name(v)] = ((sname,), a)
        w = None
        if r.random() < 0.5:
            self.ev("weights")
            w = r.uniform(0.1, 1, n)
            if r.random() < 0.5:
                v2c[FV.WEIGHT] = "probability"
            dv[name(FV.WEIGHT)] = ((sname,), w)
        ds = xr.Dataset(coords={sname: labels, hname: h}, data_vars=dv, attrs=attrs)
        kw, k = self.pick_sel(n, list(labels))
        if "states_sel" in kw and isinstance(kw["states_sel"], range):
            kw["states_sel"] = list(kw["states_sel"])
        hs = np.arange(len(h))
        if len(h) > 2 and r.random() < 0.5:
            hs = np.sort(r.choice(len(h), 2, replace=False))
            kw["heights"] = [float(x) for x in h[hs]]
        if r.random() < 0.5:
            self.ev("source:dataset")
            src = ds
        else:
            self.ev("source:nc")
            ds.to_netcdf("mh.nc")
            src = "mh.nc"
        ov = [str(v) for v in r.permutation(list(d) + list(solo) + list(fix))]
        if hname != FV.H or r.random() < 0.5:
            kw["h_coord"] = hname
        kw.update(tkw)
        self.states = cls(src, output_vars=ov, var2col=v2c, fixed_vars=fix, bounds_error=False, **kw)
        self.n_s = len(k)
        self.index = np.asarray(labels)[k]
        self.weight = w[k] if w is not None else np.full(len(k), 1 / len(k))
        self.mh_expect(h[hs], {v: a[:, hs] for v, a in d.items()}, solo, fix, k)

    def k_mhnc(self):
        self.mh_nc(
            foxes.input.states.MultiHeightNCStates, "case", self.rng.permutation(90)[: self.n_s],
            dict(state_coord="case", format_times_func=None),
        )

    def k_mhncts(self):
        t = pd.date_range("2020-12-31 23:00", periods=self.n_s, freq="30min").to_numpy().astype("datetime64[ns]")
        if self.rng.random() < 0.5:
            self.mh_nc(foxes.input.states.MultiHeightNCTimeseries, "Time", t, dict(time_coord="Time"))
        else:
            self.mh_nc(foxes.input.states.MultiHeightNCTimeseries, FC.TIME, t, {})

    # gridded
    def k_field(self):
        r, n = self.rng, self.n_s
        pad = 600.0
        gx = np.sort(r.uniform(self.lo[0] - pad, self.hi[0] + pad, 4)) + self.off[0]
        gy = np.sort(r.uniform(self.lo[1] - pad, self.hi[1] + pad, 3)) + self.off[1]
        gx = np.r_[self.lo[0] + self.off[0] - pad, gx, self.hi[0] + self.off[0] + pad]
        gy = np.r_[self.lo[1] + self.off[1] - pad, gy, self.hi[1] + self.off[1] + pad]
        far = 40000.0
        out = np.arange(5000.0, far + 1, 5000.0)
        gx = np.r_[gx[0] - out[::-1], gx, gx[-1] + out]
        gy = np.r_[gy[0] - out[::-1], gy, gy[-1] + out]
        gh = np.array([5.0, 60.0, 130.0, 400.0])
        t = pd.date_range("2020-12-31 23:00", periods=n, freq="10min").to_numpy().astype("datetime64[ns]")
        cn = dict(s="Time", h="height", y="UTMY", x="UTMX")
        ckw = {}
        if r.random() < 0.4:
            cn = dict(s="t", h="z", y="north", x="east")
            ckw = dict(states_coord="t", h_coord="z", y_coord="north", x_coord="east")
        axes = dict(h=gh, y=gy, x=gx)
        full = (n, len(gh), len(gy), len(gx))
        base_ws, base_wd = r.uniform(6, 12, (n, 1, 1, 1)), r.uniform(0, 360, (n, 1, 1, 1))
        raw = {
            FV.WS: base_ws + r.uniform(-2, 2, full), FV.WD: np.mod(base_wd + r.uniform(-20, 20, full), 360),
            FV.TI: r.uniform(0.03, 0.2, full), FV.RHO: r.uniform(1.1, 1.3, full), "QX": r.uniform(-5, 5, full),
        }
        lay = {}
        for v in raw:
            lay[v] = self.choose(["hyx", "hyx", "hxy", "yx", "xy", "h", ""])
        noh = self.spec["j"] % 5 == 4  # no vertical coordinate at all
        if noh:
            lay = {v: a.replace("h", "") for v, a in lay.items()}
        lay[FV.WS] = self.choose(["yx", "xy"] if noh else ["hyx", "hxy", "yx"])
        ckw_h = dict(ckw)
        if noh:
            ckw_h["h_coord"] = None
        fix = {}
        ov = list(raw)
        for v in (FV.TI, FV.RHO, "QX"):
            if r.random() < 0.25:
                fix[v] = 0.077 if v != FV.RHO else 1.17
                self.ev("fixed")
        if r.random() < 0.15:
            fix[FV.WD] = 222.0
            self.ev("fixed-wd")
        elif r.random() < 0.1:
            fix[FV.WS] = 7.5
            lay[FV.WD] = ""
            self.ev("fixed-ws")
        used = "".join(lay[v] for v in raw if v not in fix)
        if not all(c in used for c in ("yx" if noh else "hyx")):  # all coordinates of the files are in use
            fix.pop("QX", None)
            lay["QX"] = "yx" if noh else "hyx"
        dv, v2n = {}, {}
        data = {}
        for v, a in raw.items():
            l = lay[v]
            ix = tuple([slice(None)] + [slice(None) if c in l else 0 for c in "hyx"])
            b = a[ix]
            data[v] = np.broadcast_to(
                b[tuple([slice(None)] + [slice(None) if c in l else None for c in "hyx"])], full
            )
            if l.endswith("xy"):
                b = np.swapaxes(b, -1, -2)
            if v in fix:
                continue
            nm = v
            if r.random() < 0.6:
                nm = v2n[v] = "my_" + str(v).lower()
                self.ev("renamed")
            dv[nm] = (tuple(cn[c] for c in "s" + l), b)
        w = None
        if r.random() < 0.4:
            self.ev("weights")
            w = r.uniform(0.1, 1, n)
            dv["freq"] = ((cn["s"],), w)
            ckw_h["weight_ncvar"] = "freq"
        lab, tf = t, None
        m = self.choose(["time", "string", "int"])
        if m == "string":
            lab = np.array([pd.Timestamp(x).strftime("%Y-%m-%d_%H:%M:%S") for x in t])
            tf = "%Y-%m-%d_%H:%M:%S"
        elif m == "int":
            lab = np.arange(n) + 17
        self.index = t if m != "int" else lab
        coords = {cn["s"]: lab, cn["y"]: gy, cn["x"]: gx}
        if not noh:
            coords[cn["h"]] = gh
        extra = {}
        ds = xr.Dataset(coords=coords, data_vars=dv)
        if r.random() < 0.3:  # a further dimension, removed by selection
            e = xr.concat([ds[list(dv)] * (0.5 if i != 1 else 1.0) for i in range(3)], dim="member")
            ds = e.assign_coords(member=[10, 20, 30])
            if w is not None:
                ds["freq"] = ((cn["s"],), w)
            ds = ds.transpose(cn["s"], ..., "member")
            extra = dict(sel={"member": 20}) if r.random() < 0.5 else dict(isel={"member": 1})
            self.ev("extra-dimension")
            ds = ds[list(dv)]
        mode = ["preload", "lazy", "fly"][self.spec["j"] % 3]
        self.ev("mode:" + mode)
        nf = int(r.integers(1, 4)) if n > 3 else 1
        cuts = np.sort(r.choice(np.arange(1, n), nf - 1, replace=False)) if nf > 1 else []
        parts = np.split(np.arange(n), cuts)
        for i, q in enumerate(parts):
            ds.isel({cn["s"]: q}).to_netcdf(f"part_{i:02d}.nc")
        self.ev("source:files" if nf > 1 else "source:nc")
        src = "part_*.nc" if nf > 1 else self.choose(["part_00.nc", "part_*.nc"])
        if mode != "fly" and r.random() < 0.3:
            self.ev("source:dataset")
            src = ds.assign(unused=((cn["x"],), np.zeros(len(gx)))) if "member" not in ds.dims else ds
        self.states = foxes.input.states.FieldDataNC(
            src, output_vars=[str(v) for v in r.permutation(ov)], var2ncvar=v2n, fixed_vars=fix, load_mode=mode,
            time_format=tf, bounds_extra_space=self.choose([far / 2, 1e6, "200D", 6000.0]), **extra, **ckw_h,
        )
        self.weight = w if w is not None else np.full(n, 1 / n)

        def amb(p):
            f = lambda a: multilin([gh, gy, gx], a, [p[:, :, 2], p[:, :, 1], p[:, :, 0]])
            out = {}
            for v in ov:
                out[v] = np.full(p.shape[:2], fix[v]) if v in fix else f(data[v])
            ws = np.full(full, fix[FV.WS]) if FV.WS in fix else data[FV.WS]
            wd = np.full(full, fix[FV.WD]) if FV.WD in fix else data[FV.WD]
            u, v = vec(ws, wd)
            out[FV.WS], out[FV.WD] = polar(f(u), f(v))
            self.ev("between-heights")
            return out

        self.amb = amb

    def k_wrg(self):
        r = self.rng
        nx, ny, ns = int(r.integers(3, 7)), int(r.integers(3, 7)), int(r.choice([1, 4, 8, 12]))
        res = int(r.choice([200, 450, 800]))
        # the grid covers the farm with margins of a few cells
        ex = self.hi - self.lo
        nx = int(np.ceil(ex[0] / res)) + 1 + int(r.integers(2, 6))
        ny = int(np.ceil(ex[1] / res)) + 1 + int(r.integers(2, 6))
        x0, y0 = np.round(self.off - res * r.uniform(0.5, 1.0, 2)).astype(int)
        f = r.integers(0, 400, (ny, nx, ns)).astype(float)
        f = np.round(f / f.sum(axis=-1, keepdims=True) * 1000) if ns > 1 else np.full((ny, nx, 1), 1000.0)
        A = r.integers(60, 120, (ny, nx, ns)).astype(float)
        K = r.integers(160, 260, (ny, nx, ns)).astype(float)
        with open("map.wrg", "w") as o:
            o.write(f"{nx} {ny} {x0} {y0} {res}\n")
            for j in range(ny):
                for i in range(nx):
                    row = ["GridPoint", x0 + i * res, y0 + j * res, 10, 100.0, 9.1, 2.1, 500, ns]
                    for s in range(ns):
                        row += [int(f[j, i, s]), int(A[j, i, s]), int(K[j, i, s])]
                    o.write(" ".join(str(q) for q in row) + "\n")
        edges = np.r_[0.0, np.cumsum(r.uniform(0.5, 3, int(r.integers(3, 9))))] if r.random() < 0.5 else np.arange(0.0, 31.0)
        fix = {FV.TI: 0.08, FV.RHO: 1.21}
        extra = self.choose([dict(), dict(bounds_extra_space=None), dict(bounds_extra_space=1e5), dict(bounds_extra_space=300.0)])
        kw = {} if "bounds_extra_space" in extra and extra["bounds_extra_space"] != 300.0 else dict()
        self.states = foxes.input.states.WRGStates("map.wrg", edges, fixed_vars=fix, **extra, **kw)
        self.near = extra.get("bounds_extra_space", "1D") in ("1D", 300.0)
        wsm = 0.5 * (edges[1:] + edges[:-1])
        dws = np.diff(edges)
        wds = np.arange(ns) * 360 / ns
        S = np.array([(a, b, c, s) for a, c in zip(wsm, dws) for s, b in enumerate(wds)])
        self.n_s = len(S)
        self.index = np.arange(len(S))
        self.sort = True
        gx, gy = x0 + np.arange(nx) * res, y0 + np.arange(ny) * res

        def amb(p):
            return {
                FV.WS: np.repeat(S[:, 0, None], p.shape[1], 1), FV.WD: np.repeat(S[:, 1, None], p.shape[1], 1),
                FV.TI: np.full(p.shape[:2], 0.08), FV.RHO: np.full(p.shape[:2], 1.21),
            }

        def weight(p):
            s = S[:, 3].astype(int)
            g = lambda a: multilin([gy, gx], np.moveaxis(a, -1, 0)[s], [p[:, :, 1], p[:, :, 0]])
            ff, aa, kk = g(f / 1000), g(A / 10), g(K / 100)
            u = S[:, 0, None] / aa
            return ff * S[:, 2, None] * kk / aa * u ** (kk - 1) * np.exp(-(u**kk))

        self.amb, self.weight = amb, weight
        self.total = wsm.max() > 29  # the bins cover the distribution


def run(spec, rec):
    b = B(spec, rec)
    rng = rng_of("c15b", spec["seed"])
    rec.event("kind:" + spec["kind"])
    n_t, n_p = spec["n_t"], spec["n_p"]
    if getattr(b, "near", False):
        xy = b.off + b.lo + rng.uniform(0.2, 0.8, (n_t, 2)) * (b.hi - b.lo)
    else:
        xy = b.off + b.lo + rng.uniform(0, 1, (n_t, 2)) * (b.hi - b.lo)
    H = getattr(b, "hub", 90.0)
    D = float(rng.uniform(30, 2 * H - 2))
    farm = foxes.WindFarm()
    for i in range(n_t):
        farm.add_turbine(foxes.Turbine(xy=xy[i], turbine_models=["TT"], name=f"T{i}"), verbosity=0)
    mb = foxes.ModelBook()
    cur = make_curve(rng)
    mb.turbine_types["TT"] = foxes.models.turbine_types.PCtFile(cur, D=D, H=H, P_nominal=float(cur["P"].max()))
    p = np.zeros((n_p, 3))
    if getattr(b, "near", False):  # the data are cropped around the farm
        p[:, :2] = xy.min(axis=0) + rng.uniform(0, 1, (n_p, 2)) * (xy.max(axis=0) - xy.min(axis=0))
    else:
        p[:, :2] = b.off + b.lo + rng.uniform(-0.05, 1.05, (n_p, 2)) * (b.hi - b.lo)
        if spec["kind"] == "wrg":
            p[:, :2] = np.clip(p[:, :2], b.off + b.lo, b.off + b.hi)
    p[:, 2] = rng.uniform(*b.hlim, n_p)
    hubs = np.c_[xy, np.full(n_t, H)]

    mb.point_models["pp"] = PointProbe()

    def calc(engine, isel=[]):
        with engine_ctx(*engine):
            algo = foxes.algorithms.Downwind(farm, b.states, wake_models=[], mbook=mb, verbosity=0)
            fr = algo.calc_farm()
            q = np.tile(p[None], (fr.sizes[FC.STATE], 1, 1))
            if not isel:
                pr = algo.calc_points(fr, q, point_models=["pp"])
            else:
                pr = algo.calc_points(fr, q[isel], point_models=["pp"], states_isel=isel)
        # point models of the same calculation find the points where they are
        e = np.broadcast_to(p[:, 0] + 2 * p[:, 1] + 3 * p[:, 2], pr["probe_xyh"].shape)
        rec.close(pr["probe_xyh"].values, e, "points-kept", f"{spec['kind']}: target points after the states", rtol=1e-9)
        rec.event("points-kept")
        return fr, pr

    def judge(fr, pr, tag):
        n_s = fr.sizes[FC.STATE]
        if not rec.check(n_s == b.n_s, "count|" + tag, f"{spec['kind']}: {n_s} states, expected {b.n_s}"):
            return
        hp, pp = np.tile(hubs[None], (n_s, 1, 1)), np.tile(p[None], (n_s, 1, 1))
        eh, ep = b.amb(hp), b.amb(pp)
        w = b.weight(hp) if callable(b.weight) else np.repeat(b.weight[:, None], n_t, 1)
        gw = fr[FV.WEIGHT].values
        gw = np.repeat(gw[:, None], n_t, 1) if gw.ndim == 1 else np.broadcast_to(gw, w.shape)
        if getattr(b, "sort", False):
            # the order of generated states is not part of the contract: match them
            vs = [v for v in (FV.WS, FV.WD, FV.TI, FV.RHO)]
            oe = np.lexsort([np.round(eh[v][:, 0], 6) for v in vs])
            og = np.lexsort([np.round(fr["AMB_" + v if v != FV.WS else FV.AMB_REWS].values[:, 0], 6) for v in vs])
        else:
            oe = og = np.arange(n_s)
        for v, e in eh.items():
            nm = {FV.WS: FV.AMB_REWS}.get(v, "AMB_" + v)
            if nm not in fr:
                continue
            rec.event("turbine-values", e.size)
            g = fr[nm].values[og]
            if v == FV.WD:
                g, e = angdiff(g, e[oe]), 0 * e
                rec.close(g, e, f"{v}|farm|{tag}", f"{spec['kind']} {nm} at turbines", atol=1e-6)
            else:
                rec.close(g, e[oe], f"{v}|farm|{tag}", f"{spec['kind']} {nm} at turbines", rtol=1e-7, atol=1e-9)
        rec.close(gw[og], w[oe], f"weight|{tag}", f"{spec['kind']} weights", rtol=1e-7, atol=1e-12)
        if spec["kind"] == "tab" or getattr(b, "total", False):
            tot = gw.sum(axis=0)
            tol = 0.03
            if not (spec["kind"] == "tab" and abs(b.weight.sum() - 1) > 1e-6):
                rec.check(np.all(np.abs(tot - 1) < tol), f"total|{tag}", f"{spec['kind']}: sum of weights {tot}")
        for v, e in ep.items():
            if not rec.check(v in pr and "AMB_" + v in pr or v == "QX", f"missing|{tag}", f"variable {v} not in point results {list(pr)}"):
                continue
            for nm in (v, "AMB_" + v):
                if nm not in pr:
                    continue
                rec.event("point-values", e.size)
                g = pr[nm].values[og]
                if v == FV.WD:
                    rec.close(angdiff(g, e[oe]), 0 * e, f"{v}|points|{tag}", f"{spec['kind']} {nm} at points", atol=1e-6)
                else:
                    rec.close(g, e[oe], f"{v}|points|{tag}", f"{spec['kind']} {nm} at points", rtol=1e-7, atol=1e-9)
        if b.index is not None and rec.check(
            FC.STATE in fr.coords, "labels-missing", "farm results without state labels"
        ):
            rec.event("labels")
            g = fr[FC.STATE].values
            if np.asarray(b.index).dtype.kind == "M":
                g, e = g.astype("datetime64[s]"), np.asarray(b.index).astype("datetime64[s]")
            else:
                e = np.asarray(b.index)
            rec.check(
                g.shape == e.shape and np.all(g == e), f"labels|{tag}", f"{spec['kind']}: state labels {g[:4]}, expected {e[:4]}"
            )

    fr, pr = calc(spec["engine"])
    judge(fr, pr, "first")
    if b.n_s > 1:
        rec.nontrivial()
    # the same states object once more, in another chunking
    if rng.random() < 0.5:
        rec.event("rerun")
        fr, pr = calc(["numpy", 2, 2, None])
        judge(fr, pr, "again")
    r2 = rng_of("c15b", spec["seed"])
    # some states only, in any order
    if b.n_s > 1 and not getattr(b, "sort", False):
        rec.event("some-states")
        k = [int(q) for q in r2.permutation(b.n_s)[: int(r2.integers(1, b.n_s + 1))]]
        f2, p2 = calc(spec["engine"], k)
        fa, pa = calc(["numpy", 1, None, None])
        for v in pa.data_vars:
            rec.close(p2[v].values, pa[v].values[k], f"{v}|some-states", f"{spec['kind']} states {k}", rtol=1e-9)
    # and for another farm somewhere else
    if spec["kind"] in ("field", "wrg") or r2.random() < 0.15:
        rec.event("other-farm")
        if spec["kind"] == "field":
            xy2 = xy + r2.uniform(-18000, 18000, 2)
        else:
            xy2 = b.off + b.lo + r2.uniform(0, 1, (n_t, 2)) * (b.hi - b.lo)
        farm = foxes.WindFarm()
        for i in range(n_t):
            farm.add_turbine(foxes.Turbine(xy=xy2[i], turbine_models=["TT"], name=f"T{i}"), verbosity=0)
        if spec["kind"] in ("field", "wrg"):
            p[:, :2] = xy2.min(axis=0) + r2.uniform(0, 1, (n_p, 2)) * (xy2.max(axis=0) - xy2.min(axis=0))
        hubs = np.c_[xy2, np.full(n_t, H)]
        fr, pr = calc(spec["engine"])
        judge(fr, pr, "moved")
    if b.source is not None:
        rec.check(b.source.equals(b.given), "mutated", "the user's data frame was modified")
    rec.sample = dict(spec=spec, n_s=b.n_s)
