"""
Random scenarios for foxes: farm + states + model choice, built only through
the public API. Everything is derived from a small JSON-able spec.
"""

import numpy as np
import pandas as pd
import xarray as xr

import foxes
import foxes.variables as FV
import foxes.constants as FC

from .core import rng_of

WS_SUPER = [
    "linear",
    "linear_lim",
    "linear_amb",
    "linear_amb_lim",
    "linear_loc",
    "linear_loc_lim",
    "quadratic",
    "quadratic_lim",
    "quadratic_amb",
    "quadratic_amb_lim",
    "quadratic_loc",
    "quadratic_loc_lim",
    "cubic",
    "cubic_amb",
    "cubic_loc",
    "cubic_loc_lim",
    "quartic",
    "quartic_amb",
    "quartic_loc",
    "quartic_loc_lim",
    "max",
    "max_amb",
    "max_loc",
    "max_loc_lim",
    "product",
    "product_lim",
]
TI_SUPER = ["linear", "quadratic", "cubic", "quartic", "max"]


def make_curve(rng, p_rated=None):
    """random but physical power/thrust curve"""
    ws = np.sort(np.unique(np.round(np.r_[3.0, rng.uniform(3.3, 24, 20), 25.0], 2)))
    p_rated = rng.uniform(1500, 8000) if p_rated is None else p_rated
    wr = rng.uniform(10, 14)
    P = p_rated * np.clip((ws / wr) ** 3, 0, 1)
    ct0 = rng.uniform(0.7, 0.88)
    ct = np.where(ws < wr, ct0, ct0 * (wr / ws) ** 2.2)
    ct = np.clip(ct, 0.05, 0.9)
    return pd.DataFrame(dict(ws=ws, P=P, ct=ct))


class Scenario:
    """
    spec keys (all optional):
      seed, n_t, n_s, layout (random|cluster|row), box, n_types, states
      (timeseries|table|single|scan|mh|field|const|steady), rotor, wakes, frame,
      pwakes, ground, tmodels, order_seed
    """

    def __init__(self, spec, **over):
        self.spec = dict(spec, **over)
        s = self.spec
        rng = rng_of("scenario", s["seed"])
        self.n_t = int(s.get("n_t", 5))
        self.n_s = int(s.get("n_s", 6))

        # turbine types
        self.n_types = int(s.get("n_types", 1))
        self.types = []
        for i in range(self.n_types):
            D = float(np.round(rng.uniform(80, 160), 1))
            H = float(np.round(D / 2 + rng.uniform(25, 60), 1))
            if i > 0 and s.get("same_hub", False):
                H = self.types[0]["H"]
            self.types.append(
                dict(name=f"TT{i}", D=D, H=H, curve=make_curve(rng), rho=1.225)
            )
        self.ttype = rng.integers(0, self.n_types, self.n_t)
        if self.n_types > 1 and self.n_t > 1:
            self.ttype[: min(self.n_types, self.n_t)] = np.arange(
                min(self.n_types, self.n_t)
            )
            rng.shuffle(self.ttype)

        # layout
        Dmax = max(t["D"] for t in self.types)
        lay = s.get("layout", "random")
        self.xy0 = np.array([rng.uniform(-500, 1500), rng.uniform(-500, 1500)])
        if lay == "row":
            th = rng.uniform(0, 2 * np.pi)
            d = np.array([np.cos(th), np.sin(th)])
            n = np.array([-d[1], d[0]])
            st = Dmax * np.cumsum(rng.uniform(3.5, 8, self.n_t))
            self.xy = (
                st[:, None] * d[None]
                + (rng.uniform(-0.6, 0.6, self.n_t) * Dmax)[:, None] * n[None]
            )
            self.row_wd = np.mod(90 - np.rad2deg(th) + 180, 360)
            self.xy = self.xy[rng.permutation(self.n_t)]
        else:
            box = Dmax * float(s.get("box", 3.2)) * np.sqrt(self.n_t)
            pts = []
            while len(pts) < self.n_t:
                p = rng.uniform(0, box, 2)
                if all(np.linalg.norm(p - q) > 2.2 * Dmax for q in pts):
                    pts.append(p)
                else:
                    box *= 1.01
            self.xy = np.array(pts)
            self.row_wd = None
        self.xy = self.xy + self.xy0

        # states
        kind = s.get("states", "timeseries")
        self.kind = kind
        n = self.n_s
        if kind == "single":
            n = self.n_s = 1
        self.ws = rng.uniform(5.0, 14.0, n)
        self.wd = np.mod(rng.uniform(0, 360, n), 360)
        if self.row_wd is not None and not s.get("free_wd", False):
            self.wd = np.mod(self.row_wd + rng.uniform(-12, 12, n), 360)
        if s.get("wd_about") is not None:  # same number of random draws
            self.wd = np.mod(s["wd_about"] + 3.0 * np.sin(np.deg2rad(self.wd)), 360)
        self.ti = rng.uniform(0.04, 0.14, n)
        self.rho = rng.uniform(1.12, 1.28, n)
        self.weight = rng.uniform(0.2, 1.0, n)
        self.weight /= self.weight.sum()
        if s.get("ws_range") is not None:
            a, b = s["ws_range"]
            self.ws = rng.uniform(a, b, n)
        if kind == "steady":
            for a in ("ws", "wd", "ti", "rho"):
                v = getattr(self, a)
                v[:] = v[0]
        dt = s.get("dt_min", 10)
        self.time = np.datetime64("2020-01-01T00:00:00", "ns") + np.arange(
            n
        ) * np.timedelta64(int(round(dt * 60)), "s")
        if kind == "mh":
            self.mh_h = np.array([10.0, 60.0, 110.0, 170.0, 260.0, 420.0])
            sh = rng.uniform(0.05, 0.3, n)
            self.mh_ws = self.ws[:, None] * (self.mh_h[None] / 100.0) ** sh[:, None]
            self.mh_wd = np.mod(
                self.wd[:, None]
                + rng.uniform(-8, 8, n)[:, None] * (self.mh_h[None] - 100) / 300.0,
                360,
            )
            self.mh_ti = self.ti[:, None] * (1 + 0.3 * (100 - self.mh_h[None]) / 400.0)
        if kind == "field":
            lo = self.xy.min(axis=0) - 4000
            hi = self.xy.max(axis=0) + 4000
            self.fx = np.linspace(lo[0], hi[0], 5)
            self.fy = np.linspace(lo[1], hi[1], 4)
            self.fh = np.array([5.0, 80.0, 150.0, 600.0])
            sh = (n, len(self.fh), len(self.fy), len(self.fx))
            self.f_ws = self.ws[:, None, None, None] * (
                1 + 0.08 * rng.standard_normal(sh)
            )
            self.f_wd = np.mod(
                self.wd[:, None, None, None] + rng.uniform(-6, 6, sh), 360
            )
            self.f_ti = self.ti[:, None, None, None] * (1 + 0.1 * rng.random(sh))
        self.prof = s.get("profile", None)
        self.prof_z0 = rng.uniform(0.01, 0.2, n)
        self.prof_mol = np.sign(rng.uniform(-1, 1, n)) * rng.uniform(150, 800, n)
        self.rng = rng_of("scenario2", s["seed"])

    # ---------------------------------------------------------------- farm
    def mbook(self):
        mb = foxes.ModelBook()
        for t in self.types:
            mb.turbine_types[t["name"]] = self.make_type(t)
        return mb

    def make_type(self, t):
        return foxes.models.turbine_types.PCtFile(
            t["curve"].copy(),
            D=t["D"],
            H=t["H"],
            rho=t["rho"],
            P_nominal=float(t["curve"]["P"].max()),
        )

    def turbine_kwargs(self, i):
        """everything that defines turbine i, independent of its index"""
        return dict(
            xy=self.xy[i].copy(),
            turbine_models=list(self.spec.get("tmodels", []))
            + [self.types[self.ttype[i]]["name"]]
            + list(self.spec.get("tmodels_post", [])),
            name=f"WT_{i:03d}",
        )

    def farm(self, order=None, xy=None, mod=None):
        farm = foxes.WindFarm()
        order = range(self.n_t) if order is None else order
        for i in order:
            kw = self.turbine_kwargs(i)
            if xy is not None:
                kw["xy"] = xy[i].copy()
            if mod is not None:
                kw = mod(i, kw)
                if kw is None:
                    continue
            farm.add_turbine(foxes.Turbine(**kw), verbosity=0)
        return farm

    # -------------------------------------------------------------- states
    def states(self, sel=None, dwd=0.0, ws=None, wd=None, kind=None, mirror=False):
        """sel: integer indices of the states to include, in that order"""
        kind = self.kind if kind is None else kind
        sel = np.arange(self.n_s) if sel is None else np.asarray(sel)
        ws = self.ws if ws is None else ws
        wd0 = self.wd if wd is None else wd
        if mirror:  # mirror at the x axis (y -> -y): wd -> 180 - wd
            wd0 = 180.0 - wd0
        wd = np.mod(wd0 + dwd, 360)[sel]
        ws, ti, rho = ws[sel], self.ti[sel], self.rho[sel]
        w = self.weight[sel]
        ST = foxes.input.states
        ov = [FV.WS, FV.WD, FV.TI, FV.RHO]
        prof = {}
        extra = {}
        if self.prof == "abl_log":
            prof = {FV.WS: dict(type="ABLLogWsProfile")}
            extra = {
                "z0": self.prof_z0[sel],
                "h_ref": np.full(len(sel), 100.0),
                "mol": self.prof_mol[sel],
            }
        elif self.prof == "abl_neutral":
            prof = {FV.WS: dict(type="ABLLogNeutralWsProfile")}
            extra = {"z0": self.prof_z0[sel], "h_ref": np.full(len(sel), 100.0)}
        elif self.prof == "abl_stable":
            prof = {FV.WS: dict(type="ABLLogStableWsProfile")}
            extra = {
                "z0": self.prof_z0[sel],
                "h_ref": np.full(len(sel), 100.0),
                "mol": np.abs(self.prof_mol[sel]),
            }
        elif self.prof == "shear":
            prof = {FV.WS: dict(type="ShearedProfile")}
            extra = {"shear": 0.1 + 0.5 * self.prof_z0[sel], "h_ref": np.full(len(sel), 90.0)}
        if kind == "single":
            if prof:
                ren = {"z0": FV.Z0, "h_ref": FV.H, "mol": FV.MOL, "shear": FV.SHEAR}
                return ST.SingleStateStates(
                    ws=float(ws[0]),
                    wd=float(wd[0]),
                    ti=float(ti[0]),
                    rho=float(rho[0]),
                    profiles=prof,
                    **{ren[k]: float(v[0]) for k, v in extra.items()},
                )
            return ST.SingleStateStates(
                ws=float(ws[0]), wd=float(wd[0]), ti=float(ti[0]), rho=float(rho[0])
            )
        if kind in ("timeseries", "steady"):
            df = pd.DataFrame(
                index=pd.Index(self.time[sel], name="Time"),
                data=dict(ws=ws, wd=wd, ti=ti, rho=rho),
            )
            v2c = {FV.WS: "ws", FV.WD: "wd", FV.TI: "ti", FV.RHO: "rho"}
            self._add_prof(df, v2c, extra)
            return ST.Timeseries(
                df, output_vars=ov, var2col=v2c, fixed_vars={}, profiles=prof
            )
        if kind == "table":
            df = pd.DataFrame(
                index=pd.Index(sel, name="state"),
                data=dict(ws=ws, wd=wd, ti=ti, rho=rho, prob=w),
            )
            v2c = {
                FV.WS: "ws",
                FV.WD: "wd",
                FV.TI: "ti",
                FV.RHO: "rho",
                FV.WEIGHT: "prob",
            }
            self._add_prof(df, v2c, extra)
            return ST.StatesTable(df, output_vars=ov, var2col=v2c, profiles=prof)
        if kind == "mh":
            cols = {}
            mwd = self.mh_wd
            if mirror:
                mwd = 180.0 - mwd
            for k, h in enumerate(self.mh_h):
                cols[f"WS-{int(h)}"] = self.mh_ws[sel, k]
                cols[f"WD-{int(h)}"] = np.mod(mwd[sel, k] + dwd, 360)
                cols[f"TI-{int(h)}"] = self.mh_ti[sel, k]
            cols["RHO"] = rho
            df = pd.DataFrame(index=pd.Index(self.time[sel], name="Time"), data=cols)
            return ST.MultiHeightTimeseries(
                df,
                output_vars=ov,
                heights=self.mh_h,
                var2col={},
                fixed_vars={},
                bounds_error=False,
            )
        if kind == "field":
            ds = xr.Dataset(
                coords=dict(
                    Time=self.time[sel],
                    height=self.fh,
                    UTMY=self.fy,
                    UTMX=self.fx,
                ),
                data_vars=dict(
                    ws=(("Time", "height", "UTMY", "UTMX"), self.f_ws[sel]),
                    wd=(
                        ("Time", "height", "UTMY", "UTMX"),
                        np.mod(self.f_wd[sel] + dwd, 360),
                    ),
                    ti=(("Time", "height", "UTMY", "UTMX"), self.f_ti[sel]),
                ),
            )
            import tempfile, os

            fd, fn = tempfile.mkstemp(suffix=".nc", dir=os.getcwd())
            os.close(fd)
            ds.to_netcdf(fn)
            return ST.FieldDataNC(
                fn,
                output_vars=ov,
                var2ncvar={FV.WS: "ws", FV.WD: "wd", FV.TI: "ti"},
                fixed_vars={FV.RHO: 1.2},
                time_format=None,
                load_mode=self.spec.get("load_mode", "preload"),
                bounds_extra_space=1e6,
                bounds_error=False,
            )
        raise KeyError(kind)

    def _add_prof(self, df, v2c, extra):
        ren = {"z0": FV.Z0, "h_ref": FV.H, "mol": FV.MOL, "shear": FV.SHEAR}
        for k, v in extra.items():
            df[k] = v
            v2c[ren[k]] = k

    # ---------------------------------------------------------------- algo
    def algo_kwargs(self, **over):
        s = self.spec
        kw = dict(
            rotor_model=s.get("rotor", "centre"),
            wake_models=list(s.get("wakes", ["Jensen_linear_k007"])),
            wake_frame=s.get("frame", "rotor_wd"),
            partial_wakes=s.get("pwakes", None),
            ground_models=s.get("ground", None),
            verbosity=0,
        )
        kw.update(over)
        return kw

    def algo(
        self,
        cls="Downwind",
        farm=None,
        states=None,
        mbook=None,
        **over,
    ):
        A = getattr(foxes.algorithms, cls)
        return A(
            farm=self.farm() if farm is None else farm,
            states=self.states() if states is None else states,
            mbook=self.mbook() if mbook is None else mbook,
            **self.algo_kwargs(**over),
        )

    def points(self, n, seed=0, hlim=(20, 220)):
        rng = rng_of("points", self.spec["seed"], seed)
        lo = self.xy.min(axis=0) - 800
        hi = self.xy.max(axis=0) + 800
        p = np.zeros((n, 3))
        p[:, :2] = lo + rng.random((n, 2)) * (hi - lo)
        # half of the points in the neighbourhood of turbines, where wakes are
        m = n // 2
        j = rng.integers(0, self.n_t, m)
        p[:m, :2] = self.xy[j] + rng.uniform(-450, 450, (m, 2))
        p[:, 2] = rng.uniform(*hlim, n)
        return p


class engine_ctx:
    """engine context via the public factory, quiet"""

    def __init__(self, name="single", n_procs=2, cs=None, cp=None):
        self.args = (name, n_procs, cs, cp)

    def __enter__(self):
        name, n_procs, cs, cp = self.args
        kw = dict(verbosity=0)
        if name != "single":
            kw.update(n_procs=n_procs, chunk_size_states=cs, chunk_size_points=cp)
        self.e = foxes.Engine.new(name, **kw)
        self.e.__enter__()
        return self.e

    def __exit__(self, *a):
        return self.e.__exit__(*a)


def ds2dict(ds, drop=()):
    return {v: ds[v].to_numpy() for v in ds.data_vars if v not in drop}


def run_farm(scn, engine=("single",), cls="Downwind", points=None, calc={}, **over):
    """returns (farm_results dict, point_results dict or None, datasets)"""
    with engine_ctx(*engine):
        algo = scn.algo(cls, **over)
        fr = algo.calc_farm(**calc)
        pr = None
        if points is not None:
            pr = algo.calc_points(fr, points)
        return fr, pr


def random_models(
    rng,
    ti=0.5,
    tik=True,
    wakes=("Jensen", "Bastankhah2014", "Bastankhah025", "Bastankhah2016", "TurbOPark"),
    sup=None,
    frames=("rotor_wd",),
    grounds=True,
    rotors=("centre", "grid4", "grid9", "grid16", "level3", "level5"),
    pwakes=(None, "rotor_points", "centre", "grid9", "axiwake5", "top_hat"),
):
    """
    random choice of physical models as spec entries. With tik=False the wake
    growth never depends on wake-added TI, so results of a single sweep are final.
    """
    out = {}
    out["rotor"] = str(rng.choice(rotors))
    sp = str(rng.choice(WS_SUPER if sup is None else sup))
    ks = ["k002", "k004", "k0075", "ambka02", "ambka04"]
    if tik:
        ks += ["ka02", "ka04"]
    w = str(rng.choice(wakes))
    k = str(rng.choice(ks))
    out["wakes"] = [f"{w}_{sp}_{k}"]
    if rng.random() < ti:
        ts = str(rng.choice(TI_SUPER))
        tw = str(
            rng.choice(
                ["CrespoHernandez_{}_{}", "IECTI2019_{}", "IECTI2005_{}", "IECTI2019k_{}_{}"]
            )
        )
        out["wakes"].append(tw.format(ts, str(rng.choice(["k004", "ambka02"]))))
    pw = pwakes[rng.integers(0, len(pwakes))]
    out["pwakes"] = pw
    out["frame"] = str(rng.choice(frames))
    if grounds and rng.random() < 0.25:
        out["ground"] = str(rng.choice(["ground_mirror", "blh_mirror_h500"]))
    else:
        out["ground"] = None
    return out


def random_spec(rng, seed, n_t=(2, 9), n_s=(3, 14), states=None, **kw):
    if states is None:
        states = ["timeseries", "table", "mh"]
    sp = dict(
        seed=int(seed),
        n_t=int(rng.integers(n_t[0], n_t[1] + 1)),
        n_s=int(rng.integers(n_s[0], n_s[1] + 1)),
        n_types=int(rng.integers(1, 4)),
        states=str(rng.choice(states)),
        layout=str(rng.choice(["random", "row"])),
    )
    if sp["states"] in ("timeseries", "table", "single") and rng.random() < 0.3:
        sp["profile"] = str(rng.choice(["abl_log", "abl_neutral", "abl_stable", "shear"]))
    sp.update(random_models(rng, **kw))
    return sp


def lighten(sp, n_t=3, n_s=4):
    """streamline wakes are expensive: keep such cases small"""
    if sp["frame"].startswith("stream"):
        sp["n_t"] = min(sp["n_t"], n_t)
        sp["n_s"] = min(sp["n_s"], n_s)
        sp["cls"] = "Downwind"
        sp["rotor"] = "centre"
        sp["ground"] = None
    return sp
