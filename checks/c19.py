"""C19: written files contain the data"""

import copy
import io

import numpy as np
import pandas as pd
import xarray as xr

import foxes
import foxes.variables as FV
import foxes.constants as FC
from foxes.utils import PandasFileHelper, write_nc

from harness.core import rng_of
from harness.scen import Scenario, engine_ctx, random_spec

PROPERTY = "C19"
RULE = (
    "random farm results and tables written with every writer, option and format in random sequences and read back, "
    "compared with the data before writing; non-trivial with several states and turbines"
)
ASSUMES = ["default formats round to the documented digits of each variable", "no HDF5 tables library in the sandbox: h5 not covered"]
KINDS = ["results", "results", "pandas", "nc", "create", "output"]
REQUIRED_EVENTS = ["kind:" + k for k in sorted(set(KINDS))] + [
    "csv", "nc", "rounded", "swapped-labels", "vars:none", "vars:list", "vars:dict", "names", "st-table", "repeat", "datetime", "dotted-name", "csv.gz",
    "rename-index", "format_dict", "sep", "pandas-nc", "digits", "fname-fun", "data-frame-input",
]
DIG = {FV.TI: 6, FV.CT: 6, FV.RHO: 5, FV.P: 3, FV.WD: 3, FV.T: 3, FV.REWS: 4, FV.REWS2: 4, FV.REWS3: 4, FV.WS: 4, FV.CAP: 5, FV.EFF: 5, FV.YLD: 3}


def dig(v):
    v = FV.amb2var.get(v, v)
    return DIG.get(v, None)


def near(rec, got, exp, v, key, msg, slack=1.0, rounded=False):
    """equality up to the documented rounding of variable v"""
    d = dig(v)
    tol = 0.51 * 10.0 ** (-d) * slack if d is not None else 1e-9
    if d is not None and rounded:
        rec.event("rounded")
        rec.close(np.asarray(got, float), np.round(np.asarray(got, float), d), "digits|" + key, f"{msg} is not rounded to {d} digits", rtol=1e-12, atol=1e-9)
    rec.close(np.asarray(got, float), np.asarray(exp, float), key, msg, rtol=1e-12, atol=tol)


def cases(tier, seed):
    n = 120 if tier == "quick" else 1500
    out = []
    for i in range(n):
        rng = rng_of(PROPERTY, seed, i)
        sp = random_spec(
            rng, int(rng.integers(1 << 31)), n_t=(1, 6), n_s=(1, 8), states=["timeseries", "table", "mh"],
            wakes=("Jensen",), tik=False, sup=["linear"], pwakes=(None,), grounds=False, rotors=("centre",),
        )
        sp.update(kind=KINDS[i % len(KINDS)])
        out.append(sp)
    return out


def results(spec):
    scn = Scenario(spec)
    with engine_ctx("single"):
        return scn, scn.algo().calc_farm()


def states_of(x, fr):
    s = fr[FC.STATE].values
    if np.issubdtype(s.dtype, np.datetime64):
        return pd.to_datetime(np.asarray(x)).values.astype("datetime64[ns]"), s.astype("datetime64[ns]")
    return np.asarray(x), s


# ------------------------------------------------------------ ResultsWriter
def run_results(spec, rec, rng):
    scn, fr = results(spec)
    n_s, n_t = scn.n_s, scn.n_t
    rec.nontrivial(n_s > 1 and n_t > 1)
    keep = fr.copy(deep=True)
    names = [str(x) for x in fr[FC.TNAME].values]
    if np.issubdtype(fr[FC.STATE].dtype, np.datetime64):
        rec.event("datetime")
    fromdf = rng.random() < 0.25
    if fromdf:
        rec.event("data-frame-input")
        df = fr.to_dataframe().reset_index()
        df = df.set_index([FC.STATE, FC.TURBINE]).sort_index()
        df0 = df.copy(deep=True)
        W = foxes.output.ResultsWriter(data=df, out_dir="out")
    else:
        W = foxes.output.ResultsWriter(farm_results=fr, out_dir="out")
    V0 = [FV.P, FV.REWS, FV.TI, FV.CT, FV.AMB_REWS, FV.AMB_TI, FV.WD, FV.RHO]
    for r in range(int(rng.integers(2, 5))):
        if r > 0:
            rec.event("repeat")
        V = [V0[i] for i in rng.permutation(len(V0))[: int(rng.integers(1, 5))]]
        lab = {v: v for v in V}
        vk = str(rng.choice(["none", "list", "dict"]))
        rec.event("vars:" + vk)
        args = None if vk == "none" else list(V)
        ix = {}
        if vk == "none":
            V = list(V0)
            lab = {v: v for v in V}
        if vk == "dict":
            lab = {v: f"col {v}" for v in V}
            if len(V) > 1 and rng.random() < 0.5:
                # labels which are names of other variables
                rec.event("swapped-labels")
                lab = {v: V[i - 1] for i, v in enumerate(V)}
            args = dict(lab)
        arg0 = copy.deepcopy(args)
        tn = rng.random() < 0.4
        if tn:
            rec.event("names")
        if rng.random() < 0.6:
            fn = f"r{r}.csv" + (".gz" if rng.random() < 0.2 else "")
            rec.event("csv")
            st = rng.random() < 0.3
            kw = {}
            if st:
                rec.event("st-table")
                V = V[:1]
                lab = {V[0]: lab[V[0]]}
                args = [V[0]] if vk != "dict" else dict(lab)
                arg0 = copy.deepcopy(args)
                kw["state_turbine_table"] = True
            if vk == "dict":
                kw["format_col2var"] = {c: v for v, c in lab.items()}
            elif vk == "dict2":
                pass
            if vk == "dict" and not st and rng.random() < 0.3:
                rec.event("rename-index")
                ix = {FC.STATE: "Time", FC.TURBINE: "wt"}
                args.update(ix)
                arg0 = copy.deepcopy(args)
            W.write_csv(fn, args, turbine_names=tn, verbosity=0, **kw)
            d = pd.read_csv("out/" + fn)
            key = "csv|" + ("table" if st else vk) + ("|names" if tn else "") + ("|repeat" if r else "")
            rec.check(args == arg0, "input|variables", f"variables argument changed from {arg0} to {args}")
            sc, tc = ix.get(FC.STATE, FC.STATE), ix.get(FC.TURBINE, FC.TNAME if tn else FC.TURBINE)
            if st:
                v = V[0]
                cols = [f"{lab[v]}_{names[t]}" if tn else f"{lab[v]}_T{t:04d}" for t in range(n_t)]
                rec.check(set(cols) <= set(d.columns) and len(d) == n_s, "table|shape|" + key, f"{list(d.columns)}, {len(d)} rows")
                if set(cols) <= set(d.columns) and len(d) == n_s:
                    near(rec, d[cols].to_numpy(), fr[v].values, v, "table|" + key, f"state turbine table of {v}", rounded=True)
                    a, b = states_of(d[d.columns[0]], fr)
                    rec.check(bool(np.all(a == b)), "states|" + key, f"states {a[:3]}")
                continue
            rec.check({sc} <= set(d.columns), "state-col|" + key, f"{list(d.columns)}")
            if tc not in d.columns and ix:
                tc = FC.TNAME
            rec.check({tc} <= set(d.columns), "turbine-col|" + key, f"{list(d.columns)}")
            rec.check({lab[v] for v in V} <= set(d.columns), "columns|" + key, f"{list(d.columns)} for {lab}")
            rec.check(len(d) == n_s * n_t, "rows|" + key, f"{len(d)} rows")
            if not {sc, tc, *lab.values()} <= set(d.columns) or len(d) != n_s * n_t:
                continue
            a, b = states_of(d[sc], fr)
            rec.check(bool(np.all(a == np.repeat(b, n_t))), "states|" + key, "state column")
            e = np.tile(names if tn else np.arange(n_t), n_s)
            rec.check(list(d[tc]) == list(e), "turbines|" + key, f"{list(d[tc])[:4]}, expected {list(e)[:4]}")
            for v in V:
                near(rec, d[lab[v]].to_numpy().reshape(n_s, n_t), fr[v].values, v, "values|" + key, f"{v} in csv", rounded=True)
        else:
            rec.event("nc")
            if vk == "none":  # non-numeric columns have no place in this format
                args = arg0 = None
            if vk == "dict":  # this format rounds by label
                lab = {v: f"col {v}" for v in V}
                args, arg0 = dict(lab), dict(lab)
            fn = f"r{r}.nc"
            key = "nc|" + vk + ("|names" if tn else "") + ("|repeat" if r else "")
            W.write_nc(fn, args, turbine_names=tn, verbosity=0)
            rec.check(args == arg0, "input|variables", f"variables argument changed from {arg0} to {args}")
            d = xr.load_dataset("out/" + fn)
            rec.check({lab[v] for v in V} <= set(map(str, d.data_vars)), "vars|" + key, f"{list(d.data_vars)}")
            a, b = states_of(d[FC.STATE].values, fr)
            rec.check(bool(np.all(a == b)), "states|" + key, "states")
            if tn:
                rec.check([str(x) for x in d[FC.TURBINE].values] == names, "names|" + key, f"{d[FC.TURBINE].values}")
            for v in V:
                if lab[v] in d:
                    near(rec, d[lab[v]].values, fr[v].values, v, "values|" + key, f"{v} in nc")
    for v in V0:
        rec.close(fr[v].values, keep[v].values, "input|results", f"{v} modified by writing")
    if fromdf:
        rec.check(df.equals(df0), "input|data", "data frame modified by writing")


# ------------------------------------------------------- pandas file helper
def run_pandas(spec, rec, rng):
    n = int(rng.integers(2, 12))
    rec.nontrivial()
    for r in range(4):
        df = pd.DataFrame({c: rng.uniform(0.01, 20, n) for c in (FV.WS, FV.TI, FV.P, "other", "x y")})
        df["n"] = rng.integers(0, 100, n)
        df["s"] = [f"text{k}" for k in range(n)]
        if rng.random() < 0.3:
            df.loc[0, FV.WS] = np.nan
        idx = rng.random() < 0.5
        df.index.name = "ind"
        keep = df.copy(deep=True)
        sfx = str(rng.choice(["csv", "csv", "csv.gz", "csv.bz2", "nc"]))
        base = "a.b" if rng.random() < 0.3 else "file"
        if "." in base:
            rec.event("dotted-name")
        if sfx == "csv.gz":
            rec.event("csv.gz")
        fn = f"{base}_{r}.{sfx}"
        fd, kw, rk = {}, {}, {}
        if rng.random() < 0.4:
            rec.event("format_dict")
            fd = {"other": "{:.2f}"}
        if sfx[:3] == "csv":
            if rng.random() < 0.4:
                rec.event("sep")
                kw["sep"] = rk["sep"] = ";"
            if not idx:
                kw["index"] = False
            else:
                rk["index_col"] = 0
        else:
            rec.event("pandas-nc")
        PandasFileHelper.write_file(df, fn, fd, **kw)
        rec.check(df.equals(keep), "input|frame", "frame modified by writing")
        g = PandasFileHelper.read_file(fn, **rk)
        key = ("csv" if sfx[:3] == "csv" else sfx) + ("|dotted" if "." in base else "")
        rec.check(set(g.columns) == set(df.columns), "columns|" + key, f"{list(g.columns)}")
        rec.check(len(g) == n, "rows|" + key, f"{len(g)}")
        if set(g.columns) == set(df.columns) and len(g) == n:
            for c in df.columns:
                if c == "s":
                    rec.check(list(g[c]) == list(df[c]), "text|" + key, "text column")
                elif c == "other" and fd:
                    rec.close(np.asarray(g[c], float), df[c].to_numpy(), "values|" + key, c, rtol=0, atol=0.0051)
                else:
                    near(rec, g[c].to_numpy(), df[c].to_numpy(), c, "values|" + key, f"column {c}")
        # plain pandas agrees with the helper
        if sfx == "csv":
            raw = open(fn).readline().strip()
            rec.check(raw.count(kw.get("sep", ",")) == len(df.columns) - 1 + int(idx), "sep|" + key, f"header '{raw}' with {kw}")


# ----------------------------------------------------------------- write_nc
def run_nc(spec, rec, rng):
    n, m = int(rng.integers(2, 6)), int(rng.integers(1, 5))
    rec.nontrivial()
    V = [FV.WS, FV.TI, FV.P, "other"]
    ds = xr.Dataset(
        coords={"state": np.arange(n) * 1.25, "turbine": np.arange(m)},
        data_vars={v: (("state", "turbine"), rng.uniform(0.01, 20, (n, m))) for v in V},
        attrs=dict(a=1.5),
    )
    keep = ds.copy(deep=True)
    rd = [{}, {"other": 1, FV.WS: 2}, None][int(rng.integers(0, 3))]
    rec.event("digits" if rd else "nc")
    write_nc(ds, "f.nc", round=rd, complevel=[None, 0, 5, 9][int(rng.integers(0, 4))], verbosity=0)
    rec.check(bool(ds.identical(keep)), "input|nc", "data set modified by write_nc")
    g = xr.load_dataset("f.nc")
    rec.close(g["state"].values, ds["state"].values, "nc|coords", "state coordinates")
    rec.check(g.attrs.get("a") == 1.5, "nc|attrs", f"{g.attrs}")
    for v in V:
        d = None if rd is None else rd.get(v, dig(v))
        tol = 1e-12 if d is None else 0.51 * 10.0 ** -d
        rec.close(g[v].values, ds[v].values, "nc|values", f"{v} with round={rd}", rtol=1e-12, atol=tol)
        if d is not None:
            rec.close(g[v].values, np.round(g[v].values, d), "nc|round", f"{v} rounded to {d}", rtol=0, atol=1e-9)


# --------------------------------------------------- created states, outputs
def run_create(spec, rec, rng):
    from foxes.input.states.create import create_random_abl_states, write_random_abl_states, random_timseries_data

    rec.nontrivial()
    s = [0, 1, 77][int(rng.integers(0, 3))]
    n = int(rng.integers(5, 60))
    D = []
    for r in range(2):
        np.random.seed(1000 + r)
        D.append(random_timseries_data(n, {FV.TI: (0.05, 0.2)}, seed=s, start_time="2010-03-01 00:00:00", freq="h"))
    rec.check(D[0].equals(D[1]), "timeseries|seed", f"different data with seed {s}")
    rec.check(set(D[0].columns) == {FV.WS, FV.WD, FV.TI} and len(D[0]) == n, "timeseries|shape", f"{D[0].shape}")
    rec.check(bool(D[0][FV.TI].between(0.05, 0.2).all() and D[0][FV.WD].between(0, 360).all()), "timeseries|range", "value ranges")
    t = D[0].index.values
    rec.check(t[0] == np.datetime64("2010-03-01T00:00:00") and bool(np.all(np.diff(t) == np.timedelta64(1, "h"))), "timeseries|times", f"{t[:3]}")
    mm = {FV.WS: (3.0, 20.0), FV.WD: (0.0, 360.0), FV.TI: (0.02, 0.2), FV.MOL: (-900.0, 900.0), FV.WEIGHT: (0.1, 1.0)}
    d = create_random_abl_states(n, mm, mol_abs_range=(100.0, 500.0))
    rec.close(d[FV.WEIGHT].sum(), 1.0, "abl|weights", "sum of weights")
    m = d[FV.MOL].abs().dropna()
    rec.check(bool(m.between(100, 500).all()), "abl|mol", "MOL outside of the range")
    dd = [None, "auto", 2][int(rng.integers(0, 3))]
    rec.event("digits")
    np.random.seed(3)
    write_random_abl_states("st.csv", n, mm, verbosity=0, digits=copy.deepcopy(dd))
    np.random.seed(3)
    e = create_random_abl_states(n, mm)
    g = pd.read_csv("st.csv", index_col=0)
    auto = {FV.WS: 4, FV.WD: 4, FV.TI: 6, FV.MOL: 1}
    for c in mm:
        k = {} if dd is None else auto if dd == "auto" else {c: dd for c in mm if c != FV.WEIGHT}
        tol = 1e-9 if c not in k else 0.51 * 10.0 ** -k[c]
        rec.close(g[c].to_numpy(), e[c].to_numpy(), "abl|file", f"{c} with digits {dd}", rtol=1e-12, atol=tol)
        if c in k:
            rec.close(g[c].to_numpy(), np.round(g[c].to_numpy(), k[c]), "abl|digits", f"{c} is not rounded to {k[c]} digits", atol=1e-9)


def run_output(spec, rec, rng):
    """file name functions and directories of outputs"""
    scn, fr = results(spec)
    rec.nontrivial()
    rec.event("fname-fun")
    from pathlib import Path

    fun = lambda p: Path("pre_" + Path(p).name)
    T = foxes.output.StateTurbineTable(fr, out_dir="sub/dir", out_fname_fun=fun)
    T.get_dataset([FV.P], to_file="a.nc", verbosity=0)
    rec.check(Path("sub/dir/pre_a.nc").is_file(), "fname-fun", "file not found")
    near(rec, xr.load_dataset("sub/dir/pre_a.nc")[FV.P].values, fr[FV.P].values, FV.P, "fname-fun|values", "table")
    df = pd.DataFrame({FV.P: rng.uniform(0, 5000, 5), "cc": rng.uniform(0, 1, 5), "ti": rng.uniform(0.01, 0.2, 5)})
    o = foxes.output.Output(out_dir="sub")
    o.write("q.csv", df, format_col2var={"ti": FV.TI}, format_dict={FV.P: "{:.1f}"})
    g = pd.read_csv("sub/q.csv", index_col=0)
    rec.close(g[FV.P].to_numpy(), df[FV.P].to_numpy(), "write|P", "P with one digit", atol=0.051, rtol=0)
    near(rec, g["ti"], df["ti"], FV.TI, "write|ti", "TI column", rounded=True)
    rec.close(g["cc"].to_numpy(), df["cc"].to_numpy(), "write|cc", "unformatted column", rtol=1e-12)
    if "name" in dir(scn):
        pass


def run(spec, rec):
    rng = rng_of("c19", spec["seed"])
    rec.event("kind:" + spec["kind"])
    globals()["run_" + spec["kind"]](spec, rec, rng)
    rec.sample = dict(kind=spec["kind"])
