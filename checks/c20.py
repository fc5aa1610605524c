"""C20: wind farm layouts"""

import json

import numpy as np
import pandas as pd

import foxes
import foxes.variables as FV
import foxes.constants as FC

from harness.core import rng_of
from harness.scen import make_curve, engine_ctx

PROPERTY = "C20"
RULE = (
    "random layouts built by every farm input function (rows, grids, rings, random, tables, csv, gz, json, static "
    "data) with names, ids, heights, diameters and model columns; the farm and the recorded results of a calculation "
    "must show exactly the turbines described; non-trivial with more than one turbine"
)
ASSUMES = ["ring distance: along the circle or along the chord are both accepted"]
KINDS = ["row", "grid", "ring", "ring", "random", "df", "csv", "csvgz", "json", "roundtrip", "roundtrip", "static", "turbine"]
REQUIRED_EVENTS = ["kind:" + k for k in sorted(set(KINDS))] + [
    "names", "ids", "H", "D", "models-pre", "models-post", "type-column", "filtered-index", "seed0", "seeded",
    "calc", "state-sel", "bounds", "turbine-ids", "H-argument", "D-argument", "rt:csv", "rt:json", "rt:xyh",
]
MODELS = ["kTI_02", "kTI_05", "kTI_06", "kTI_08"]


def cases(tier, seed):
    n = 156 if tier == "quick" else 2080
    out = []
    for i in range(n):
        rng = rng_of(PROPERTY, seed, i)
        out.append(dict(seed=int(rng.integers(1 << 31)), kind=KINDS[i % len(KINDS)], i=i))
    return out


def setup(rng):
    mb = foxes.ModelBook()
    T = []
    for k in range(3):
        D = float(np.round(rng.uniform(70, 160), 1))
        T.append(dict(name=f"TT{k}", D=D, H=float(np.round(D / 2 + rng.uniform(20, 60), 1))))
        c = make_curve(rng)
        mb.turbine_types[T[-1]["name"]] = foxes.models.turbine_types.PCtFile(c, D=D, H=T[-1]["H"], P_nominal=float(c.P.max()))
    return mb, T


def judge(rec, farm, exp, key, tol=1e-9):
    """exp: list of dicts with xy and optionally name, index, H, D, models"""
    rec.check(farm.n_turbines == len(exp), "count|" + key, f"{farm.n_turbines} turbines, expected {len(exp)}")
    rec.nontrivial(len(exp) > 1)
    for t, e in zip(farm.turbines, exp):
        rec.close(np.asarray(t.xy, float), np.asarray(e["xy"], float), "xy|" + key, f"position of {t.name}", rtol=1e-12, atol=tol)
        for a in ("name", "index"):
            if a in e:
                rec.check(getattr(t, a) == e[a], f"{a}|{key}", f"{a} {getattr(t, a)!r}, expected {e[a]!r}")
        for a in ("H", "D"):
            if a in e:
                g = getattr(t, a)
                ok = g is None if e[a] is None else (g is not None and abs(float(g) - e[a]) < 1e-4)
                rec.check(ok, f"{a}|{key}", f"{a} {g!r}, expected {e[a]!r}")
        if "models" in e:
            rec.check(list(t.models) == list(e["models"]), "models|" + key, f"{t.models}, expected {e['models']}")
    rec.close(np.asarray(farm.xy_array, float), np.array([e["xy"] for e in exp], float), "xy-array|" + key, "xy_array", rtol=1e-12, atol=tol)
    rec.check(list(farm.turbine_names) == [t.name for t in farm.turbines], "names|" + key, "turbine_names")


def calc(rec, rng, mb, farm, exp, key):
    """the recorded results belong to the described turbines"""
    rec.event("calc")
    n_s = 3
    df = pd.DataFrame(dict(ws=rng.uniform(6, 10, n_s), wd=rng.uniform(0, 360, n_s)), index=pd.RangeIndex(n_s, name="state"))
    states = foxes.input.states.StatesTable(
        df, output_vars=[FV.WS, FV.WD, FV.TI, FV.RHO], var2col={FV.WS: "ws", FV.WD: "wd"}, fixed_vars={FV.TI: 0.08, FV.RHO: 1.225}
    )
    a = foxes.algorithms.Downwind(farm, states, wake_models=["Jensen_linear_k007"], mbook=mb, verbosity=0)
    with engine_ctx("single"):
        fr = a.calc_farm()
    xy = np.array([e["xy"] for e in exp], float)
    rec.close(fr[FV.X].values, np.repeat(xy[None, :, 0], n_s, 0), "calc-x|" + key, "X in results", rtol=1e-12, atol=1e-6)
    rec.close(fr[FV.Y].values, np.repeat(xy[None, :, 1], n_s, 0), "calc-y|" + key, "Y in results", rtol=1e-12, atol=1e-6)
    for v in ("H", "D"):
        e = np.array([x["calc_" + v] for x in exp])
        rec.close(fr[v].values, np.repeat(e[None], n_s, 0), f"calc-{v}|{key}", f"{v} in results", atol=1e-4)
    g = np.array([str(x) for x in fr[FC.TNAME].values])
    rec.check(list(g) == [str(t.name) for t in farm.turbines], "calc-names|" + key, f"{g}")
    rec.close(farm.get_rotor_diameters(a), np.array([x["calc_D"] for x in exp]), "rotor-diameters|" + key, "get_rotor_diameters", atol=1e-4)
    rec.close(farm.get_hub_heights(a), np.array([x["calc_H"] for x in exp]), "hub-heights|" + key, "get_hub_heights", atol=1e-4)
    # bounds
    rec.event("bounds")
    lo, hi = farm.get_xy_bounds()
    rec.close(np.r_[lo, hi], np.r_[xy.min(0), xy.max(0)], "bounds|" + key, "get_xy_bounds", atol=1e-6)
    lo, hi = farm.get_xy_bounds(extra_space=250.0)
    rec.close(np.r_[lo, hi], np.r_[xy.min(0) - 250, xy.max(0) + 250], "bounds|" + key, "get_xy_bounds with space", atol=1e-6)
    D = np.array([x["calc_D"] for x in exp])[:, None]
    lo, hi = farm.get_xy_bounds(extra_space="2.5D", algo=a)
    rec.close(np.r_[lo, hi], np.r_[(xy - 2.5 * D).min(0), (xy + 2.5 * D).max(0)], "bounds|" + key, "get_xy_bounds with 2.5D", atol=1e-3)
    return a, fr


def common(rng, rec, T, n, unique=True):
    """turbine parameters shared by all turbines, expected entries"""
    t = T[int(rng.integers(0, 3))]
    kw = dict(turbine_models=[t["name"]])
    e = dict(models=[t["name"]], H=None, D=None, calc_H=t["H"], calc_D=t["D"])
    if rng.random() < 0.5:
        kw["H"] = e["H"] = e["calc_H"] = float(np.round(rng.uniform(90, 160), 2))
        rec.event("H")
    if rng.random() < 0.3:
        kw["D"] = e["D"] = e["calc_D"] = float(np.round(rng.uniform(60, 120), 2))
        rec.event("D")
    E = [dict(e) for _ in range(n)]
    return kw, E


def ids_names(rng, rec, kw, E):
    n = len(E)
    if rng.random() < 0.5:
        rec.event("names")
        kw["names"] = [f"W{k}x" for k in rng.permutation(n)]
        for k in range(n):
            E[k]["name"] = kw["names"][k]
    if rng.random() < 0.5:
        rec.event("ids")
        kw["indices"] = [int(x) for x in 100 + rng.permutation(n)]
    for k in range(n):
        E[k]["index"] = kw["indices"][k] if "indices" in kw else k
        if "names" not in kw:
            E[k]["name"] = f"T{E[k]['index']}"


def run_row(rng, rec, mb, T):
    n = int(rng.integers(1, 8))
    kw, E = common(rng, rec, T, n)
    ids_names(rng, rec, kw, E)
    if rng.random() < 0.3:
        p0, d = rng.integers(-500, 500, 2).tolist(), rng.uniform(-700, 700, 2)
    else:
        p0, d = rng.uniform(-500, 500, 2), rng.uniform(-700, 700, 2)
    keep = np.array(p0, float), np.array(d)
    for k in range(n):
        E[k]["xy"] = keep[0] + k * keep[1]
    farm = foxes.WindFarm()
    foxes.input.farm_layout.add_row(farm, xy_base=p0, xy_step=d, n_turbines=n, verbosity=0, **kw)
    rec.check(np.array_equal(np.array(p0, float), keep[0]) and np.array_equal(d, keep[1]), "input|row", "arguments modified")
    return farm, E


def run_grid(rng, rec, mb, T):
    n0, n1 = int(rng.integers(1, 5)), int(rng.integers(1, 4))
    kw, E = common(rng, rec, T, n0 * n1)
    ids_names(rng, rec, kw, E)
    p0, S = rng.uniform(-500, 500, 2), rng.uniform(-700, 700, (2, 2))
    k = 0
    for i in range(n0):
        for j in range(n1):
            E[k]["xy"] = p0 + i * S[0] + j * S[1]
            k += 1
    farm = foxes.WindFarm()
    foxes.input.farm_layout.add_grid(farm, xy_base=list(p0), step_vectors=S.tolist(), steps=[n0, n1], verbosity=0, **kw)
    return farm, E


def run_ring(rng, rec, mb, T):
    n = int(rng.integers(2, 12))
    kw, E = common(rng, rec, T, n)
    ids_names(rng, rec, kw, E)
    p0, d = rng.uniform(-500, 500, 2), float(rng.uniform(300, 900))
    off = [None, 0, 30, 45.5, int(rng.integers(0, 360)), float(rng.uniform(0, 360))][int(rng.integers(0, 6))]
    if off is not None:
        kw["offset_deg"] = off
    farm = foxes.WindFarm()
    foxes.input.farm_layout.add_ring(farm, xy_base=p0, dist=d, n_turbines=n, verbosity=0, **kw)
    th = np.deg2rad((off or 0) + 360.0 / n * np.arange(n))
    xy = farm.xy_array - p0
    R = np.linalg.norm(xy, axis=1)
    rec.close(R, np.full(n, R[0]), "ring|radius", "turbines not on a circle", rtol=1e-9)
    arc, chord = n * d / (2 * np.pi), d / (2 * np.sin(np.pi / n))
    rec.check(min(abs(R[0] - arc), abs(R[0] - chord)) < 1e-6 * d, "ring|dist", f"radius {R[0]} for distance {d}, n={n}")
    for k in range(n):
        E[k]["xy"] = p0 + R[0] * np.array([np.sin(th[k]), np.cos(th[k])])
    return farm, E


def run_random(rng, rec, mb, T):
    n = int(rng.integers(2, 9))
    kw, E = common(rng, rec, T, n)
    s = 0 if rng.random() < 0.4 else int(rng.integers(1, 10000))
    rec.event("seed0" if s == 0 else "seeded")
    d = float(rng.uniform(300, 700))
    c = rng.uniform(-1000, 1000, 2)
    F = []
    for r in range(2):
        np.random.seed(r + 17)
        farm = foxes.WindFarm()
        foxes.input.farm_layout.add_random(farm, n, min_dist=d, centre=c, seed=s, verbosity=0, **kw)
        F.append(farm)
    rec.close(F[0].xy_array, F[1].xy_array, "random|seed", f"different layouts with seed {s}")
    xy = F[0].xy_array
    D = np.linalg.norm(xy[:, None] - xy[None], axis=-1) + 1e9 * np.eye(n)
    rec.check(D.min() >= d - 1e-9, "random|dist", f"distance {D.min()} below {d}")
    rec.close(xy.mean(0), c, "random|centre", "centre of the layout", atol=1e-6)
    for k in range(n):
        E[k]["xy"] = xy[k]
    return F[0], E


def table(rng, rec, T):
    """a random turbine table, call arguments, expected turbines"""
    n = int(rng.integers(1, 8))
    df = pd.DataFrame(dict(xx=np.round(rng.uniform(-3e3, 3e3, n), 3), yy=np.round(rng.uniform(-3e3, 3e3, n), 3)))
    if rng.random() < 0.2:
        df["xx"] = df["xx"].astype(int)
    kw = dict(col_x="xx", col_y="yy")
    E = [dict(xy=df.loc[k, ["xx", "yy"]].to_numpy(float)) for k in range(n)]
    pre, typ, post = [[] for _ in E], [None] * n, [[] for _ in E]
    if rng.random() < 0.6:
        rec.event("names")
        df["nm"] = [f"name {k}" for k in rng.permutation(n)]
        kw["col_name"] = "nm"
        for k in range(n):
            E[k]["name"] = df.nm[k]
    if rng.random() < 0.5:
        rec.event("ids")
        df["theid"] = rng.permutation(n) + 50
        kw["col_id"] = "theid"
        for k in range(n):
            E[k]["index"] = int(df.theid[k])
    if rng.random() < 0.5:
        rec.event("models-pre")
        df["m1"] = rng.choice(MODELS[:2], n)
        kw["cols_models_pre"] = ["m1"]
        pre = [[m] for m in df.m1]
    if rng.random() < 0.4:
        rec.event("models-post")
        df["p1"] = rng.choice(MODELS[2:3], n)
        df["p2"] = rng.choice(MODELS[3:], n)
        kw["cols_models_post"] = ["p1", "p2"]
        post = [[a, b] for a, b in zip(df.p1, df.p2)]
    tm = []
    if rng.random() < 0.6:
        rec.event("type-column")
        df["tt"] = [T[int(i)]["name"] for i in rng.integers(0, 3, n)]
        kw["col_turbine_type"] = "tt"
        typ = list(df.tt)
        types = typ
    else:
        tm = [T[int(rng.integers(0, 3))]["name"]]
        types = tm * n
    if tm:
        kw["turbine_models"] = list(tm)
    byname = {t["name"]: t for t in T}
    for k in range(n):
        E[k].update(H=None, D=None, calc_H=byname[types[k]]["H"], calc_D=byname[types[k]]["D"])
        E[k]["models"] = pre[k] + ([typ[k]] if typ[k] is not None else []) + tm + post[k]
    for v in ("H", "D"):  # one value for all, unless there is a column
        if rng.random() < 0.3:
            rec.event(v + "-argument")
            kw[v] = 97.5
            for e in E:
                e[v] = e["calc_" + v] = 97.5
    for v, c in (("H", "hh"), ("D", "dd")):
        if rng.random() < 0.5:
            rec.event(v)
            df[c] = np.round(rng.uniform(90, 150, n), 2)
            kw["col_" + v] = c
            for k in range(n):
                E[k][v] = E[k]["calc_" + v] = float(df[c][k])
        elif rng.random() < 0.3:
            x = float(np.round(rng.uniform(90, 150), 2))
            kw[v] = x
            for k in range(n):
                E[k][v] = E[k]["calc_" + v] = x
    return df, kw, E


def basename(rng, kw, E, lab):
    if "col_name" not in kw:
        sh = rng.random() < 0.5
        b = "T"
        if rng.random() < 0.5:
            b = kw["turbine_base_name"] = "Q"
        if sh:
            kw["turbine_base_name_count_shift"] = True
        for k in range(len(E)):
            E[k]["name"] = f"{b}{lab[k] + int(sh)}"


def run_df(rng, rec, mb, T):
    df, kw, E = table(rng, rec, T)
    lab = list(range(len(df)))
    if rng.random() < 0.4:
        rec.event("filtered-index")
        lab = sorted(int(x) for x in rng.permutation(40)[: len(df)])
        df.index = lab
    basename(rng, kw, E, lab)
    if "col_id" not in kw and rng.random() < 0.5:
        rec.event("turbine-ids")
        ids = [int(x) for x in rng.permutation(900)[: len(df)]]
        kw["turbine_ids"] = ids
        for k in range(len(df)):
            E[k]["index"] = ids[k]
    keep, kw0 = df.copy(deep=True), json.dumps(kw)
    farm = foxes.WindFarm()
    foxes.input.farm_layout.add_from_df(farm, df, verbosity=0, **kw)
    rec.check(df.equals(keep) and json.dumps(kw) == kw0, "input|df", "arguments modified")
    return farm, E


def run_csv(rng, rec, mb, T, sfx=".csv"):
    df, kw, E = table(rng, rec, T)
    df.to_csv("layout" + sfx, index=False)
    basename(rng, kw, E, list(range(len(df))))
    farm = foxes.WindFarm()
    f = foxes.input.farm_layout.add_from_file if sfx != ".csv" or rng.random() < 0.5 else foxes.input.farm_layout.add_from_csv
    f(farm, "layout" + sfx, verbosity=0, **kw)
    return farm, E


def run_csvgz(rng, rec, mb, T):
    return run_csv(rng, rec, mb, T, sfx=[".csv.gz", ".csv.bz2"][int(rng.integers(0, 2))])


def run_json(rng, rec, mb, T):
    n = int(rng.integers(1, 7))
    E, d = [], {}
    own = rng.random() < 0.5
    t0 = T[int(rng.integers(0, 3))]
    kw = dict(turbine_models=["kTI_02"] if own else [t0["name"]])
    if rng.random() < 0.3:
        kw["H"] = 111.0
    for k in range(n):
        xy = np.round(rng.uniform(-2000, 2000, 2), 3)
        w = dict(UTMX=xy[0], UTMY=xy[1])
        t = T[int(rng.integers(0, 3))] if own else t0
        e = dict(xy=xy, name=f"N{k}", H=kw.get("H"), D=None, calc_H=kw.get("H", t["H"]), calc_D=t["D"], models=list(kw["turbine_models"]))
        if rng.random() < 0.5:
            rec.event("ids")
            w["id"] = e["index"] = 20 + k
        if rng.random() < 0.5:
            w["H"] = e["H"] = e["calc_H"] = float(np.round(rng.uniform(90, 150), 1))
        if rng.random() < 0.5:
            w["D"] = e["D"] = e["calc_D"] = float(np.round(rng.uniform(90, 150), 1))
        if own:
            w["turbine_models"] = [t["name"]]
            e["models"] = [t["name"]] + e["models"]
        d[e["name"]] = w
        E.append(e)
    with open("farm.json", "w") as f:
        json.dump({"my farm": d}, f)
    farm = foxes.WindFarm()
    g = rng.random() < 0.5
    if rng.random() < 0.5:
        foxes.input.farm_layout.add_from_json(farm, "farm.json", set_farm_name=g, verbosity=0, **kw)
    else:
        foxes.input.farm_layout.add_from_file(farm, "farm.json", set_farm_name=g, **kw)
    rec.check(farm.name == ("my farm" if g else "wind_farm"), "name|json", f"farm name {farm.name}")
    return farm, E


def run_roundtrip(rng, rec, mb, T):
    n = int(rng.integers(1, 7))
    farm0 = foxes.WindFarm(name="rtfarm")
    E = []
    for k in range(n):
        t = T[int(rng.integers(0, 3))]
        xy = np.round(rng.uniform(-2000, 2000, 2), 3)
        H, D = (float(np.round(x, 2)) for x in rng.uniform(80, 160, 2))
        farm0.add_turbine(foxes.Turbine(xy=xy, H=H, D=D, turbine_models=[t["name"]], name=f"R{n-k}"), verbosity=0)
        E.append(dict(xy=xy, name=f"R{n-k}", H=H, D=D, calc_H=H, calc_D=D, models=[t["name"]]))
    kind = str(rng.choice(["csv", "csv", "json", "xyh"]))
    L = foxes.output.FarmLayoutOutput(farm0, out_dir=".")
    farm = foxes.WindFarm()
    rec.event("rt:" + kind)
    if kind == "csv":
        a, fr = calc(rec, rng, mb, farm0, E, "roundtrip")
        L.write_csv("rt.csv", type_col="the_type", algo=a)
        foxes.input.farm_layout.add_from_file(
            farm, "rt.csv", col_index="index", col_name="name", col_x="x", col_y="y", col_H="h", col_D="D",
            col_turbine_type="the_type", verbosity=0,
        )
        return farm, E
    if kind == "json":
        L.write_json("rt.json")
        for e in E:
            e.update(models=[T[0]["name"]], H=101.0, D=None, calc_H=101.0, calc_D=T[0]["D"], index=None)
        for k, e in enumerate(E):
            e["index"] = k
        foxes.input.farm_layout.add_from_file(farm, "rt.json", turbine_models=[T[0]["name"]], H=101.0)
        rec.check(farm.name == "rtfarm", "name|json-rt", f"farm name {farm.name}")
        return farm, E
    L.write_xyh("rt.xyh")
    d = np.atleast_2d(np.loadtxt("rt.xyh"))
    e = np.array([[*x["xy"], x["H"]] for x in E])
    rec.close(d, e, "xyh", "xyh file", rtol=1e-9, atol=1e-6)
    return farm0, E


def run_static(rng, rec, mb, T):
    import importlib.resources as R
    from pathlib import Path

    d = Path(foxes.__file__).parent / "data" / "farms"
    f = sorted(p for p in d.iterdir() if p.suffix == ".csv")
    f = f[int(rng.integers(0, len(f)))]
    df = pd.read_csv(f)
    t = T[0]
    farm = foxes.WindFarm()
    foxes.input.farm_layout.add_from_file(farm, f.name, col_x="x", col_y="y", turbine_models=[t["name"]], verbosity=0)
    E = [dict(xy=np.array([df.x[k], df.y[k]], float), name=f"T{k}", H=None, D=None, calc_H=t["H"], calc_D=t["D"], models=[t["name"]]) for k in range(len(df))]
    return farm, E


def run_turbine(rng, rec, mb, T):
    """per-state models of turbines; lists given by the caller stay the caller's"""
    n_s, n = 3, int(rng.integers(2, 5))
    t = T[0]
    sel = [None, rng.random(n_s) < 0.5]
    models, msel = [t["name"], "kTI_02"], list(sel)
    farm = foxes.WindFarm()
    foxes.input.farm_layout.add_row(
        farm, xy_base=[0.0, 0.0], xy_step=[600.0, 30.0], n_turbines=n, turbine_models=models, models_state_sel=msel, verbosity=0
    )
    rec.event("state-sel")
    E = [dict(xy=[600.0 * k, 30.0 * k], models=list(models), calc_H=t["H"], calc_D=t["D"]) for k in range(n)]
    j = int(rng.integers(0, n))
    farm.turbines[j].add_model("kTI_05", ~sel[1])
    farm.turbines[j].insert_model(0, "thrust2ct") if False else None
    E[j]["models"] = models + ["kTI_05"]
    rec.check(models == [t["name"], "kTI_02"], "shared|models", f"list of the caller changed to {models}")
    rec.check(len(msel) == 2, "shared|state-sel", "models_state_sel list of the caller was changed by add_model")
    for k in range(n):
        m = farm.turbines[k].mstates_sel
        rec.check(len(m) == len(E[k]["models"]), "shared|turbines", f"turbine {k} has {len(m)} state selections for {len(E[k]['models'])} models")
    return farm, E


def run(spec, rec):
    rng = rng_of("c20", spec["seed"])
    rec.event("kind:" + spec["kind"])
    mb, T = setup(rng)
    farm, E = globals()["run_" + spec["kind"]](rng, rec, mb, T)
    judge(rec, farm, E, spec["kind"], tol=2e-4 if spec["kind"] == "roundtrip" else 1e-9)
    if len(E) and spec["kind"] != "static":
        calc(rec, rng, mb, farm, E, spec["kind"])
    rec.sample = dict(kind=spec["kind"], n=len(E))
