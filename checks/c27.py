"""C27: numerical helpers: wind vectors, circles, roots, profiles, random layouts, dictionaries, data book, scripts"""

import os
import numpy as np

from harness.core import rng_of

PROPERTY = "C27"
RULE = (
    "random and boundary arguments of all shapes for the helpers in foxes.utils, compared with scalar evaluations of "
    "the definitions (wind directions, circle overlap, cubic roots, logarithmic profiles), with guarantees of the "
    "documentation (distances of random layouts, dictionaries, data book, netCDF rounding); non-trivial when values were compared"
)
ASSUMES = ["cubic roots are compared away from coinciding roots, there only residuals are judged"]
REQUIRED_EVENTS = [
    "wd-scalar", "wd-array", "wd-axis", "delta-wd", "circles", "circles-inside", "circles-apart", "circles-touch", "circles-broadcast",
    "cubic-one", "cubic-three", "cubic-multiple", "sqrt", "abl-stable", "abl-unstable", "abl-neutral", "random-xy", "dict",
    "dict-nested", "databook", "exec", "nc", "subclasses", "yaml",
]
KINDS = ["wind", "circles", "cubic", "abl", "xy", "dict", "book", "exec", "nc"]


def cases(tier, seed):
    n = 270 if tier == "quick" else 9000
    out = []
    for i in range(n):
        rng = rng_of(PROPERTY, seed, i)
        out.append(dict(kind=KINDS[i % len(KINDS)], seed=int(rng.integers(1 << 31))))
    return out


def run(spec, rec):
    rng = rng_of("C27run", spec["seed"])
    globals()["k_" + spec["kind"]](rng, rec)
    rec.nontrivial()


def same_angle(a, b, tol=1e-9):
    d = np.asarray(a, dtype=float) - np.asarray(b, dtype=float)
    return np.abs(d - 360.0 * np.round(d / 360.0)) <= tol


# ---------------------------------------------------------------- wind directions


def k_wind(rng, rec):
    from foxes.utils import wd2uv, uv2wd, wd2wdvec, wdvec2wd, delta_wd

    special = np.array([0.0, 90.0, 180.0, 270.0, 360.0, 359.9999999, 1e-9, 45.0, -90.0, 720.0, 450.0])
    for _ in range(6):
        nd = int(rng.integers(1, 4))
        shape = tuple(int(q) for q in rng.integers(1, 5, nd))
        wd = rng.uniform(-400, 800, shape)
        m = rng.random(shape) < 0.3
        wd[m] = rng.choice(special, m.sum())
        ws = rng.uniform(0.01, 40, shape)
        keep = wd.copy(), ws.copy()
        ax = int(rng.integers(-nd - 1, nd + 1))
        mode = str(rng.choice(["none", "scalar", "array"]))
        w = dict(none=None, scalar=float(rng.uniform(0.1, 30)), array=ws)[mode]
        uv = wd2uv(wd, axis=ax) if w is None else wd2uv(wd, w, axis=ax)
        vec = wd2wdvec(wd, axis=ax) if w is None else wd2wdvec(wd, w, axis=ax)
        pos = ax % (nd + 1)
        ok = uv.shape == shape[:pos] + (2,) + shape[pos:]
        rec.check(ok, "wd-shape", lambda: f"shape {uv.shape} for wd {shape}, axis {ax}")
        if not ok:
            return
        q = np.moveaxis(uv, pos, -1).reshape(-1, 2)
        s = np.broadcast_to(1.0 if w is None else w, shape).reshape(-1)
        for i, a in enumerate(wd.reshape(-1)):
            # the wind comes from the wind direction: north wind (0) blows to -y, east wind (90) to -x
            u = -s[i] * np.sin(np.deg2rad(a)), -s[i] * np.cos(np.deg2rad(a))
            rec.check(np.allclose(q[i], u, rtol=1e-12, atol=1e-12 * s[i]), "wd2uv", lambda: f"wd {a}, ws {s[i]}: {q[i]}, expected {u}")
        rec.close(vec, -uv, "wdvec", rtol=1e-12, atol=1e-12)
        for f, v in ((uv2wd, uv), (wdvec2wd, vec)):
            b = f(v, axis=ax)
            ok = np.shape(b) == shape
            rec.check(ok, "uv2wd-shape", lambda: f"{f.__name__} axis {ax}: shape {np.shape(b)}, expected {shape}")
            if ok:
                rec.check(
                    bool(np.all(same_angle(b, wd, 1e-7))) and bool(np.all((b >= 0) & (b <= 360))), "uv2wd",
                    lambda: f"{f.__name__} of {wd.reshape(-1)} axis {ax}: {b.reshape(-1)}",
                )
            if ax == nd:
                c = f(v)
                rec.close(c, b, "uv2wd-default", rtol=0, atol=0)
        rec.check(np.array_equal(wd, keep[0]) and np.array_equal(ws, keep[1]), "wd-modified", "arguments were modified")
        rec.event("wd-array", int(wd.size))
        rec.event("wd-axis")
        if nd > 1:
            # wind speeds of fewer dimensions
            v = wd2uv(wd, ws.reshape(-1, shape[-1])[0])
            q = np.sqrt((v**2).sum(-1))
            rec.close(q, np.broadcast_to(ws.reshape(-1, shape[-1])[0], shape), "ws-broadcast", rtol=1e-12)

        wb = rng.uniform(-400, 800, shape)
        mb = rng.random(shape) < 0.3
        wb[mb] = wd[mb] + rng.choice([0.0, 180.0, -180.0, 360.0, 179.9999, -179.9999], mb.sum())
        k2 = wb.copy()
        d = delta_wd(wd, wb)
        rec.check(np.array_equal(wd, keep[0]) and np.array_equal(wb, k2), "delta-modified", "arguments were modified")
        rec.check(
            d.shape == shape and bool(np.all(np.abs(d) <= 180 + 1e-9)) and bool(np.all(same_angle(wd + d, wb, 1e-9))), "delta-wd",
            lambda: f"delta_wd({wd.reshape(-1)}, {wb.reshape(-1)}) = {np.asarray(d).reshape(-1)}",
        )
        rec.event("delta-wd", int(wd.size))
    for a in rng.choice(special, 4):
        u = wd2uv(float(a), 7.0)
        rec.close(u, [-7 * np.sin(np.deg2rad(a)), -7 * np.cos(np.deg2rad(a))], "wd-scalar", atol=1e-12)
        rec.check(bool(same_angle(uv2wd(u), a, 1e-7)), "wd-scalar", lambda: f"wd {a} -> {u} -> {uv2wd(u)}")
        rec.event("wd-scalar")


# ---------------------------------------------------------------- circles


def lens(r1, r2, d):
    """overlap area by integration over chords"""
    if d >= r1 + r2:
        return 0.0
    if d <= abs(r1 - r2):
        return np.pi * min(r1, r2) ** 2
    # circle 1 at 0, circle 2 at d: the chords cross at x
    x = (d * d + r1 * r1 - r2 * r2) / (2 * d)

    def cap(r, h):
        # area of the part of a circle of radius r beyond distance h from its centre
        h = min(max(h / r, -1.0), 1.0)
        return r * r * (np.arctan2(np.sqrt(max(1 - h * h, 0.0)), h) - h * np.sqrt(max(1 - h * h, 0.0)))

    return cap(r1, x) + cap(r2, d - x)


def k_circles(rng, rec):
    from foxes.utils.two_circles import calc_area

    for _ in range(3):
        nd = int(rng.integers(1, 4))
        shape = tuple(int(q) for q in rng.integers(1, 7, nd))
        s = float(rng.choice([1.0, 100.0, 1e4]))
        r1 = rng.uniform(0.05, 1, shape) * s
        r2 = rng.uniform(0.05, 1, shape) * s
        d = rng.uniform(0, 2.2, shape) * s
        m = rng.random(shape)
        d = np.where(m < 0.1, 0.0, np.where(m < 0.2, r1 + r2, np.where(m < 0.3, np.abs(r1 - r2), d)))
        m = rng.random(shape) < 0.15
        r2[m] = r1[m]
        keep = r1.copy(), r2.copy(), d.copy()
        a = calc_area(r1, r2, d)
        rec.check(all(np.array_equal(x, y) for x, y in zip(keep, (r1, r2, d))), "circles-modified", "arguments were modified")
        want = np.array([lens(x, y, z) for x, y, z in zip(r1.flat, r2.flat, d.flat)]).reshape(shape)
        # nearly touching circles lose half of the digits
        err = np.abs(a - want)
        bad = np.argwhere(~(err <= 1e-6 * np.minimum(r1, r2) ** 2))
        rec.check(
            not len(bad), "circles",
            lambda: f"r1 {r1[tuple(bad[0])]}, r2 {r2[tuple(bad[0])]}, d {d[tuple(bad[0])]}: {a[tuple(bad[0])]}, expected {want[tuple(bad[0])]}",
        )
        rec.close(calc_area(r2, r1, d), a, "circles-symmetry", rtol=1e-9, atol=1e-7 * s * s)
        rec.event("circles", int(d.size))
        rec.event("circles-inside", int((d < np.abs(r1 - r2)).sum()))
        rec.event("circles-apart", int((d > r1 + r2).sum()))
        rec.event("circles-touch", int(((d == r1 + r2) | (d == np.abs(r1 - r2))).sum()))

        # broadcasting and integer distances
        b = calc_area(np.full((1,), r1.flat[0]), np.full(shape, r2.flat[0]), d)
        want = np.array([lens(r1.flat[0], r2.flat[0], z) for z in d.flat]).reshape(shape)
        rec.close(b, want, "circles-broadcast", rtol=1e-6, atol=1e-6 * s * s)
        di = np.arange(0, 9)
        b = calc_area(np.full(9, 4.0), np.full(9, 2.5), di)
        rec.close(b, [lens(4.0, 2.5, float(z)) for z in di], "circles-int", rtol=1e-9, atol=1e-9)
        rec.event("circles-broadcast")


# ---------------------------------------------------------------- roots


def k_cubic(rng, rec):
    from foxes.utils import cubic_roots, sqrt_reg

    n = 60
    R = rng.uniform(-5, 5, (n, 3))
    kind = rng.integers(0, 5, n)
    a3 = rng.uniform(0.2, 5, n) * np.where(rng.random(n) < 0.5, -1, 1)
    use3 = bool(rng.random() < 0.6)
    if not use3:
        a3[:] = 1.0
    C = np.zeros((n, 4))
    for i in range(n):
        r = R[i]
        if kind[i] == 0:
            r[:] = np.round(r)
        if kind[i] == 1:
            r[1] = r[0]
        if kind[i] == 2:
            r[:] = np.round(r[0])
        if kind[i] in (0, 1, 2, 3):
            p = np.poly(r)
        else:
            # one real root, a pair of complex ones
            p = np.polymul([1, -r[0]], [1, -2 * r[1], r[1] ** 2 + r[2] ** 2 + 0.05])
        C[i] = p[::-1] * a3[i]
    if rng.random() < 0.3:
        # without quadratic and linear terms
        C[:5, 1:3] = 0
        kind[:5] = 4
    keep = C.copy()
    x = cubic_roots(C[:, 0], C[:, 1], C[:, 2], C[:, 3] if use3 else None)
    rec.check(np.array_equal(C, keep), "cubic-modified", "arguments were modified")
    rec.check(x.shape == (n, 3), "cubic-shape", f"{x.shape}")
    for i in range(n):
        f = lambda z: ((C[i, 3] * z + C[i, 2]) * z + C[i, 1]) * z + C[i, 0]
        S = lambda z: abs(C[i, 3] * z**3) + abs(C[i, 2] * z**2) + abs(C[i, 1] * z) + abs(C[i, 0])
        y = x[i][~np.isnan(x[i])]
        bad = [z for z in y if not abs(f(z)) <= 1e-8 * (S(z) + 1e-3)]
        rec.check(not bad, "cubic-residual", lambda: f"coefficients {C[i]}: f({bad}) = {[f(z) for z in bad]}, roots {x[i]}")
        rec.check(len(y) >= 1 and not np.isnan(x[i, 0]), "cubic-missing", lambda: f"coefficients {C[i]}: no root in {x[i]}")
        if not len(y):
            continue
        if kind[i] == 4:
            z = np.roots(C[i][::-1])
            z = z[np.argmin(np.abs(z.imag))].real
            rec.check(
                len(y) == 1 and abs(y[0] - z) <= 1e-6 * (1 + abs(z)), "cubic-one", lambda: f"coefficients {C[i]}: roots {x[i]}, expected {z}"
            )
            rec.event("cubic-one")
        elif kind[i] == 3:
            z = np.sort(R[i])
            if np.min(np.diff(z)) > 1e-2:
                rec.check(
                    len(y) == 3 and np.allclose(np.sort(y), z, rtol=0, atol=1e-6), "cubic-three",
                    lambda: f"coefficients {C[i]}: roots {x[i]}, expected {z}",
                )
                rec.event("cubic-three")
        else:
            # at least one of the true roots close to each given one
            bad = [z for z in y if np.min(np.abs(R[i] - z)) > 1e-3]
            rec.check(not bad, "cubic-multiple", lambda: f"coefficients {C[i]}: roots {x[i]}, expected {R[i]}")
            rec.event("cubic-multiple")

    x0 = float(rng.choice([0.01, 0.1, 0.003]))
    q = np.sort(np.concatenate([rng.uniform(-5 * x0, 8 * x0, 50), [x0, 0.0, -x0], rng.uniform(0, 30, 20)]))
    s = sqrt_reg(q, x0=x0)
    big = q >= x0
    rec.close(s[big], np.sqrt(q[big]), "sqrt", rtol=1e-12)
    rec.check(bool(np.all(s > 0)) and bool(np.all(np.diff(s) >= -1e-12)), "sqrt-monotonous", lambda: f"x0={x0}: {s}")
    e = 1e-7 * x0
    b = sqrt_reg(np.array([x0 - e, x0 + e]), x0=x0)
    rec.check(abs(b[1] - b[0]) < 1e-4 * np.sqrt(x0), "sqrt-continuous", lambda: f"x0={x0}: {b}")
    rec.event("sqrt")


# ---------------------------------------------------------------- boundary layer


def k_abl(rng, rec):
    from foxes.utils import abl

    z0 = rng.uniform(1e-4, 1.0, 20)
    h0 = rng.uniform(50, 160, 20)
    ws = rng.uniform(1, 25, 20)
    h = rng.uniform(2, 300, 20)
    kap = float(rng.choice([0.41, 0.4]))
    # surface layer similarity: ws = u*/kappa (ln(h/z0) - psi)
    us = abl.neutral.ustar(ws, h0, z0, kappa=kap)
    rec.close(abl.neutral.calc_ws(h0, z0, us, kappa=kap), ws, "abl-ref", rtol=1e-12)
    rec.close(abl.neutral.calc_ws(h, z0, us, kappa=kap), ws * np.log(h / z0) / np.log(h0 / z0), "abl-neutral", rtol=1e-12)
    rec.close(abl.neutral.calc_ws(z0 * 0.3, z0, us, kappa=kap), np.zeros(20), "abl-ground", atol=1e-12)
    rec.event("abl-neutral", 20)

    mol = rng.uniform(20, 800, 20)
    us = abl.stable.ustar(ws, h0, z0, mol, kappa=kap)
    rec.close(abl.stable.calc_ws(h0, z0, us, abl.stable.psi(h0, mol), kappa=kap), ws, "abl-ref", rtol=1e-12)
    p = lambda x: -5.0 * np.minimum(x, mol) / mol
    rec.close(
        abl.stable.calc_ws(h, z0, us, abl.stable.psi(h, mol), kappa=kap),
        ws * (np.log(h / z0) - p(h)) / (np.log(h0 / z0) - p(h0)), "abl-stable", rtol=1e-12,
    )
    rec.event("abl-stable", 20)

    mol = -rng.uniform(20, 800, 20)
    us = abl.unstable.ustar(ws, h0, z0, mol, kappa=kap)
    rec.close(abl.unstable.calc_ws(h0, z0, us, abl.unstable.psi(h0, mol), kappa=kap), ws, "abl-ref", rtol=1e-12)

    def p(x):
        q = (1 - 16 * x / mol) ** 0.25
        return np.log(((1 + q) / 2) ** 2 * (1 + q * q) / 2) - 2 * np.arctan(q) + np.pi / 2

    rec.close(
        abl.unstable.calc_ws(h, z0, us, abl.unstable.psi(h, mol), kappa=kap),
        ws * (np.log(h / z0) - p(h)) / (np.log(h0 / z0) - p(h0)), "abl-unstable", rtol=1e-10,
    )
    rec.event("abl-unstable", 20)
    sh = rng.uniform(-0.1, 0.5, 20)
    rec.close(abl.sheared.calc_ws(h, h0, ws, sh), ws * np.exp(sh * np.log(h / h0)), "abl-sheared", rtol=1e-12)
    for m in (abl.stable, abl.unstable):
        big = 1e9 if m is abl.stable else -1e9
        us = m.ustar(ws, h0, z0, big, kappa=kap)
        rec.close(us, abl.neutral.ustar(ws, h0, z0, kappa=kap), "abl-limit", rtol=1e-4)


# ---------------------------------------------------------------- random layouts


def k_xy(rng, rec):
    import foxes
    from foxes.utils import random_xy_square

    n = int(rng.integers(1, 60))
    dist = float(rng.choice([1.0, 300.0, 1000.0]))
    seed = int(rng.integers(0, 1000))
    ini = None if rng.random() < 0.6 else (int(dist) + 1 if rng.random() < 0.5 else float(3 * dist))
    kw = dict(min_dist=dist, xmax_ini=ini, growth=float(rng.choice([1.02, 1.3])), verbosity=0)
    a = random_xy_square(n, seed=seed, **kw)
    b = random_xy_square(n, seed=seed, **kw)
    rec.check(a.shape == (n, 2) and np.isfinite(a).all(), "xy-shape", lambda: f"{a.shape}")
    d = np.hypot(*(a[:, None] - a[None]).transpose(2, 0, 1)) + np.diag(np.full(n, np.inf))
    rec.check(d.min() >= dist * (1 - 1e-9), "xy-dist", lambda: f"distance {d.min()} of {n} points, minimum {dist}")
    rec.close(a.mean(axis=0), [0, 0], "xy-mean", atol=1e-6 * dist)
    rec.check(np.array_equal(a, b), "xy-seed", "two calls with the same seed differ")
    farm = foxes.WindFarm()
    foxes.input.farm_layout.add_random(farm, n, dist, turbine_models=["m"], seed=seed, verbosity=0)
    x = farm.xy_array
    d = np.hypot(*(x[:, None] - x[None]).transpose(2, 0, 1)) + np.diag(np.full(n, np.inf))
    rec.check(len(x) == n and d.min() >= dist * (1 - 1e-9), "xy-farm", lambda: f"farm of {len(x)} turbines, distance {d.min()}")
    rec.event("random-xy", n)


# ---------------------------------------------------------------- dictionaries, classes


def rand_dict(rng, depth=0):
    out = {}
    for j in range(int(rng.integers(1, 5))):
        k = f"key{j}" if rng.random() < 0.85 else (j if rng.random() < 0.5 else f"k {j}-%")
        q = rng.random()
        if q < 0.35 and depth < 3:
            out[k] = rand_dict(rng, depth + 1)
        elif q < 0.6:
            out[k] = [1, "a", None, float(j)]
        elif q < 0.8:
            out[k] = float(np.round(rng.uniform(), 3))
        else:
            out[k] = None if rng.random() < 0.3 else "text"
    return out


def plain(d):
    return {k: plain(v) for k, v in d.items()} if isinstance(d, dict) else d


def all_dicts(d, Dict):
    return isinstance(d, Dict) and all(all_dicts(v, Dict) for v in d.values() if isinstance(v, dict))


def k_dict(rng, rec):
    import yaml
    from foxes.utils import Dict, all_subclasses, new_cls, new_instance

    raw = rand_dict(rng)
    keep = plain(raw)
    d = Dict(raw, name="top")
    rec.check(plain(d) == raw == keep, "dict", lambda: f"Dict({keep}) = {plain(d)}")
    rec.check(all_dicts(d, Dict), "dict-nested", "nested entries are not of type Dict")
    rec.event("dict")
    if any(isinstance(v, dict) for v in raw.values()):
        rec.event("dict-nested")
    e = Dict(raw, dict(key0=1.5, zz=dict(a=2)), name="top", yy=3)
    rec.check(plain(e) == {**raw, **dict(key0=1.5, zz=dict(a=2)), "yy": 3}, "dict-args", lambda: f"{plain(e)}")
    rec.check(all_dicts(e, Dict), "dict-nested", "nested entries are not of type Dict")
    for k in raw:
        rec.check(plain(d.get_item(k)) == raw[k] and plain(d[k]) == raw[k], "dict-get", f"{k}")
        rec.check(plain(d.get_item(k, "deflt")) == raw[k], "dict-get", f"{k}")
    rec.check(d.get_item("missing", 5) == 5 and isinstance(d.get_item("missing", dict(a=1)), Dict), "dict-default", "default value")
    for f in (lambda: d["missing"], lambda: d.get_item("missing", prnt=False), lambda: d.pop_item("missing", prnt=False)):
        try:
            f()
            rec.violate("dict-missing", "no KeyError for a missing key")
        except KeyError as err:
            rec.check("missing" in str(err), "dict-missing", f"{err}")
    rec.check("missing" not in d and plain(d) == raw, "dict-unchanged", "reading changes the dictionary")
    k = list(raw)[0]
    v = d.pop_item(k)
    rec.check(plain(v) == raw[k] and k not in d and len(d) == len(raw) - 1, "dict-pop", f"{k}")
    rec.check(d.pop_item("missing", 3) == 3 and raw == keep, "dict-pop", "default, or the source was changed")

    with open("a_b.yaml", "w") as f:
        yaml.safe_dump(raw, f)
    y = Dict.from_yaml("a_b.yaml", verbosity=0)
    rec.check(plain(y) == raw and all_dicts(y, Dict) and y.name == "a_b", "yaml", lambda: f"{plain(y)}, expected {raw}")
    open("e.yaml", "w").close()
    rec.check(plain(Dict.from_yaml("e.yaml", verbosity=0)) == {}, "yaml-empty", "empty file")
    rec.event("yaml")

    class A:
        def __init__(self, x=0, y=1):
            self.v = x, y

    tag = f"{int(rng.integers(1 << 30))}"
    L = [type(f"B{tag}", (A,), {})]
    for j in range(5):
        L.append(type(f"C{j}{tag}", (L[int(rng.integers(len(L)))],), {}))
    L.append(type(f"D{tag}", (L[1], type(f"E{tag}", (A,), {})), {}))
    want = {c.__name__ for c in L} | {f"E{tag}"}
    rec.check({c.__name__ for c in all_subclasses(A)} == want, "subclasses", "set of subclasses")
    c = L[int(rng.integers(len(L)))]
    rec.check(new_cls(A, c.__name__) is c and new_cls(A, None) is None and new_instance(A, None) is None, "new-cls", "class by name")
    o = new_instance(A, c.__name__, 4, y=7)
    rec.check(type(o) is c and o.v == (4, 7), "new-instance", "instance by name")
    try:
        new_cls(A, "Nothing")
        rec.violate("new-cls-missing", "no KeyError for an unknown class")
    except KeyError as err:
        rec.check("Nothing" in str(err) and c.__name__ in str(err), "new-cls-missing", f"{err}")
    rec.event("subclasses")


# ---------------------------------------------------------------- data book


def k_book(rng, rec):
    from pathlib import Path
    from foxes.utils.data_book import DataBook
    import foxes.data
    import foxes.constants as FC

    os.makedirs("sub/deep", exist_ok=True)
    names = []
    for j in range(4):
        p = Path(str(rng.choice(["sub", "sub/deep"]))) / f"f{j}.{rng.choice(['csv', 'csv.gz', 'nc'])}"
        p.write_text(f"{j}")
        names.append(p)
    book = DataBook()
    book.add_files("ctx", names[:3])
    book.add_file("other", str(names[3]))
    rec.check(book.toc("ctx") == sorted(p.name for p in names[:3]), "book-toc", lambda: f"{book.toc('ctx')}")
    for c, L in (("ctx", names[:3]), ("other", names[3:])):
        for p in L:
            f = book.get_file_path(c, p.name)
            rec.check(Path(f).read_text() == p.read_text() and Path(f).name == p.name, "book-path", f"{f}")
            rec.check(Path(book.get_file_path(c, p, check_raw=True)) == p, "book-raw", "path of an existing file")
    rec.check(book.get_file_path("ctx", names[3].name, errors=False) is None, "book-context", "file of other context")
    rec.check(book.get_file_path("none", names[3].name, errors=False) is None, "book-context", "unknown context")
    for a in (("ctx", names[3].name), ("none", "f0.csv")):
        try:
            book.get_file_path(*a)
            rec.violate("book-missing", f"no KeyError for {a}")
        except KeyError as err:
            rec.check(a[0] in str(err) or a[1] in str(err), "book-missing", f"{err}")
    try:
        book.add_file("ctx", "sub/no_such_file.csv")
        rec.violate("book-nofile", "no error for a missing file")
    except FileNotFoundError:
        pass
    rec.check(book.toc("ctx") == sorted(p.name for p in names[:3]), "book-toc", "failed addition changes the book")
    b2 = DataBook(book.dbase)
    b2.add_file("ctx", names[3])
    rec.check(names[3].name not in book.toc("ctx") and names[3].name in b2.toc("ctx"), "book-copy", "book made from another one shares entries")

    for name, ctx, pkg, sfx in [("states", "states", "foxes.data.states", (".csv", ".csv.gz", ".nc", ".tab", ".grd"))]:
        b = DataBook()
        k = sfx[int(rng.integers(len(sfx)))]
        b.add_data_package(ctx, pkg, k)
        folder = Path(foxes.data.__file__).parent / name
        want = sorted(p.name for p in folder.iterdir() if p.is_file() and p.name.endswith(k) and len(p.name) > len(k))
        rec.check(b.toc(ctx) == want, "book-package", lambda: f"suffix {k}: {b.toc(ctx)}, expected {want}")
        for w in want[:3]:
            rec.check(Path(b.get_file_path(ctx, w, check_raw=False)).samefile(folder / w), "book-package", w)
        b.add_data_package(ctx, pkg, list(sfx))
        want = sorted(p.name for p in folder.iterdir() if p.is_file() and p.name.endswith(sfx))
        rec.check(b.toc(ctx) == want, "book-package", lambda: f"suffixes {sfx}: {b.toc(ctx)}, expected {want}")
    rec.event("databook")


# ---------------------------------------------------------------- python strings


def k_exec(rng, rec):
    from foxes.utils import exec_python

    for _ in range(10):
        a, b = int(rng.integers(1, 50)), int(rng.integers(2, 9))
        ind, nl = ("%", ";") if rng.random() < 0.5 else (str(rng.choice(["$", "@@", "%%"])), str(rng.choice(["|", ";", "\n"])))
        v = f"v{int(rng.integers(1000))}"
        s = f"{ind}{v}{ind}N={a}{nl}{v}=np.arange(N)*{b}"
        kw = {} if (ind, nl) == ("%", ";") else dict(indicator=ind, newline=nl)
        x = exec_python(s, **kw)
        rec.check(np.array_equal(x, np.arange(a) * b), "exec", lambda: f"{s!r}: {x}")
        src = dict(a=s, l=[1, s, ("t", s)], d=dict(e=s, n=None, f=2.5), t="text", u=f"x{ind}y")
        y = exec_python(src, **kw)
        want = np.arange(a) * b
        ok = (
            np.array_equal(y["a"], want) and y["l"][0] == 1 and np.array_equal(y["l"][1], want) and isinstance(y["l"][2], tuple)
            and np.array_equal(y["l"][2][1], want) and np.array_equal(y["d"]["e"], want) and y["d"]["n"] is None
            and y["d"]["f"] == 2.5 and y["t"] == "text" and y["u"] == f"x{ind}y"
        )
        rec.check(ok, "exec-nested", lambda: f"{src}: {y}")
        rec.check(src["a"] == s and src["l"][1] == s, "exec-modified", "source was modified")
        loc = dict(M=a)
        z = exec_python([f"{ind}w{ind}w=M+{b}"], locals=loc, **kw)
        rec.check(z == [a + b], "exec-locals", lambda: f"{z}, expected {a + b}")
        rec.event("exec")
    try:
        exec_python("%a%b%c")
        rec.violate("exec-three", "no error for three indicators")
    except ValueError:
        pass


# ---------------------------------------------------------------- netCDF


def k_nc(rng, rec):
    import xarray as xr
    import foxes.variables as FV
    from foxes.utils import write_nc

    n, m = int(rng.integers(1, 9)), int(rng.integers(1, 5))
    digits = {FV.WS: 4, "own": 2}
    ds = xr.Dataset(
        coords={"state": np.arange(n) + 3, "x": rng.uniform(0, 100, m)},
        data_vars={
            FV.WS: (("state", "x"), rng.uniform(0, 20, (n, m))),
            FV.WD: (("state", "x"), rng.uniform(0, 360, (n, m))),
            "own": (("state",), rng.uniform(-5, 5, n)),
            "name": (("x",), np.array([f"t{j}" for j in range(m)])),
        },
    )
    ds["own"][0] = np.nan
    keep = ds.copy(deep=True)
    k = int(rng.integers(0, 3))
    rnd = [None, {}, {FV.WS: 1, "own": 2}][k]
    cl = [0, None, 1, 9][int(rng.integers(4))]
    write_nc(ds, "f.nc", round=rnd, complevel=cl, verbosity=0)
    rec.check(ds.identical(keep), "nc-modified", "the data set was modified")
    with xr.open_dataset("f.nc") as f:
        f = f.load()
    rec.check(set(f.variables) == set(ds.variables) and dict(f.sizes) == dict(ds.sizes), "nc-vars", lambda: f"{f}")
    for v in ds.variables:
        if v == "name":
            rec.check(list(f[v].values) == list(ds[v].values), "nc-text", f"{v}")
            continue
        d = None if rnd is None else rnd.get(v, FV.get_default_digits(v))
        tol = 1e-12 if d is None else 0.5 * 10.0 ** (-d) * (1 + 1e-6)
        rec.close(f[v].values, ds[v].values, f"nc-{v}", rtol=1e-12, atol=tol)
        if d is not None:
            rec.close(f[v].values, np.round(ds[v].values, d), f"nc-{v}-round", rtol=1e-9, atol=1e-9)
    rec.event("nc")
