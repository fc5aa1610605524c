"""C23: two-dimensional geometry: areas and their compositions"""

import numpy as np

from harness.core import rng_of

PROPERTY = "C23"
RULE = (
    "random trees of circles, polygons and half planes under union, intersection, difference and inversion, built with "
    "the classes and with the operators; membership, distances, nearest points, bounding points and filled figure data "
    "at random points compared with an own evaluation of the same tree and with densely sampled boundaries; "
    "non-trivial when points inside and outside of the area were compared"
)
ASSUMES = ["polygons do not intersect themselves", "points closer to a boundary than 1e-7 of the extent are not judged for membership"]
REQUIRED_EVENTS = [
    "inside", "outside", "dist-primitive", "dist-tree", "nearest", "bounds", "figure", "circle", "polygon", "halfplane",
    "union", "intersection", "minus", "inverse", "minus-list", "centre-point", "int-points", "empty", "fill-inside", "fill-dist",
]


def poly_points(rng, r0=1.0):
    """a simple polygon, star shaped around a point, mostly not convex"""
    n = int(rng.integers(3, 9))
    phi = np.sort((np.arange(n) + rng.uniform(-0.35, 0.35, n)) * 2 * np.pi / n)
    r = rng.uniform(0.35, 1.0, n) if rng.random() < 0.7 else np.ones(n)
    p = np.stack([r * np.cos(phi), r * np.sin(phi)], axis=-1) * r0
    if rng.random() < 0.5:
        p = p[::-1]
    return p


def primitive(rng, L):
    k = str(rng.choice(["circle", "circle", "polygon", "polygon", "halfplane"]))
    c = np.round(rng.uniform(-0.6, 0.6, 2) * L, 3)
    if k == "circle":
        return dict(k=k, c=c.tolist(), r=float(np.round(rng.uniform(0.1, 0.7) * L, 3)))
    if k == "polygon":
        if rng.random() < 0.25:
            a, b = sorted(rng.choice(np.arange(-8, 9), 2, replace=False).tolist())
            e, f = sorted(rng.choice(np.arange(-8, 9), 2, replace=False).tolist())
            s = max(int(L / 10), 1)
            p = [[a * s, e * s], [b * s, e * s], [b * s, f * s], [a * s, f * s]]
            return dict(k=k, p=p, closed=bool(rng.random() < 0.4), ints=True)
        p = np.round(c + poly_points(rng, rng.uniform(0.2, 0.8) * L), 4)
        return dict(k=k, p=p.tolist(), closed=bool(rng.random() < 0.4), ints=False)
    if rng.random() < 0.3:
        n = [[1, 0], [0, 1], [-1, 0], [0, -1]][int(rng.integers(4))]
    else:
        a = rng.uniform(0, 2 * np.pi)
        n = (rng.uniform(0.1, 5) * np.array([np.cos(a), np.sin(a)])).tolist()
    return dict(k=k, c=c.tolist(), n=n)


def tree(rng, depth, L):
    if depth == 0 or rng.random() < 0.15:
        return primitive(rng, L)
    op = str(rng.choice(["union", "intersection", "minus", "inverse", "minus-list", "plus-list"]))
    n = 1 if op == "inverse" else 2 if op == "minus" else int(rng.integers(2, 4))
    if op in ("union", "intersection") and rng.random() < 0.1:
        n = 1
    return dict(k=op, parts=[tree(rng, depth - 1, L) for _ in range(n)], sym=bool(rng.random() < 0.6))


def cases(tier, seed):
    n = 400 if tier == "quick" else 8000
    out = []
    for i in range(n):
        rng = rng_of(PROPERTY, seed, i)
        L = float(rng.choice([1.0, 10.0, 1000.0, 50000.0]))
        out.append(dict(kind="tree", seed=int(rng.integers(1 << 31)), L=L, depth=int(i % 4), fig=bool(i % 5 == 0)))
    return out


# ---------------------------------------------------------------- reference


def p_inside(t, q):
    """membership, and a flag for points that are too close to the boundary"""
    if t["k"] == "circle":
        m = np.hypot(*(q - np.array(t["c"])).T)
        return m <= t["r"]
    if t["k"] == "halfplane":
        n = np.array(t["n"], dtype=float)
        return (q - np.array(t["c"])) @ n >= 0
    P = np.array(t["p"], dtype=float)
    ins = np.zeros(len(q), dtype=bool)
    for a, b in zip(P, np.roll(P, -1, axis=0)):
        c = (a[1] > q[:, 1]) != (b[1] > q[:, 1])
        with np.errstate(all="ignore"):
            x = a[0] + (q[:, 1] - a[1]) / (b[1] - a[1]) * (b[0] - a[0])
        ins ^= c & (q[:, 0] < x)
    return ins


def p_dist(t, q):
    if t["k"] == "circle":
        return np.abs(np.hypot(*(q - np.array(t["c"])).T) - t["r"])
    if t["k"] == "halfplane":
        n = np.array(t["n"], dtype=float)
        return np.abs((q - np.array(t["c"])) @ n) / np.hypot(*n)
    P = np.array(t["p"], dtype=float)
    d = np.full(len(q), np.inf)
    for a, b in zip(P, np.roll(P, -1, axis=0)):
        l2 = np.sum((b - a) ** 2)
        x = np.clip((q - a) @ (b - a) / l2, 0, 1) if l2 > 0 else np.zeros(len(q))
        d = np.minimum(d, np.hypot(*(q - (a + x[:, None] * (b - a))).T))
    return d


def leaves(t):
    return [t] if "parts" not in t else [l for p in t["parts"] for l in leaves(p)]


def evaluate(t, q):
    """inside, distance bound, exactness of the bound"""
    k = t["k"]
    if "parts" not in t:
        return p_inside(t, q), p_dist(t, q), np.ones(len(q), dtype=bool)
    if k == "inverse":
        i, d, e = evaluate(t["parts"][0], q)
        return ~i, d, e
    R = [evaluate(p, q) for p in t["parts"]]
    if k in ("minus", "minus-list"):
        R = [R[0]] + [(~i, d, e) for i, d, e in R[1:]]
    if k in ("intersection", "minus", "minus-list"):
        R = [(~i, d, e) for i, d, e in R]
    I = np.stack([r[0] for r in R])
    D = np.stack([r[1] for r in R])
    E = np.stack([r[2] for r in R])
    ins = I.any(axis=0)
    # outside of all parts the closest one counts; inside, the ball of any part that contains the point fits in
    d = np.where(ins, np.where(I, D, -np.inf).max(axis=0), D.min(axis=0))
    e = np.where(ins, I.sum(axis=0) * 0 + (len(R) == 1), 1).astype(bool) & E.all(axis=0)
    # a point in one part, far from all others, is as far from the boundary as from that part's
    only = (I.sum(axis=0) == 1) & (np.where(I, np.inf, D).min(axis=0) > d)
    e |= ins & only & E.all(axis=0)
    if k in ("intersection", "minus", "minus-list"):
        ins = ~ins
    return ins, d, e


def boundary_samples(t, L, n=1500):
    """points on the boundary of the primitives, with the normal, that separate inside from outside of the tree"""
    out = []
    for l in leaves(t):
        if l["k"] == "circle":
            a = np.linspace(0, 2 * np.pi, n, endpoint=False)
            m = np.stack([np.cos(a), np.sin(a)], axis=-1)
            p = np.array(l["c"]) + l["r"] * m
        elif l["k"] == "halfplane":
            u = np.array(l["n"], dtype=float)
            u /= np.hypot(*u)
            s = np.linspace(-6 * L, 6 * L, 4 * n)
            p = np.array(l["c"]) + s[:, None] * np.array([-u[1], u[0]])
            m = np.tile(u, (len(s), 1))
        else:
            P = np.array(l["p"], dtype=float)
            pp, mm = [], []
            for a, b in zip(P, np.roll(P, -1, axis=0)):
                k = max(n // len(P), 2)
                s = (np.arange(k) + 0.5) / k
                d = b - a
                if not np.any(d):
                    continue
                pp.append(a + s[:, None] * d)
                mm.append(np.tile(np.array([-d[1], d[0]]) / np.hypot(*d), (k, 1)))
            p, m = np.concatenate(pp), np.concatenate(mm)
        eps = 1e-6 * L
        sel = evaluate(t, p + eps * m)[0] != evaluate(t, p - eps * m)[0]
        out.append(p[sel])
    return np.concatenate(out)


# ---------------------------------------------------------------- real code


def build(t, rec):
    from foxes.utils import geom2d as g

    k = t["k"]
    rec.event(k)
    if k == "circle":
        return g.Circle(np.array(t["c"]), t["r"])
    if k == "halfplane":
        return g.HalfPlane(np.array(t["c"]), np.array(t["n"]))
    if k == "polygon":
        p = np.array(t["p"], dtype=int if t["ints"] else float)
        if t["ints"]:
            rec.event("int-polygon")
        return g.ClosedPolygon(np.append(p, p[:1], axis=0) if t["closed"] else p)
    P = [build(p, rec) for p in t["parts"]]
    if k == "inverse":
        return P[0].inverse()
    if k == "union":
        if not t["sym"]:
            return g.AreaUnion(P)
        o = P[0]
        for p in P[1:]:
            o = o + p
        return o
    if k == "plus-list":
        rec.event("union")
        return P[0] + P[1:]
    if k == "intersection":
        return g.AreaIntersection(P)
    if k == "minus":
        return P[0] - P[1]
    return P[0] - P[1:]


def run(spec, rec):
    rng = rng_of("C23run", spec["seed"])
    L = spec["L"]
    t = tree(rng, spec["depth"], L)
    g = build(t, rec)
    rec.sample = dict(tree=str(t)[:200])

    q = rng.uniform(-1.6, 1.6, (300, 2)) * L
    ls = leaves(t)
    cs = [l for l in ls if l["k"] == "circle"]
    if cs:
        q[0] = cs[0]["c"]
        rec.event("centre-point")
    ps = [l for l in ls if l["k"] == "polygon"]
    if ps:
        q[1] = ps[0]["p"][0]
    q0 = q.copy()
    exact = 1e-7 * L

    ins = np.asarray(g.points_inside(q))
    dist, near = g.points_distance(q, return_nearest=True)
    d2 = np.asarray(g.points_distance(q))
    rec.check(ins.shape == (len(q),) and d2.shape == (len(q),) and near.shape == q.shape, "shapes", "shapes of results")
    rec.check(np.array_equal(q, q0), "modified", "points were modified")
    rec.check(
        np.array_equal(dist, d2), "nearest-dist",
        lambda: f"distances depend on return_nearest: {np.nanmax(np.abs(dist - d2))}",
    )

    rins, rd, re = evaluate(t, q)
    far = np.min([p_dist(l, q) for l in ls], axis=0) > exact
    bad = np.where(far & (ins != rins))[0]
    rec.check(not len(bad), "inside", lambda: f"{len(bad)} points, e.g. {q[bad[0]]}: inside {ins[bad[0]]}, expected {rins[bad[0]]} for {t}")
    rec.event("inside", int((far & rins).sum()))
    rec.event("outside", int((far & ~rins).sum()))
    if (far & rins).any() and (far & ~rins).any():
        rec.nontrivial()

    # membership and distances of single points do not depend on the others
    k = rng.choice(len(q), 7, replace=False)
    rec.check(np.array_equal(np.asarray(g.points_inside(q[k])), ins[k]), "subset-inside", "membership depends on other points")
    sub = g.points_distance(q[k])
    rec.check(np.allclose(sub, dist[k], rtol=1e-12, atol=1e-9 * L), "subset-dist", "distance depends on other points")
    e = g.points_distance(np.zeros((0, 2)))
    rec.check(len(e) == 0 and len(g.points_inside(np.zeros((0, 2)))) == 0, "empty", "no points")
    rec.event("empty")

    # distances
    tol = 1e-9 * L + 1e-9 * np.abs(rd)
    prim = "parts" not in t
    err = np.abs(dist - rd)
    # the root of squares loses digits close to edges
    tole = tol + np.where(rd < 1e-3 * L, 1e-6 * L, 0)
    sel = re if not prim else np.ones(len(q), dtype=bool)
    bad = np.where(sel & ~(err <= tole))[0]
    rec.check(not len(bad), "distance", lambda: f"{len(bad)} points, e.g. {q[bad[0]]}: distance {dist[bad[0]]}, expected {rd[bad[0]]} for {t}")
    rec.event("dist-primitive" if prim else "dist-tree", int(sel.sum()))
    bad = np.where(~(dist >= rd - tole))[0]
    rec.check(not len(bad), "distance-low", lambda: f"{len(bad)} points, e.g. {q[bad[0]]}: distance {dist[bad[0]]} less than {rd[bad[0]]} for {t}")

    b = boundary_samples(t, L)
    if len(b):
        D = np.sqrt(((q[:, None] - b[None]) ** 2).sum(-1)).min(axis=1)
        bad = np.where(dist > D + 1e-6 * L)[0]
        rec.check(
            not len(bad), "distance-high",
            lambda: f"{len(bad)} points, e.g. {q[bad[0]]}: distance {dist[bad[0]]}, but the boundary is at {D[bad[0]]} for {t}",
        )
        rec.event("boundary-points", len(b))

    # nearest points
    dn = np.hypot(*(q - near).T)
    bad = np.where(~(np.abs(dn - dist) <= tole + 1e-6 * L))[0]
    rec.check(not len(bad), "nearest", lambda: f"{len(bad)} points, e.g. {q[bad[0]]}: nearest {near[bad[0]]} at {dn[bad[0]]}, distance {dist[bad[0]]} for {t}")
    on = np.min([p_dist(l, near) for l in ls], axis=0)
    bad = np.where(~(on <= 1e-6 * L))[0]
    rec.check(not len(bad), "nearest-on", lambda: f"{len(bad)} points, e.g. nearest {near[bad[0]]} of {q[bad[0]]} is {on[bad[0]]} off any boundary for {t}")
    rec.event("nearest", len(q))

    # integer probe points
    qi = np.round(q / L * 10).astype(int)
    a = g.points_distance(qi, return_nearest=True)
    c = g.points_distance(qi.astype(float), return_nearest=True)
    rec.check(
        np.allclose(a[0], c[0], rtol=0, atol=1e-9 * L) and np.allclose(a[1], c[1], rtol=0, atol=1e-9 * L) and
        np.array_equal(g.points_inside(qi), g.points_inside(qi.astype(float))),
        "int-points", lambda: f"integer points: {np.abs(a[0]-c[0]).max()}, {np.abs(a[1]-c[1]).max()} for {t}",
    )
    rec.event("int-points")

    # bounding points: no inside point outside of them
    p0, p1 = np.asarray(g.p_min(), dtype=float), np.asarray(g.p_max(), dtype=float)
    qq = np.concatenate([q, b]) if len(b) else q
    ii = np.concatenate([rins & far, np.ones(len(b), dtype=bool)]) if len(b) else rins & far
    lo = (qq[ii] < p0 - 1e-6 * L).any() or (qq[ii] > p1 + 1e-6 * L).any()
    rec.check(not lo, "bounds", lambda: f"points of the area exceed p_min {p0}, p_max {p1} for {t}")
    big = rng.uniform(-1, 1, (50, 2)) * 1e6 * L
    ib = evaluate(t, big)[0]
    lo = (big[ib] < p0 - 1e-6 * L).any() or (big[ib] > p1 + 1e-6 * L).any()
    rec.check(not lo, "bounds", lambda: f"far points of the area exceed p_min {p0}, p_max {p1} for {t}")
    if prim and len(b) and t["k"] != "halfplane":
        pts = np.array(t["p"], dtype=float) if t["k"] == "polygon" else np.array([np.array(t["c"]) - t["r"], np.array(t["c"]) + t["r"]])
        rec.close(p0, pts.min(axis=0), "bounds-exact", rtol=1e-12, atol=1e-9 * L)
        rec.close(p1, pts.max(axis=0), "bounds-exact", rtol=1e-12, atol=1e-9 * L)
    rec.event("bounds", int(ii.sum()))

    # the inverse
    inv = g.inverse()
    rec.check(np.array_equal(inv.points_inside(q)[far], ~ins[far]), "inverse", lambda: f"inverse of {t}")
    rec.check(np.allclose(inv.points_distance(q), dist, rtol=1e-12, atol=1e-9 * L), "inverse-dist", lambda: f"distance of inverse of {t}")

    if spec["fig"]:
        figure(g, t, L, rng, rec)


def figure(g, t, L, rng, rec):
    import matplotlib

    matplotlib.use("Agg")
    import matplotlib.pyplot as plt

    mode = str(rng.choice(["inside_red", "outside_blue", "dist", "dist_inside", "dist_outside"]))
    ints = rng.random() < 0.3
    box = rng.random() < 0.6
    pars = dict(N=23) if rng.random() < 0.5 else dict(Nx=19, Ny=26)
    if box:
        pars["p_min"] = np.array([-2, -1]) if ints else np.array([-1.3 * L, -1.1 * L])
        pars["p_max"] = np.array([2, 3]) if ints else np.array([1.2 * L, 1.4 * L])
    keep = {k: np.copy(v) for k, v in pars.items()}
    fig, ax = plt.subplots()
    ax.set_xlim(-1.5 * L, 1.5 * L)
    ax.set_ylim(-1.5 * L, 1.5 * L)
    try:
        g.add_to_figure(ax, fill_mode=mode, pars_distance=pars, show_boundary=bool(rng.random() < 0.5))
        rec.check(
            set(pars) == set(keep) and all(np.array_equal(pars[k], keep[k]) for k in keep),
            "figure-pars", lambda: f"parameters were changed from {keep} to {pars}",
        )
        from matplotlib.collections import QuadMesh

        ms = [c for c in ax.collections if isinstance(c, QuadMesh)]
        rec.check(len(ms) == 1, "figure", f"{len(ms)} filled areas")
        if len(ms) != 1:
            return
        a = np.ma.filled(np.ma.asarray(ms[0].get_array(), dtype=float), np.nan)
        xy = ms[0].get_coordinates()
        xy = 0.25 * (xy[1:, 1:] + xy[:-1, 1:] + xy[1:, :-1] + xy[:-1, :-1])
        n = (pars.get("Ny", pars.get("N")), pars.get("Nx", pars.get("N")))
        rec.check(xy.shape[:2] == n and a.size == n[0] * n[1], "figure-size", lambda: f"mesh {xy.shape}, expected {n}")
        q = xy.reshape(-1, 2)
        a = a.reshape(-1)
        if not np.isfinite(q).all():
            rec.violate("figure-nan", f"mesh is not finite for {t}")
            return
        if box:
            rec.check(
                (q.min(axis=0) <= keep["p_min"] + 1e-6 * L).all() and (q.max(axis=0) >= keep["p_max"] - 1e-6 * L).all(),
                "figure-box", "requested region not covered",
            )
        S = max(L, np.abs(q).max())
        ins, d, e = evaluate(t, q)
        far = np.min([p_dist(l, q) for l in leaves(t)], axis=0) > 1e-6 * S
        want = ins if mode.endswith("inside") or mode.startswith("inside") else ~ins if mode != "dist" else np.ones(len(q), bool)
        bad = np.where(far & (np.isfinite(a) != want))[0]
        rec.check(not len(bad), "figure-fill", lambda: f"{mode}: {len(bad)} cells, e.g. {q[bad[0]]} {a[bad[0]]} for {t}")
        if mode.startswith("dist"):
            sel = far & want & e
            bad = np.where(sel & ~(np.abs(a - d) <= 1e-6 * S))[0]
            rec.check(not len(bad), "figure-dist", lambda: f"{mode}: {len(bad)} cells, e.g. {q[bad[0]]} {a[bad[0]]}, expected {d[bad[0]]} for {t}")
            rec.event("fill-dist", int(sel.sum()))
        else:
            rec.event("fill-inside", int(want.sum()))
        rec.event("figure")
    finally:
        plt.close(fig)
