"""
Independent reference model of steady wake calculations, written from the published
formulas and the documentation, one state at a time, with plain loops over turbines.
Nothing in here calls the package.

A reference turbine is a dict(x, y, H, D, curve=(ws, P, ct), rho, gamma [deg]).
"""

import numpy as np

# ------------------------------------------------------------------ helpers


def wd2vec(wd):
    """unit vector into which wind coming from wd [deg] blows"""
    r = np.deg2rad(wd)
    return np.array([-np.sin(r), -np.cos(r)])


def ct2a(model, ct):
    if model == "Betz":
        return 0.5 * (1 - np.sqrt(1 - np.minimum(ct, 0.99999)))
    if model == "Madsen":
        return 0.246 * ct + 0.0586 * ct**2 + 0.0883 * ct**3
    raise KeyError(model)


def lens(r1, r2, d):
    """overlap area of two discs"""
    if d >= r1 + r2:
        return 0.0
    if d <= abs(r1 - r2):
        return np.pi * min(r1, r2) ** 2
    c1 = np.clip((d * d + r1 * r1 - r2 * r2) / (2 * d * r1), -1, 1)
    c2 = np.clip((d * d + r2 * r2 - r1 * r1) / (2 * d * r2), -1, 1)
    k = (-d + r1 + r2) * (d + r1 - r2) * (d - r1 + r2) * (d + r1 + r2)
    return (
        r1 * r1 * np.arccos(c1)
        + r2 * r2 * np.arccos(c2)
        - 0.5 * np.sqrt(max(k, 0.0))
    )


def parse_k(s):
    """'k004' -> dict(k=0.04), 'ambka02_kb001' -> dict(ka=0.2, kb=0.01, amb=True)"""

    def num(x):
        return float("0." + x[1:]) if x[0] == "0" else float(x)

    out = dict(k=None, ka=None, kb=0.0, amb=False)
    for t in s.split("_"):
        if t.startswith("ambka"):
            out["ka"], out["amb"] = num(t[5:]), True
        elif t.startswith("ka"):
            out["ka"] = num(t[2:])
        elif t.startswith("kb"):
            out["kb"] = num(t[2:])
        elif t.startswith("k"):
            out["k"] = num(t[1:])
    return out


def kval(k, src):
    if k["k"] is not None:
        return k["k"]
    if k["ka"] is not None:
        return k["ka"] * (src["AMB_TI"] if k["amb"] else src["TI"]) + k["kb"]
    return src["K"]


# ----------------------------------------------------------- wake models
# src: dict(D, CT, TI, AMB_TI, REWS, AMB_REWS, gamma, K); x: float; y, z: arrays
# returns (delta array, mask array) of the relative (WS) or absolute (TI) effect


class WakeSpec:
    """parsed wake model name"""

    TOPHAT = ("Jensen", "CrespoHernandez", "IECTI2019", "IECTI2005", "IECTI2019k", "IECTI2005k")

    def __init__(self, name):
        p = name.split("_")
        self.kind = p[0]
        rest = p[1:]
        ks = [i for i, t in enumerate(rest) if _is_k(t)]
        i0 = ks[0] if ks else len(rest)
        self.sup = "_".join(rest[:i0])
        self.k = parse_k("_".join(rest[i0:]))
        self.var = (
            "TI" if self.kind.startswith("IEC") or self.kind.startswith("Cresp") else "WS"
        )
        self.top_hat = self.kind in self.TOPHAT
        self.axisym = self.kind != "Bastankhah2016" and self.kind != "Bastankhah2016B"

    def radius(self, x, src):
        if self.kind == "Jensen":
            return src["D"] / 2 + kval(self.k, src) * x
        if self.kind == "CrespoHernandez":
            a = ct2a("Betz", src["CT"])
            return 2 * (kval(self.k, src) * x + 0.25 * np.sqrt((1 - a) / (1 - 2 * a)) * src["D"])
        if self.kind in ("IECTI2019", "IECTI2005"):
            return np.tan(np.deg2rad(21.6 / 2)) * x
        return src["D"] / 2 + kval(self.k, src) * x  # IECTI....k

    def centre(self, x, src):
        """centreline value of top hat models"""
        D, ct = src["D"], src["CT"]
        if self.kind == "Jensen":
            return -2 * ct2a("Betz", ct) * (D / 2 / self.radius(x, src)) ** 2
        if self.kind == "CrespoHernandez":
            a = ct2a("Betz", ct)
            near = 0.362 * 2 * a
            far = 0.73 * a**0.83 * src["TI"] ** (-0.0325) * (x / D) ** (-0.32)
            # the far wake law applies from where it meets the near wake plateau
            xn = (near / (0.73 * a**0.83 * src["TI"] ** (-0.0325))) ** (1 / -0.32)
            return near if x < xn * D else far
        if self.kind.startswith("IECTI2005"):
            return np.sqrt(0.9) / (1.5 + 0.3 * x / D * np.sqrt(src["REWS"]))
        if self.kind.startswith("IECTI2019"):
            return 1 / (1.5 + 0.8 * x / D / np.sqrt(ct))
        raise KeyError(self.kind)

    def gauss(self, x, src):
        """amplitude and sigma of axisymmetric gaussian models"""
        D, ct = src["D"], src["CT"]
        k = kval(self.k, src)
        ind = "Betz" if self.kind.endswith("B") else "Madsen"
        kind = self.kind.rstrip("B")
        a = ct2a(ind, ct)
        beta = (1 - a) / (1 - 2 * a)
        if kind == "Bastankhah2014":
            sg = k * x + 0.2 * np.sqrt(beta) * D
        elif kind == "Bastankhah025":
            sg = k * x + 0.25 * np.sqrt(beta) * D
        elif kind == "TurbOPark":
            al = 1.5 * src["AMB_TI"]
            be = 0.8 * src["AMB_TI"] / np.sqrt(ct)
            e1 = np.sqrt((al + be * x / D) ** 2 + 1)
            e0 = np.sqrt(1 + al**2)
            sg = D * (
                0.25 * np.sqrt(beta)
                + k / be * (e1 - e0 - np.log((e1 + 1) * al / ((e0 + 1) * (al + be * x / D))))
            )
        else:
            raise KeyError(self.kind)
        return max(-2 * ct2a(ind, ct / (8 * (sg / D) ** 2)), -1.0), sg

    def b16(self, x, src):
        """Bastankhah & Porte-Agel 2016"""
        D, ct, ti = src["D"], src["CT"], src["TI"]
        ind = "Betz" if self.kind.endswith("B") else "Madsen"
        return b16_pars(x, D, ct, ti, np.deg2rad(src["gamma"]), kval(self.k, src), ind)

    def eval(self, x, y, z, src):
        y, z = np.broadcast_arrays(np.asarray(y, float), np.asarray(z, float))
        zero = np.zeros(y.shape), np.zeros(y.shape, bool)
        if x <= 1e-8 or src["CT"] <= 1e-8:
            return zero
        r = np.hypot(y, z)
        if self.top_hat:
            m = r < self.radius(x, src)
            return np.where(m, self.centre(x, src), 0.0), m
        m = np.ones(y.shape, bool)
        if self.axisym:
            a, sg = self.gauss(x, src)
            return a * np.exp(-0.5 * (r / sg) ** 2), m
        p = self.b16(x, src)
        if p["near"]:
            f = np.ones(y.shape)
            o = r > p["rpc"]
            f[o] = np.exp(-0.5 * ((r[o] - p["rpc"]) / p["s"]) ** 2)
            return p["ampl"] * f, m
        return p["ampl"] * np.exp(-0.5 * (y / p["sy"]) ** 2 - 0.5 * (z / p["sz"]) ** 2), m


def _is_k(t):
    for pre in ("ambka", "ka", "kb", "k"):
        if t.startswith(pre) and t[len(pre) :].isdigit():
            return True
    return False


def b16_pars(x, D, ct, ti, g, k, ind, alpha=0.58, beta=0.07):
    cg = np.cos(g)
    twoac = 2 * ct2a(ind, ct * cg)
    twoa = 2 * ct2a(ind, ct)
    theta = 0.3 * g / cg * twoac
    x0 = D * cg * (2 - twoa) / (np.sqrt(2) * (4 * alpha * ti + beta * twoa))
    if x < x0:
        uR = 0.5 * ct * cg / twoac
        u0 = 1 - twoa
        rpc0 = 0.5 * D * np.sqrt(uR / u0)
        return dict(
            near=True,
            rpc=rpc0 * (1 - x / x0),
            s=x / x0 * D * cg / np.sqrt(8),
            ampl=u0 - 1,
            delta=theta * x,
            x0=x0,
        )
    sy = k * (x - x0) + D * cg / np.sqrt(8)
    sz = k * (x - x0) + D / np.sqrt(8)
    q = np.sqrt(8 * sy * sz / (cg * D**2))
    sc = np.sqrt(ct)
    delta = theta * x0 + D * theta / 14.7 * np.sqrt(cg / (ct * k**2)) * (
        2.9 + 1.3 * (1 - twoa) - ct
    ) * np.log((1.6 + sc) * (1.6 * q - sc) / ((1.6 - sc) * (1.6 * q + sc)))
    return dict(
        near=False,
        sy=sy,
        sz=sz,
        ampl=max(-2 * ct2a(ind, ct * cg * D**2 / (8 * sy * sz)), -1.0),
        delta=delta,
        x0=x0,
    )


# ---------------------------------------------------------- superposition


def sup_ws(name, rel, mask, src, acc):
    """accumulates one wake; acc starts at zero"""
    lim = name.endswith("_lim")
    n = name[:-4] if lim else name
    p = n.split("_")
    kind = p[0]
    mode = p[1] if len(p) > 1 else "wake"
    sc = {"wake": src["REWS"], "amb": src["AMB_REWS"], "loc": 1.0}[mode]
    d = np.where(mask, rel, 0.0) * (1.0 if kind == "product" else sc)
    if kind == "linear":
        return acc + d
    if kind == "product":
        return (1 + acc) * (1 + d) - 1
    if kind == "max":
        return np.maximum(acc, np.abs(d))
    pw = {"quadratic": 2, "cubic": 3, "quartic": 4}[kind]
    return acc + np.abs(d) ** pw


def fin_ws(name, acc, amb):
    lim = name.endswith("_lim")
    n = name[:-4] if lim else name
    p = n.split("_")
    kind = p[0]
    loc = (len(p) > 1 and p[1] == "loc") or kind == "product"
    if kind in ("linear", "product"):
        w = acc
    elif kind == "max":
        w = -acc
    else:
        w = -(acc ** (1 / {"quadratic": 2, "cubic": 3, "quartic": 4}[kind]))
    if loc:
        w = w * amb
    if lim:
        w = np.maximum(w, 1e-4 - amb)
    return w


def sup_ti(kind, d, mask, acc):
    d = np.where(mask, d, 0.0)
    if kind == "linear":
        return acc + d
    if kind == "max":
        return np.maximum(acc, d)
    return acc + d ** {"quadratic": 2, "cubic": 3, "quartic": 4}[kind]


def fin_ti(kind, acc, amb):
    w = acc
    if kind in ("quadratic", "cubic", "quartic"):
        w = acc ** (1 / {"quadratic": 2, "cubic": 3, "quartic": 4}[kind])
    return np.sqrt(w**2 + amb**2) - amb


# ------------------------------------------------------------------ rotors

_cache = {}


def rotor_points(name):
    """design points (lateral, vertical in units of R) and weights"""
    if name in _cache:
        return _cache[name]
    if name == "centre":
        r = np.zeros((1, 2)), np.ones(1)
    elif name.startswith("grid"):
        raw = name.endswith("_raw")
        n = int(round(np.sqrt(int(name[4:].split("_")[0]))))
        e = -1 + (np.arange(n) + 0.5) * 2 / n
        P = np.array([(a, b) for a in e for b in e])
        W = np.array([_cell(a, b, 1 / n, 1 / n, raw) for a, b in P])
        s = W > 0
        r = P[s], W[s] / W[s].sum()
    elif name.startswith("level"):
        raw = name.endswith("_raw")
        n = int(name[5:].split("_")[0])
        e = -1 + (np.arange(n) + 0.5) * 2 / n
        P = np.array([(0.0, b) for b in e])
        if raw:
            W = np.ones(n)
        else:
            F = lambda t: t * np.sqrt(max(1 - t * t, 0)) + np.arcsin(np.clip(t, -1, 1))
            W = np.array([F(b + 1 / n) - F(b - 1 / n) for b in e])
        r = P, W / W.sum()
    else:
        raise KeyError(name)
    _cache[name] = r
    return r


def _cell(a, b, ha, hb, raw):
    """area fraction of the cell inside of the unit disc"""
    if raw:
        return 1.0
    n = 4000
    t = a - ha + (np.arange(n) + 0.5) * 2 * ha / n
    h = np.sqrt(np.maximum(1 - t * t, 0.0))
    lo = np.maximum(b - hb, -h)
    hi = np.minimum(b + hb, h)
    return float(np.mean(np.maximum(hi - lo, 0.0)) / (2 * hb))


def axiwake_nodes(n, R, Rt):
    """radii and weights for partial wakes of a rotor of radius Rt at centre offset R"""
    if R > Rt:
        e = R + 2 * Rt * (np.arange(n + 1) / n - 0.5)
        r = 0.5 * (e[1:] + e[:-1])
    else:
        e = np.r_[0.0, (R + Rt) / (n - 0.5) * (0.5 + np.arange(n))]
        r = 0.5 * (e[1:] + e[:-1])
        r[0] = 0.0
    A = np.array([lens(Rt, q, R) if q > 0 else 0.0 for q in e])
    w = np.diff(A)
    return r, w / w.sum()


# ---------------------------------------------------------------- the farm


class RefFarm:
    """
    One state. turbines: list of dict(x, y, H, D, ws, P, ct, rho, gamma)
    amb: callable height-array -> WS; wd, ti, rho scalars
    """

    def __init__(
        self, turbines, wd, ti, rho, amb_ws, wakes, rotor="centre", pwakes=None,
        ground=None, deflect=None, p_ct=1.0, p_P=1.88,
    ):
        self.T = turbines
        self.wd, self.ti, self.rho = wd, ti, rho
        self.amb_ws = amb_ws
        self.W = [WakeSpec(w) for w in wakes]
        self.rotor = rotor
        self.pw = pwakes
        self.mirror = {None: [], "ground_mirror": [0.0]}.get(ground, None)
        if self.mirror is None:
            self.mirror = [0.0, float(ground.split("_h")[1])]
        self.deflect = deflect  # None or (kspec)
        self.p_ct, self.p_P = p_ct, p_P
        self.n = wd2vec(wd)
        self.m = np.array([-self.n[1], self.n[0]])

    # positions of rotor points of turbine t in (downwind, lateral, height) coordinates
    def pos(self, t):
        p = np.array([t["x"], t["y"]])
        return float(p @ self.n), float(p @ self.m)

    def rpoints(self, t, rotor):
        q, w = rotor_points(rotor)
        x, y = self.pos(t)
        R = t["D"] / 2
        g = np.deg2rad(t["gamma"] if rotor != "centre" else 0.0)
        # rotor axis turned clockwise by gamma (seen from above), lateral unit turns along
        return (
            x + R * q[:, 0] * np.sin(g),
            y + R * q[:, 0] * np.cos(g),
            t["H"] + R * q[:, 1],
            w,
        )

    def wmod(self, name):
        """partial wakes name for a wake spec"""
        pw = self.pw
        if isinstance(pw, dict):
            pw = pw.get(name.kind)
        ok = {
            "top_hat": name.top_hat,
            "axiwake": name.axisym,
        }
        if pw is not None and (
            (pw == "top_hat" and not ok["top_hat"]) or (pw.startswith("axiwake") and not ok["axiwake"])
        ):
            pw = None
        if pw is None:
            pw = "top_hat" if name.top_hat else ("axiwake6" if name.axisym else "grid9")
        return pw

    def _defl(self, x, t):
        """lateral displacement of the wake centre of t at distance x"""
        if self.deflect is None or x <= 1e-8 or t["CT"] <= 1e-8:
            return 0.0
        ws = [w for w in self.W if not w.axisym]
        k = ws[0].k if ws else self.deflect
        ind = "Betz" if ws and ws[0].kind.endswith("B") else "Madsen"
        return b16_pars(
            x, t["D"], t["CT"], t["TI"], np.deg2rad(t["gamma"]), kval(k, t), ind
        )["delta"]

    def _rel(self, W, src, X, Y, Z, hsrc):
        """relative wake effect of src at points (arrays), with hub height hsrc"""
        x0, y0 = self.pos(src)
        d = np.zeros(len(X))
        m = np.zeros(len(X), bool)
        for i in range(len(X)):
            x = X[i] - x0
            y = Y[i] - y0 - self._defl(x, src)
            a, b = W.eval(x, y, Z[i] - hsrc, src)
            d[i], m[i] = a, b
        return d, m

    def _acc(self, W, d, m, src, acc):
        if W.var == "WS":
            return sup_ws(W.sup, d, m, src, acc)
        return sup_ti(W.sup, d, m, acc)

    def _fin(self, W, acc, amb):
        return fin_ws(W.sup, acc, amb) if W.var == "WS" else fin_ti(W.sup, acc, amb)

    def heights(self, src):
        return [src["H"]] + [2 * h - src["H"] for h in self.mirror]

    def turbine_effect(self, W, t, upstream):
        """(delta array on rotor points of the rotor model, to be added to ambient)"""
        pw = self.wmod(W)
        var_amb = lambda Z: self.amb_ws(Z) if W.var == "WS" else np.full(len(Z), self.ti)
        rX, rY, rZ, rw = self.rpoints(t, self.rotor)
        amb_r = var_amb(rZ)
        tx, ty = self.pos(t)
        Rt = t["D"] / 2
        if pw == "rotor_points" or pw.startswith("grid"):
            X, Y, Z, w = self.rpoints(t, self.rotor if pw == "rotor_points" else pw)
            acc = np.zeros(len(X))
            for s in upstream:
                for h in self.heights(s):
                    d, m = self._rel_rot(W, s, X, Y, Z, w, h)
                    acc = self._acc(W, d, m, s, acc)
            if pw == "rotor_points":
                return self._fin(W, acc, amb_r)
            # segregated: one value for the whole rotor
            a = amb_r if len(rw) == len(w) else np.full(len(w), float(rw @ amb_r))
            return np.full(len(rw), float(w @ self._fin(W, acc, a)))
        acc = np.zeros(1)
        for s in upstream:
            sx, sy = self.pos(s)
            x = tx - sx
            y = ty - sy - self._defl(x, s)
            for h in self.heights(s):
                z = t["H"] - h
                if x <= 1e-8 or s["CT"] <= 1e-8:
                    continue
                R = np.hypot(y, z)
                if pw == "centre":
                    d, m = W.eval(x, np.array([y]), np.array([z]), s)
                elif pw == "top_hat":
                    wr = W.radius(x, s)
                    m = np.array([wr > R - Rt])
                    d = np.array([W.centre(x, s) * lens(Rt, wr, R) / (np.pi * Rt**2)])
                else:
                    n = int(pw[7:])
                    r, w = axiwake_nodes(n, R, Rt)
                    d, m = W.eval(x, r, np.zeros(n), s)
                    d, m = np.array([float(w @ d)]), np.array([bool(np.any(m))])
                acc = self._acc(W, d, m, s, acc)
        return self._fin(W, np.full(len(rw), acc[0]), amb_r)

    def _rel_rot(self, W, s, X, Y, Z, w, h):
        """like _rel, the deflection being that at the mean distance of the rotor"""
        if self.deflect is None:
            return self._rel(W, s, X, Y, Z, h)
        x0, y0 = self.pos(s)
        xm = float(w @ (X - x0))
        dy = self._defl(xm, s)
        d = np.zeros(len(X))
        m = np.zeros(len(X), bool)
        for i in range(len(X)):
            a, b = W.eval(X[i] - x0, Y[i] - y0 - dy, Z[i] - h, s)
            d[i], m[i] = a, b
        return d, m

    def finish(self, t, dws, dti):
        """rotor averages and power/thrust of t from total deltas at its rotor points"""
        X, Y, Z, w = self.rpoints(t, self.rotor)
        cg = np.cos(np.deg2rad(t["gamma"]))
        a = self.amb_ws(Z)
        for pre, ws, ti in (("AMB_", a, np.full(len(Z), self.ti)), ("", a + dws, self.ti + dti)):
            u = ws * (cg if t.get("project") else 1.0)
            if len(w) > 1:
                t[pre + "REWS"] = max(float(w @ u), 0.0)
                t[pre + "REWS2"] = np.sqrt(max(float(w @ (np.sign(u) * u**2)), 0.0))
                t[pre + "REWS3"] = max(float(w @ u**3), 0.0) ** (1 / 3)
            else:
                t[pre + "REWS"] = t[pre + "REWS2"] = t[pre + "REWS3"] = float(u[0])
            t[pre + "TI"] = float(w @ ti)
            w2 = t[pre + "REWS2"] * (cg**self.p_ct) ** 0.5
            w3 = t[pre + "REWS3"] * (self.rho / self_rho(t)) ** (1 / 3) * (cg**self.p_P) ** (1 / 3)
            t[pre + "P"] = curve(w3, t["ws"], t["P_curve"])
            t[pre + "CT"] = curve(w2, t["ws"], t["ct_curve"])

    def run(self):
        order = sorted(range(len(self.T)), key=lambda i: self.pos(self.T[i])[0])
        up = []
        for i in order:
            t = self.T[i]
            nr = len(rotor_points(self.rotor)[1])
            dws, dti = np.zeros(nr), np.zeros(nr)
            for W in self.W:
                e = self.turbine_effect(W, t, up)
                if W.var == "WS":
                    dws = dws + e
                else:
                    dti = dti + e
            self.finish(t, dws, dti)
            up.append(t)
        return self.T

    def points(self, P):
        """WS and TI at points (n, 3)"""
        P = np.asarray(P, float)
        X = P[:, :2] @ self.n
        Y = P[:, :2] @ self.m
        Z = P[:, 2]
        ws0, ti0 = self.amb_ws(Z), np.full(len(Z), self.ti)
        ws, ti = ws0.copy(), ti0.copy()
        for W in self.W:
            acc = np.zeros(len(P))
            for s in self.T:
                for h in self.heights(s):
                    d, m = self._rel(W, s, X, Y, Z, h)
                    acc = self._acc(W, d, m, s, acc)
            if W.var == "WS":
                ws = ws + self._fin(W, acc, ws0)
            else:
                ti = ti + self._fin(W, acc, ti0)
        return ws, ti


def self_rho(t):
    return t["rho"]


def curve(u, ws, val):
    """piecewise linear, zero outside of the range"""
    if not (ws[0] <= u <= ws[-1]):
        return 0.0
    j = int(np.clip(np.searchsorted(ws, u) - 1, 0, len(ws) - 2))
    f = (u - ws[j]) / (ws[j + 1] - ws[j])
    return float(val[j] + f * (val[j + 1] - val[j]))
