"""comparison of farm/point result datasets"""

import numpy as np
import foxes.variables as FV
import foxes.constants as FC

SKIP = {"order_ssel", "order", "order_inv", "tname", "probe_state"}
ANGLES = {FV.WD, FV.AMB_WD, FV.YAW, FV.AMB_YAW}


def angdiff(a, b):
    return np.abs(np.mod(a - b + 180.0, 360.0) - 180.0)


def compare(
    rec, a, b, key, what, skip=(), rtol=1e-8, atol=1e-8, shift=None, only=None, perm=None
):
    """
    Dataset a equals dataset b. shift: {var: offset or callable} expected change
    from b to a; perm: index list for the second dimension of b
    """
    shift = {} if shift is None else shift
    rec.check(
        set(a.data_vars) == set(b.data_vars),
        "variables|" + key,
        f"{what}: variables differ by {sorted(set(a.data_vars) ^ set(b.data_vars))}",
    )
    for v in sorted(map(str, b.data_vars)):
        if v in SKIP or v in skip or v not in a or (only is not None and v not in only):
            continue
        x, y = a[v].values, b[v].values
        if perm is not None and y.ndim > 1:
            y = y[:, perm]
        if x.ndim != y.ndim and v == FV.WEIGHT:
            x = x if x.ndim == 2 else x[:, None]
            y = y if y.ndim == 2 else y[:, None]
        if x.dtype.kind not in "fiu":
            rec.close(x, y, f"{v}|{key}", what)
            continue
        if v in shift:
            y = shift[v](y) if callable(shift[v]) else y + shift[v]
        if v in ANGLES:
            d = angdiff(x, y)
            rec.close(d, 0 * d, f"{v}|{key}", f"{what}: angle variable {v}", atol=1e-6, rtol=0)
        else:
            rec.close(x, y, f"{v}|{key}", f"{what}: variable {v}", rtol=rtol, atol=atol)


def max_deficit(fr):
    if FV.AMB_REWS in fr:
        return float(np.nanmax(np.abs(fr[FV.AMB_REWS].values - fr[FV.REWS].values)))
    return float(np.nanmax(np.abs(fr[FV.AMB_WS].values - fr[FV.WS].values)))
