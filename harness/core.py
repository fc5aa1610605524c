"""
Shared machinery: case results, tolerant comparison, the parallel case runner,
known findings, replay files and evidence.

A *case* is a JSON-able dict ("spec"). A check module defines

  PROPERTY : str
  RULE     : str      how cases are made and what makes one non-trivial
  ASSUMES  : list     assumptions
  cases(tier, seed) -> list of specs
  run(spec, rec)    -> None; drives the real code and reports to `rec`

`rec` (Recorder) is the monitor's log: `rec.event(kind, n)` counts what was
actually observed, `rec.check(ok, key, msg)` is an oracle verdict, `rec.sig`
identifies the case for distinctness, `rec.nontrivial()` marks it as such.
Verdicts are three-valued: violation / held / inconclusive (nothing seen).
"""

import os
import sys
import json
import time
import math
import hashlib
import signal
import tempfile
import shutil
import traceback
import importlib
from pathlib import Path

import numpy as np

ROOT = Path(__file__).resolve().parent.parent
CASE_TIMEOUT = int(os.environ.get("VERIF_CASE_TIMEOUT", "240"))


class CaseTimeout(BaseException):
    pass


class Inconclusive(Exception):
    """the oracle cannot decide this case (recorded, never a violation)"""


class Recorder:
    def __init__(self, spec):
        self.spec = spec
        self.events = {}
        self.violations = []
        self._nontrivial = False
        self.sig = None
        self.sample = None
        self.inconclusive = []

    def event(self, kind, n=1):
        self.events[kind] = self.events.get(kind, 0) + int(n)

    def nontrivial(self, flag=True):
        if flag:
            self._nontrivial = True

    def violate(self, key, msg):
        if len(self.violations) < 20:
            self.violations.append([str(key), str(msg)[:1500]])

    def check(self, ok, key, msg="", n=1):
        """one oracle evaluation of the named clause"""
        self.event("oracle:" + str(key).split("|")[0], n)
        if not bool(ok):
            self.violate(key, msg() if callable(msg) else msg)
        return bool(ok)

    def close(self, a, b, key, msg="", rtol=1e-9, atol=1e-9, mask=None):
        """a and b agree (nan == nan), elementwise"""
        a = np.asarray(a)
        b = np.asarray(b)
        if a.shape != b.shape:
            try:
                sh = np.broadcast_shapes(a.shape, b.shape)
            except ValueError:
                sh = None
            if sh is None:
                self.event("oracle:" + str(key).split("|")[0])
                self.violate(key, f"{msg}: shape {a.shape} vs {b.shape}")
                return False
            a = np.broadcast_to(a, sh)
            b = np.broadcast_to(b, sh)
        if mask is not None:
            a = a[mask]
            b = b[mask]
        self.event("oracle:" + str(key).split("|")[0], max(a.size, 1))
        if a.dtype.kind in "OUS" or b.dtype.kind in "OUS" or a.dtype.kind == "M":
            ok = a == b
        else:
            a = a.astype(float)
            b = b.astype(float)
            with np.errstate(all="ignore"):
                ok = (
                    (np.abs(a - b) <= atol + rtol * np.maximum(np.abs(a), np.abs(b)))
                    | (np.isnan(a) & np.isnan(b))
                    | (a == b)
                )
        if np.all(ok):
            return True
        bad = np.argwhere(~np.atleast_1d(ok))
        i = tuple(bad[0])
        aa = np.atleast_1d(a)[i]
        bb = np.atleast_1d(b)[i]
        self.violate(
            key,
            f"{msg}: {len(bad)}/{a.size} entries differ, first at {tuple(int(k) for k in i)}: got {aa!r}, expected {bb!r}",
        )
        return False


def short_tb(limit=6):
    et, ev, tb = sys.exc_info()
    fr = traceback.extract_tb(tb)[-limit:]
    where = " <- ".join(
        f"{Path(f.filename).name}:{f.lineno}:{f.name}" for f in reversed(fr)
    )
    return f"{et.__name__}: {str(ev)[:300]} @ {where}"


def spec_hash(spec):
    return hashlib.sha1(json.dumps(spec, sort_keys=True).encode()).hexdigest()[:10]


def rng_of(*keys):
    """deterministic generator from any keys"""
    h = hashlib.sha256(json.dumps(keys, sort_keys=True, default=str).encode()).digest()
    return np.random.default_rng(int.from_bytes(h[:8], "little"))


def load_check(pid):
    return importlib.import_module(f"checks.{pid.lower()}")


def kill_children():
    """ends the processes started by this one: a hanging pool would keep its caller waiting"""
    par = {}
    for d in os.listdir("/proc"):
        if d.isdigit():
            try:
                with open(f"/proc/{d}/stat") as f:
                    par.setdefault(int(f.read().rsplit(")", 1)[1].split()[1]), []).append(int(d))
            except (OSError, IndexError, ValueError):
                pass
    todo = [os.getpid()]
    while todo:
        for c in par.get(todo.pop(), []):
            todo.append(c)
            try:
                os.kill(c, signal.SIGKILL)
            except OSError:
                pass


_n_alarm = 0


def _alarm(signum, frame):
    global _n_alarm
    _n_alarm += 1
    kill_children()
    if _n_alarm > 3:  # not even leaving the engine is possible
        os._exit(7)
    signal.alarm(10)
    raise CaseTimeout()


def run_case(pid, spec, timeout=CASE_TIMEOUT):
    """executes one case in this process, returns a plain dict"""
    mod = load_check(pid)
    rec = Recorder(spec)
    t0 = time.time()
    status = "ok"
    err = None
    cwd = os.getcwd()
    scratch = tempfile.mkdtemp(prefix=f"verif_{pid}_")
    rec.scratch = Path(scratch)
    timeout = getattr(mod, "CASE_TIMEOUT", timeout)
    global _n_alarm
    _n_alarm = 0
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(timeout)
    devnull = open(os.devnull, "w")
    so = sys.stdout
    try:
        os.chdir(scratch)
        sys.stdout = devnull
        with np.errstate(all="ignore"):
            mod.run(spec, rec)
    except CaseTimeout:
        status = "timeout"
        err = f"case exceeded {timeout}s watchdog"
    except Inconclusive as e:
        rec.inconclusive.append(str(e))
    except Exception:
        status = "error"
        err = short_tb(10)
    finally:
        signal.alarm(0)
        sys.stdout = so
        devnull.close()
        os.chdir(cwd)
        shutil.rmtree(scratch, ignore_errors=True)
        try:
            import foxes

            foxes.reset_engine()
        except BaseException:
            pass
    return dict(
        spec=spec,
        status=status,
        err=err,
        events=rec.events,
        violations=rec.violations,
        inconclusive=rec.inconclusive,
        nontrivial=rec._nontrivial,
        sig=rec.sig if rec.sig is not None else spec_hash(spec),
        sample=rec.sample,
        wall=time.time() - t0,
    )
