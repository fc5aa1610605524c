"""
Monitors plugged into the real code through its public extension points.

ProbeModel is a turbine model that does nothing but report which states and
turbines it was called for; it is registered in the model book under the name
"probe" and listed first in every turbine's model list (pre-rotor, so each
chunk of states calls it exactly once per sweep).
"""

import threading
import numpy as np

from foxes.core import TurbineModel, PointDataModel
import foxes.variables as FV
import foxes.constants as FC

_lock = threading.Lock()
LOG = []


def reset():
    with _lock:
        LOG.clear()


def log(*x):
    with _lock:
        LOG.append(x)


class ProbeModel(TurbineModel):
    """logs (states) once per chunk and echoes them as a farm variable"""

    def __init__(self):
        super().__init__(pre_rotor=True)

    def output_farm_vars(self, algo):
        return ["probe_state"]

    def calculate(self, algo, mdata, fdata, st_sel):
        self.ensure_variables(algo, mdata, fdata)
        st = np.asarray(mdata[FC.STATE])
        log("farm", threading.get_ident(), tuple(st.tolist()))
        out = fdata["probe_state"]
        out[:] = np.arange(len(st))[:, None] + int(fdata.states_i0(counter=True))
        return {"probe_state": out}


class PointProbe(PointDataModel):
    """logs (states, points) for each chunk and echoes x + 2*y + 3*h"""

    def output_point_vars(self, algo):
        return ["probe_xyh"]

    def calculate(self, algo, mdata, fdata, tdata):
        t = tdata[FC.TARGETS][..., 0, :]
        log(
            "points",
            threading.get_ident(),
            tuple(np.asarray(tdata[FC.STATE]).tolist()),
            t[0, :, 0].copy(),
        )
        r = tdata[FC.TARGETS][..., 0] + 2 * tdata[FC.TARGETS][..., 1] + 3 * tdata[FC.TARGETS][..., 2]
        return {"probe_xyh": r}


class DelayModel(TurbineModel):
    """sleeps a time that depends on the states of the chunk: reorders chunk completion"""

    def __init__(self, delays):
        super().__init__(pre_rotor=True)
        self.delays = delays

    def output_farm_vars(self, algo):
        return []

    def calculate(self, algo, mdata, fdata, st_sel):
        import time

        i0 = int(fdata.states_i0(counter=True))
        log("start", threading.get_ident(), i0)
        time.sleep(self.delays[i0 % len(self.delays)])
        log("end", threading.get_ident(), i0)
        return {}


class DelayPoints(PointDataModel):
    """same for point calculations"""

    def __init__(self, delays):
        super().__init__()
        self.delays = delays

    def output_point_vars(self, algo):
        return []

    def calculate(self, algo, mdata, fdata, tdata):
        import time

        t = tdata[FC.TARGETS][0, 0, 0, 0]
        i0 = int(tdata.states_i0(counter=True)) + int(abs(t))
        log("start", threading.get_ident(), i0)
        time.sleep(self.delays[i0 % len(self.delays)])
        log("end", threading.get_ident(), i0)
        return {}


class SchedulePerturber:
    """
    Forces thread switches at random calls into the code under test: a profile
    function in every thread started while active sleeps with some probability
    on entering a function of the foxes package. Counts yields and the
    sequence of thread changes (distinct interleavings).
    """

    def __init__(self, seed, p=0.03, max_sleep=0.0015):
        self.rng = np.random.default_rng(seed)
        self.p = p
        self.max_sleep = max_sleep
        self.yields = 0
        self.seq = []

    def _prof(self, frame, event, arg):
        if event != "call" or "foxes" not in frame.f_code.co_filename:
            return
        if "/harness/" in frame.f_code.co_filename:
            return
        with _lock:
            u = self.rng.random()
            t = self.rng.random() * self.max_sleep
        if u < self.p:
            import time

            me = threading.get_ident()
            with _lock:
                self.yields += 1
                if not self.seq or self.seq[-1][0] != me:
                    self.seq.append((me, frame.f_code.co_name))
            time.sleep(t)

    def __enter__(self):
        import sys

        self._si = sys.getswitchinterval()
        sys.setswitchinterval(1e-5)
        threading.setprofile(self._prof)
        return self

    def __exit__(self, *a):
        import sys

        threading.setprofile(None)
        sys.setswitchinterval(self._si)

    def signature(self):
        ids = {}
        return [(ids.setdefault(t, len(ids)), f) for t, f in self.seq[:4000]]
