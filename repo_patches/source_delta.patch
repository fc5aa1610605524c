From c4d3e7fe31ee929cb015393d8899bb4cb58adeb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:31 +0000
Subject: [PATCH 001/150] fix: do not modify the user's profile dicts on states
 initialization

---
 foxes/input/states/single.py       | 1 +
 foxes/input/states/states_table.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/foxes/input/states/single.py b/foxes/input/states/single.py
index 96067cb..028ea92 100644
--- a/foxes/input/states/single.py
+++ b/foxes/input/states/single.py
@@ -109,6 +109,7 @@ class SingleStateStates(States):
             elif isinstance(d, VerticalProfile):
                 self._profiles[v] = d
             elif isinstance(d, dict):
+                d = dict(d)
                 t = d.pop("type")
                 self._profiles[v] = VerticalProfile.new(t, **d)
             else:
diff --git a/foxes/input/states/states_table.py b/foxes/input/states/states_table.py
index 1b5fb09..8b43c49 100644
--- a/foxes/input/states/states_table.py
+++ b/foxes/input/states/states_table.py
@@ -160,6 +160,7 @@ class StatesTable(States):
             elif isinstance(d, VerticalProfile):
                 self._profiles[v] = d
             elif isinstance(d, dict):
+                d = dict(d)
                 t = d.pop("type")
                 self._profiles[v] = VerticalProfile.new(t, **d)
             else:
-- 
2.43.0


From c3598a3b00e5782c814fbeb8a1c71360d0f93ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:48 +0000
Subject: [PATCH 002/150] fix: isolate algorithm and models between chunks of
 the threads engine

---
 foxes/engines/futures.py | 32 ++++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/foxes/engines/futures.py b/foxes/engines/futures.py
index cdb808a..73ec970 100644
--- a/foxes/engines/futures.py
+++ b/foxes/engines/futures.py
@@ -1,4 +1,8 @@
 from concurrent.futures import ThreadPoolExecutor, ProcessPoolExecutor
+from copy import deepcopy
+
+from foxes.core import Model
+from foxes.utils import Dict
 
 from .pool import PoolEngine
 
@@ -35,6 +39,12 @@ class ThreadsEngine(PoolEngine):
             The future object
 
         """
+        # threads share memory, hence each job needs its own copy of
+        # the objects that are modified during calculations:
+        memo = {}
+        args = [
+            deepcopy(a, memo) if isinstance(a, (Model, Dict)) else a for a in args
+        ]
         return self._pool.submit(f, *args, **kwargs)
 
     def _result(self, future):
@@ -70,3 +80,25 @@ class ProcessEngine(ThreadsEngine):
     def _create_pool(self):
         """Creates the pool"""
         self._pool = ProcessPoolExecutor(max_workers=self.n_procs)
+
+    def _submit(self, f, *args, **kwargs):
+        """
+        Submits to the pool
+
+        Parameters
+        ----------
+        f: Callable
+            The function f(*args, **kwargs) to be
+            submitted
+        args: tuple, optional
+            Arguments for the function
+        kwargs: dict, optional
+            Arguments for the function
+
+        Returns
+        -------
+        future: object
+            The future object
+
+        """
+        return self._pool.submit(f, *args, **kwargs)
-- 
2.43.0


From 86c744bc9e9cf129baf4385828591a1aaed2f0e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:48 +0000
Subject: [PATCH 003/150] fix: keep model data in downwind order in all
 iterations of the iterative algorithm

---
 foxes/algorithms/iterative/iterative.py       |  4 ++
 foxes/algorithms/iterative/models/__init__.py |  1 +
 .../iterative/models/reorder_model_data.py    | 68 +++++++++++++++++++
 3 files changed, 73 insertions(+)
 create mode 100644 foxes/algorithms/iterative/models/reorder_model_data.py

diff --git a/foxes/algorithms/iterative/iterative.py b/foxes/algorithms/iterative/iterative.py
index 3dd6820..bf61855 100644
--- a/foxes/algorithms/iterative/iterative.py
+++ b/foxes/algorithms/iterative/iterative.py
@@ -220,6 +220,10 @@ class Iterative(Downwind):
             # do not rotate back from downwind order:
             if not self._final_run:
 
+                # bring model data into downwind order:
+                mlist.models.append(self.get_model("ReorderModelData")())
+                calc_pars.append(calc_parameters.get(mlist.models[-1].name, {}))
+
                 # add under-relaxation during wake calculation:
                 urelax = None
                 if self._urelax is not None and len(self._urelax["pre_wake"]):
diff --git a/foxes/algorithms/iterative/models/__init__.py b/foxes/algorithms/iterative/models/__init__.py
index 4e9831a..ac8b690 100644
--- a/foxes/algorithms/iterative/models/__init__.py
+++ b/foxes/algorithms/iterative/models/__init__.py
@@ -1,3 +1,4 @@
 from .convergence import ConvCrit, ConvCritList, ConvVarDelta, DefaultConv
 from .farm_wakes_calc import FarmWakesCalculation
+from .reorder_model_data import ReorderModelData
 from .urelax import URelax
diff --git a/foxes/algorithms/iterative/models/reorder_model_data.py b/foxes/algorithms/iterative/models/reorder_model_data.py
new file mode 100644
index 0000000..4d5239e
--- /dev/null
+++ b/foxes/algorithms/iterative/models/reorder_model_data.py
@@ -0,0 +1,68 @@
+import numpy as np
+
+from foxes.core import FarmDataModel
+import foxes.variables as FV
+import foxes.constants as FC
+
+
+class ReorderModelData(FarmDataModel):
+    """
+    Brings the turbine dependent model data into
+    the downwind order of the farm data.
+
+    This is required for iterations that do not start
+    from the InitFarmData model, since each iteration
+    starts from the original model data.
+
+    :group: algorithms.iterative.models
+
+    """
+
+    def output_farm_vars(self, algo):
+        """
+        The variables which are being modified by the model.
+
+        Parameters
+        ----------
+        algo: foxes.core.Algorithm
+            The calculation algorithm
+
+        Returns
+        -------
+        output_vars: list of str
+            The output variable names
+
+        """
+        return []
+
+    def calculate(self, algo, mdata, fdata):
+        """
+        The main model calculation.
+
+        This function is executed on a single chunk of data,
+        all computations should be based on numpy arrays.
+
+        Parameters
+        ----------
+        algo: foxes.core.Algorithm
+            The calculation algorithm
+        mdata: foxes.core.MData
+            The model data
+        fdata: foxes.core.FData
+            The farm data
+
+        Returns
+        -------
+        results: dict
+            The resulting data, keys: output variable str.
+            Values: numpy.ndarray with shape (n_states, n_turbines)
+
+        """
+        order = fdata[FV.ORDER].astype(int)
+        ssel = np.arange(fdata.n_states)[:, None]
+        for k in mdata.keys():
+            if tuple(mdata.dims[k][:2]) == (FC.STATE, FC.TURBINE) and np.any(
+                mdata[k] != mdata[k][0, 0, None, None]
+            ):
+                mdata[k] = mdata[k][ssel, order]
+        return {}
-- 
2.43.0


From 2bf8132650072c92d6af2fd853c7ba8602d90eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:10 +0000
Subject: [PATCH 004/150] fix: provide all farm variables to models for custom
 farm outputs

---
 foxes/core/engine.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/foxes/core/engine.py b/foxes/core/engine.py
index afaefb2..8e20c01 100644
--- a/foxes/core/engine.py
+++ b/foxes/core/engine.py
@@ -371,10 +371,12 @@ class Engine(ABC):
 
         # create fdata:
         if point_data is None:
+            # models may also need farm variables which are not in out_vars:
+            fvars = set(out_vars).union(algo.farm_vars)
 
             def cb(data, dims):
                 n_states = i1_states - i0_states
-                for o in set(out_vars).difference(data.keys()):
+                for o in fvars.difference(data.keys()):
                     data[o] = np.full(
                         (n_states, algo.n_turbines), np.nan, dtype=config.dtype_double
                     )
-- 
2.43.0


From 7fabe815e0930bef1ff850fe9c2c6d97d6c07bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:10 +0000
Subject: [PATCH 005/150] fix: ambient calculation with the iterative algorithm

---
 foxes/algorithms/iterative/iterative.py | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/foxes/algorithms/iterative/iterative.py b/foxes/algorithms/iterative/iterative.py
index bf61855..963715d 100644
--- a/foxes/algorithms/iterative/iterative.py
+++ b/foxes/algorithms/iterative/iterative.py
@@ -169,7 +169,14 @@ class Iterative(Downwind):
         """
         Helper function that creates model list
         """
-        if self._it == 0:
+        if ambient:
+            return super()._collect_farm_models(
+                outputs=outputs,
+                calc_parameters=calc_parameters,
+                ambient=ambient,
+            )
+
+        elif self._it == 0:
             self._mlist0, self._calc_pars0 = super()._collect_farm_models(
                 outputs=False,
                 calc_parameters=calc_parameters,
@@ -209,7 +216,7 @@ class Iterative(Downwind):
 
             return self._mlist0, self._calc_pars0
 
-        elif ambient or self._reamb:
+        elif self._reamb:
             return self._mlist0, self._calc_pars0
 
         else:
@@ -249,7 +256,7 @@ class Iterative(Downwind):
 
     def _calc_farm_vars(self, mlist):
         """Helper function that gathers the farm variables"""
-        if self._it == 0:
+        if not self._it:
             super()._calc_farm_vars(mlist)
 
     def _launch_parallel_farm_calc(self, mlist, *data, **kwargs):
@@ -295,6 +302,13 @@ class Iterative(Downwind):
         if outputs == "default":
             outputs = self.DEFAULT_FARM_OUTPUTS
 
+        # ambient results do not depend on iterations:
+        if kwargs.get("ambient", False):
+            self._it = None
+            self.__prev_farm_results = None
+            fres = super().calc_farm(outputs=outputs, finalize=finalize, **kwargs)
+            return (fres, None) if ret_dwnd_order else fres
+
         fres = None
         self._it = -1
         self._final_run = False
-- 
2.43.0


From ea1ad3fd550b658757e47236669cca604ab4085d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:24 +0000
Subject: [PATCH 006/150] fix: represent absence of wakes by zero delta in
 product superposition

---
 foxes/models/wake_superpositions/ws_product.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/foxes/models/wake_superpositions/ws_product.py b/foxes/models/wake_superpositions/ws_product.py
index ce65425..4028029 100644
--- a/foxes/models/wake_superpositions/ws_product.py
+++ b/foxes/models/wake_superpositions/ws_product.py
@@ -118,11 +118,10 @@ class WSProduct(WakeSuperposition):
                 f"Superposition '{self.name}': Expecting wind speed variable, got {variable}"
             )
 
-        if np.max(np.abs(wake_delta)) < 1e-14:
-            wake_delta[:] = 1
-
+        # the wake delta is the product minus one, such that
+        # zero represents the absence of wakes:
         if np.any(st_sel):
-            wake_delta[st_sel] *= 1 + wake_model_result
+            wake_delta[st_sel] = (1 + wake_delta[st_sel]) * (1 + wake_model_result) - 1
 
         return wake_delta
 
@@ -164,7 +163,7 @@ class WSProduct(WakeSuperposition):
             (n_states, n_targets, n_tpoints)
 
         """
-        w = amb_results * (wake_delta - 1)
+        w = amb_results * wake_delta
         if self.lim_low is not None:
             w = np.maximum(w, self.lim_low - amb_results)
         if self.lim_high is not None:
-- 
2.43.0


From fbbc2fe6eb6962bee4f4bf319a7f2ed79c80f638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:24 +0000
Subject: [PATCH 007/150] fix: assign SetFarmVars data and pre-rotor results to
 the correct turbines

---
 foxes/algorithms/downwind/models/init_farm_data.py | 10 ++++++++--
 foxes/models/turbine_models/set_farm_vars.py       | 10 ++--------
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/foxes/algorithms/downwind/models/init_farm_data.py b/foxes/algorithms/downwind/models/init_farm_data.py
index 2d23d61..671d163 100644
--- a/foxes/algorithms/downwind/models/init_farm_data.py
+++ b/foxes/algorithms/downwind/models/init_farm_data.py
@@ -124,8 +124,14 @@ class InitFarmData(FarmDataModel):
         fdata[FV.TXYH] = fdata[FV.TXYH][ssel, order]
         for i, v in enumerate([FV.X, FV.Y, FV.H]):
             fdata[v] = fdata[FV.TXYH][..., i]
-        for v in [FV.D, FV.WD]:
-            if np.any(fdata[v] != fdata[v][0, 0, None, None]):
+        skip = [FV.X, FV.Y, FV.H, FV.TXYH, FV.ORDER, FV.ORDER_SSEL, FV.ORDER_INV]
+        for v in fdata.keys():
+            if (
+                v not in skip
+                and tuple(fdata.dims[v][:2]) == (FC.STATE, FC.TURBINE)
+                and fdata[v].shape[1] == n_turbines
+                and np.any(fdata[v] != fdata[v][0, 0, None, None])
+            ):
                 fdata[v] = fdata[v][ssel, order]
         fdata[FV.YAW] = fdata[FV.WD].copy()
         for k in mdata.keys():
diff --git a/foxes/models/turbine_models/set_farm_vars.py b/foxes/models/turbine_models/set_farm_vars.py
index d3e0f5c..a611f21 100644
--- a/foxes/models/turbine_models/set_farm_vars.py
+++ b/foxes/models/turbine_models/set_farm_vars.py
@@ -271,18 +271,12 @@ class SetFarmVars(TurbineModel):
         i0 = mdata.states_i0(counter=True)
         if not self.once or i0 not in self.__once_done:
 
-            if self.pre_rotor:
-                order = np.s_[:]
-                ssel = np.s_[:]
-            else:
-                order = fdata[FV.ORDER]
-                ssel = fdata[FV.ORDER_SSEL]
-
             bsel = np.zeros((fdata.n_states, fdata.n_turbines), dtype=bool)
             bsel[st_sel] = True
 
             for v in self.vars:
-                data = mdata[self.var(v)][ssel, order]
+                # model data comes in the same turbine order as farm data
+                data = mdata[self.var(v)]
                 hsel = ~np.isnan(data)
                 tsel = bsel & hsel
 
-- 
2.43.0


From 683328fa8324237370dae47ac45a861d392ad6c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:24 +0000
Subject: [PATCH 008/150] fix: use rated power of the correct turbine in
 PowerMask

---
 foxes/models/turbine_models/power_mask.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/foxes/models/turbine_models/power_mask.py b/foxes/models/turbine_models/power_mask.py
index 6e3b53e..e058971 100644
--- a/foxes/models/turbine_models/power_mask.py
+++ b/foxes/models/turbine_models/power_mask.py
@@ -153,7 +153,7 @@ class PowerMask(TurbineModel):
         # prepare:
         P = fdata[FV.P]
         max_P = fdata[FV.MAX_P]
-        P_rated = self._P_rated[None, :]
+        P_rated = self._P_rated[fdata[FV.ORDER].astype(config.dtype_int)]
 
         # select power entries for which this is active:
         sel = np.zeros((fdata.n_states, fdata.n_turbines), dtype=bool)
-- 
2.43.0


From e877b300549162d0acdb3ec89ff4b1351e34af29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:24 +0000
Subject: [PATCH 009/150] fix: apply sector management to the correct turbines

---
 foxes/models/turbine_models/sector_management.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/foxes/models/turbine_models/sector_management.py b/foxes/models/turbine_models/sector_management.py
index 98f7a7e..9f803e8 100644
--- a/foxes/models/turbine_models/sector_management.py
+++ b/foxes/models/turbine_models/sector_management.py
@@ -3,7 +3,7 @@ import pandas as pd
 
 from foxes.core import TurbineModel
 from foxes.utils import PandasFileHelper
-from foxes.config import get_input_path
+from foxes.config import config, get_input_path
 import foxes.variables as FV
 import foxes.constants as FC
 
@@ -191,17 +191,13 @@ class SectorManagement(TurbineModel):
         """
         # prepare:
         n_trbs = len(self._trbs)
-        if n_trbs == fdata.n_turbines and np.all(
-            self._trbs == np.arange(fdata.n_turbines)
-        ):
-            tsel = np.s_[:]
-        else:
-            tsel = self._trbs
+        ssel = np.arange(fdata.n_states)[:, None]
+        tsel = fdata[FV.ORDER_INV].astype(config.dtype_int)[:, self._trbs]
 
         # find state-turbine data that matches ranges:
         rsel = np.ones((fdata.n_states, n_trbs), dtype=bool)
         for vi, v in enumerate(self._rvars):
-            d = fdata[v][:, tsel]
+            d = fdata[v][ssel, tsel]
             if v in self._perds:
                 d = np.mod(d, self._perds[v])
                 mi = self._rdata[:, vi, 0]
@@ -227,7 +223,7 @@ class SectorManagement(TurbineModel):
         # set target data:
         if np.any(rsel):
             sel = np.where(rsel)
-            selt = self._trbs[sel[1]]
+            selt = tsel[sel]
             for vi, v in enumerate(self._tvars):
                 fdata[v][sel[0], selt] = self._tdata[None, sel[1], vi]
 
-- 
2.43.0


From 4e8db5625cfe20ef98ad3f9f44ba254bfde0066d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:24 +0000
Subject: [PATCH 010/150] fix: turbine order and missing wakes with the
 streamlines wake frame

---
 foxes/models/wake_frames/streamlines.py | 60 +++++++++++++------------
 1 file changed, 31 insertions(+), 29 deletions(-)

diff --git a/foxes/models/wake_frames/streamlines.py b/foxes/models/wake_frames/streamlines.py
index bd911e0..03849a4 100644
--- a/foxes/models/wake_frames/streamlines.py
+++ b/foxes/models/wake_frames/streamlines.py
@@ -68,39 +68,34 @@ class Streamlines2D(WakeFrame):
         data = np.zeros((n_states, n_turbines, N, 4), dtype=config.dtype_double)
         for i in range(N):
 
-            # set streamline start point data (rotor centre):
+            # start at the rotor centre, then calculate next point:
             if i == 0:
                 data[:, :, i, :3] = fdata[FV.TXYH]
-                data[:, :, i, 3] = fdata[FV.AMB_WD]
-
-            # compute next step:
             else:
-
-                # calculate next point:
                 xyz = data[:, :, i - 1, :3]
                 n = wd2uv(data[:, :, i - 1, 3])
                 data[:, :, i, :2] = xyz[:, :, :2] + self.step * n
                 data[:, :, i, 2] = xyz[:, :, 2]
 
-                # calculate next tangential vector:
-                svars = algo.states.output_point_vars(algo)
-                tdata = TData.from_points(
-                    data[:, :, i, :3],
-                    data={
-                        v: np.full(
-                            (n_states, n_turbines, 1), np.nan, dtype=config.dtype_double
-                        )
-                        for v in svars
-                    },
-                    dims={v: (FC.STATE, FC.TARGET, FC.TPOINT) for v in svars},
-                )
-                data[:, :, i, 3] = algo.states.calculate(algo, mdata, fdata, tdata)[
-                    FV.WD
-                ][:, :, 0]
-
-                sel = np.isnan(data[:, :, i, 3])
-                if np.any(sel):
-                    data[sel, i, 3] = data[sel, i - 1, 3]
+            # calculate next tangential vector:
+            svars = algo.states.output_point_vars(algo)
+            tdata = TData.from_points(
+                data[:, :, i, :3],
+                data={
+                    v: np.full(
+                        (n_states, n_turbines, 1), np.nan, dtype=config.dtype_double
+                    )
+                    for v in svars
+                },
+                dims={v: (FC.STATE, FC.TARGET, FC.TPOINT) for v in svars},
+            )
+            data[:, :, i, 3] = algo.states.calculate(algo, mdata, fdata, tdata)[FV.WD][
+                :, :, 0
+            ]
+
+            sel = np.isnan(data[:, :, i, 3])
+            if i > 0 and np.any(sel):
+                data[sel, i, 3] = data[sel, i - 1, 3]
 
         return data
 
@@ -202,11 +197,18 @@ class Streamlines2D(WakeFrame):
                 :, :, 0, 0
             ]
 
+        # count the length of the chain of turbines upstream of each turbine,
+        # noting that coordinates are nan for points outside the streamline range:
+        upstream = coosx > 0
+        depth = np.zeros((n_states, n_turbines), dtype=config.dtype_int)
+        for __ in range(n_turbines):
+            hdepth = np.max(np.where(upstream, depth[:, :, None] + 1, 0), axis=1)
+            if np.all(hdepth == depth):
+                break
+            depth = hdepth
+
         # derive turbine order:
-        # TODO: Remove loop over states
-        order = np.zeros((n_states, n_turbines), dtype=config.dtype_int)
-        for si in range(n_states):
-            order[si] = np.lexsort(keys=coosx[si])
+        order = np.argsort(depth, axis=-1, kind="stable")
 
         return order
 
-- 
2.43.0


From 65517ba19a993bd5ddb1d6545fb4cef2048519d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:57 +0000
Subject: [PATCH 011/150] fix: broadcasting of rankine half body wake deltas

---
 foxes/models/wake_models/induction/rankine_half_body.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/foxes/models/wake_models/induction/rankine_half_body.py b/foxes/models/wake_models/induction/rankine_half_body.py
index 039c6e7..ee5a4c6 100644
--- a/foxes/models/wake_models/induction/rankine_half_body.py
+++ b/foxes/models/wake_models/induction/rankine_half_body.py
@@ -263,11 +263,13 @@ class RankineHalfBody(TurbineInductionModel):
         del ws0, nx, ny
 
         # add ambient result to wake deltas:
-        wind_vec += delta_uv
+        wind_vec = wind_vec + delta_uv
         del delta_uv
 
         # deduce WS and WD deltas:
         new_wd = uv2wd(wind_vec)
         new_ws = np.linalg.norm(wind_vec, axis=-1)
-        wake_deltas[FV.WS] += new_ws - amb_results[FV.WS]
-        wake_deltas[FV.WD] += delta_wd(amb_results[FV.WD], new_wd)
+        wake_deltas[FV.WS] = wake_deltas[FV.WS] + new_ws - amb_results[FV.WS]
+        wake_deltas[FV.WD] = wake_deltas[FV.WD] + delta_wd(
+            amb_results[FV.WD], new_wd
+        )
-- 
2.43.0


From 2678a7855b2b5a2bf306b995bb4c2fe5587b764f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:16 +0000
Subject: [PATCH 012/150] fix: apply states selections to the correct models in
 the farm controller

---
 foxes/core/farm_controller.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/foxes/core/farm_controller.py b/foxes/core/farm_controller.py
index eaba616..7de2d12 100644
--- a/foxes/core/farm_controller.py
+++ b/foxes/core/farm_controller.py
@@ -117,7 +117,7 @@ class FarmController(FarmDataModel):
                 return True
         return False
 
-    def _analyze_models(self, algo, pre_rotor, models):
+    def _analyze_models(self, algo, pre_rotor, models, states_sels):
         """
         Helper function for model analysis
         """
@@ -151,7 +151,7 @@ class FarmController(FarmDataModel):
                         for tj, jnames in enumerate(mnames):
                             mi = tmis[tj]
                             if mi < len(jnames) and jnames[mi] == mname:
-                                ssel = algo.farm.turbines[tj].mstates_sel[mi]
+                                ssel = states_sels[tj][mi]
                                 tsel[:, tj] = True if ssel is None else ssel
                                 tmis[tj] += 1
                         tmsels.append(tsel)
@@ -227,6 +227,8 @@ class FarmController(FarmDataModel):
         # check turbine models, and find turbine types and pre/post-rotor models:
         prer_models = [[] for t in algo.farm.turbines]
         postr_models = [[] for t in algo.farm.turbines]
+        prer_sels = [[] for t in algo.farm.turbines]
+        postr_sels = [[] for t in algo.farm.turbines]
         ttypes = {m.name: m for m in self.turbine_types}
         for ti, t in enumerate(algo.farm.turbines):
             prer = None
@@ -257,15 +259,17 @@ class FarmController(FarmDataModel):
                         )
                     if m.pre_rotor:
                         prer_models[ti].append(m)
+                        prer_sels[ti].append(t.mstates_sel[mi])
                     else:
                         postr_models[ti].append(m)
+                        postr_sels[ti].append(t.mstates_sel[mi])
 
         # analyze models:
         mnames_pre, tmsels_pre = self._analyze_models(
-            algo, pre_rotor=True, models=prer_models
+            algo, pre_rotor=True, models=prer_models, states_sels=prer_sels
         )
         mnames_post, tmsels_post = self._analyze_models(
-            algo, pre_rotor=False, models=postr_models
+            algo, pre_rotor=False, models=postr_models, states_sels=postr_sels
         )
         tmsels = tmsels_pre + tmsels_post
         self._tmall = [np.all(t) for t in tmsels]
-- 
2.43.0


From f71d587a1396df362682cbdb777f715d987243d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:28 +0000
Subject: [PATCH 013/150] fix: do not modify rotor wind speeds in place in
 power curve turbine types

---
 foxes/models/turbine_types/PCt_file.py     | 4 ++--
 foxes/models/turbine_types/PCt_from_two.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/foxes/models/turbine_types/PCt_file.py b/foxes/models/turbine_types/PCt_file.py
index 70732c1..2b89a39 100644
--- a/foxes/models/turbine_types/PCt_file.py
+++ b/foxes/models/turbine_types/PCt_file.py
@@ -302,8 +302,8 @@ class PCtFile(TurbineType):
             Values: numpy.ndarray with shape (n_states, n_turbines)
 
         """
-        rews2 = fdata[self.WSCT][st_sel]
-        rews3 = fdata[self.WSP][st_sel]
+        rews2 = fdata[self.WSCT][st_sel].copy()
+        rews3 = fdata[self.WSP][st_sel].copy()
 
         # apply air density correction:
         if self.rho is not None:
diff --git a/foxes/models/turbine_types/PCt_from_two.py b/foxes/models/turbine_types/PCt_from_two.py
index 8fa8bb8..14cb92a 100644
--- a/foxes/models/turbine_types/PCt_from_two.py
+++ b/foxes/models/turbine_types/PCt_from_two.py
@@ -347,8 +347,8 @@ class PCtFromTwo(TurbineType):
             Values: numpy.ndarray with shape (n_states, n_turbines)
 
         """
-        rews2 = fdata[self.WSCT][st_sel]
-        rews3 = fdata[self.WSP][st_sel]
+        rews2 = fdata[self.WSCT][st_sel].copy()
+        rews3 = fdata[self.WSP][st_sel].copy()
 
         # apply air density correction:
         if self.rho is not None:
-- 
2.43.0


From ef71dd16f66cca31d8fb407fa235f486f9a974aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:00 +0000
Subject: [PATCH 014/150] fix: keep lateral extent of target rotors with the
 yawed wake frame

---
 foxes/models/wake_frames/yawed_wakes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/foxes/models/wake_frames/yawed_wakes.py b/foxes/models/wake_frames/yawed_wakes.py
index 38e1a5d..5d893a7 100644
--- a/foxes/models/wake_frames/yawed_wakes.py
+++ b/foxes/models/wake_frames/yawed_wakes.py
@@ -272,10 +272,11 @@ class YawedWakes(WakeFrame):
         xy = np.einsum("stpd,p->std", xyz[..., :2], tdata[FC.TWEIGHTS])
         x = xy[:, :, 0]
         y = xy[:, :, 1]
+        y0 = y.copy()
 
         # apply deflection:
         self._update_y(algo, mdata, fdata, tdata, downwind_index, x, y)
-        xyz[..., 1] = y[:, :, None]
+        xyz[..., 1] += (y - y0)[:, :, None]
 
         return xyz
 
-- 
2.43.0


From 7caf7b0e2b84729748eb0ffe53ff8337be48ff38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:44 +0000
Subject: [PATCH 015/150] fix: centreline points of the yawed wake frame on the
 side of the wake

---
 foxes/models/wake_frames/yawed_wakes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/foxes/models/wake_frames/yawed_wakes.py b/foxes/models/wake_frames/yawed_wakes.py
index 5d893a7..6b20f37 100644
--- a/foxes/models/wake_frames/yawed_wakes.py
+++ b/foxes/models/wake_frames/yawed_wakes.py
@@ -325,6 +325,6 @@ class YawedWakes(WakeFrame):
         y = np.zeros_like(x)
         self._update_y(algo, mdata, fdata, tdata, downwind_index, x, y)
 
-        points += y[:, :, None] * ny
+        points -= y[:, :, None] * ny
 
         return points
-- 
2.43.0


From a76e7eeb29f7283115d7370ab29ef458d284c5fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:44 +0000
Subject: [PATCH 016/150] fix: use the partial wakes model for the main wake
 contribution of wake mirrors

---
 foxes/models/ground_models/wake_mirror.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/foxes/models/ground_models/wake_mirror.py b/foxes/models/ground_models/wake_mirror.py
index c00f093..7a8ea13 100644
--- a/foxes/models/ground_models/wake_mirror.py
+++ b/foxes/models/ground_models/wake_mirror.py
@@ -75,8 +75,9 @@ class WakeMirror(GroundModel):
         # assert(np.all(fdata[FV.H]==fdata[FV.TXYH[..., 2]]))
 
         # contribution from main wake:
-        wcoos = algo.wake_frame.get_wake_coos(algo, mdata, fdata, tdata, downwind_index)
-        wmodel.contribute(algo, mdata, fdata, tdata, downwind_index, wcoos, wake_deltas)
+        pwake.contribute(
+            algo, mdata, fdata, tdata, downwind_index, wake_deltas, wmodel
+        )
 
         # contribution from mirrors:
         tdata[FC.TARGETS] = tdata[FC.TARGETS].copy()  # making sure this is no ref
-- 
2.43.0


From d35a20d234f01e312b6c83af1722a46d0813be96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:24 +0000
Subject: [PATCH 017/150] fix: partial axiwake for wake centre on the rotor
 edge

---
 foxes/models/partial_wakes/axiwake.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/foxes/models/partial_wakes/axiwake.py b/foxes/models/partial_wakes/axiwake.py
index c41e63e..04e7790 100644
--- a/foxes/models/partial_wakes/axiwake.py
+++ b/foxes/models/partial_wakes/axiwake.py
@@ -168,7 +168,7 @@ class PartialAxiwake(PartialCentre):
             del hA, Rsel, Dsel, R1, R2
 
         # case wake centre inside rotor disk:
-        sel = (x > 0) & (R < D / 2)
+        sel = (x > 0) & (R <= D / 2)
         if np.any(sel):
             n_sel = np.sum(sel)
             Rsel = np.zeros((n_sel, self.n + 1), dtype=config.dtype_double)
-- 
2.43.0


From 8f9eff78b94ed2a8ba63d55257ee194d9af83405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:24 +0000
Subject: [PATCH 018/150] fix: use diameter of the target rotors in top-hat and
 axial partial wakes

---
 foxes/algorithms/downwind/models/farm_wakes_calc.py  | 8 +++++++-
 foxes/algorithms/iterative/models/farm_wakes_calc.py | 8 +++++++-
 foxes/models/partial_wakes/axiwake.py                | 8 ++++----
 foxes/models/partial_wakes/top_hat.py                | 7 ++++---
 4 files changed, 22 insertions(+), 9 deletions(-)

diff --git a/foxes/algorithms/downwind/models/farm_wakes_calc.py b/foxes/algorithms/downwind/models/farm_wakes_calc.py
index 48b6e42..fe2cfed 100644
--- a/foxes/algorithms/downwind/models/farm_wakes_calc.py
+++ b/foxes/algorithms/downwind/models/farm_wakes_calc.py
@@ -70,7 +70,13 @@ class FarmWakesCalculation(FarmDataModel):
             pwake = algo.partial_wakes[wname]
             if pwake.name not in pwake2tdata:
                 tpoints, tweights = pwake.get_wake_points(algo, mdata, fdata)
-                pwake2tdata[pwake.name] = TData.from_tpoints(tpoints, tweights)
+                tdata = TData.from_tpoints(tpoints, tweights)
+                tdata.add(
+                    FV.D,
+                    np.broadcast_to(fdata[FV.D][:, :, None], tpoints.shape[:3]),
+                    (FC.STATE, FC.TARGET, FC.TPOINT),
+                )
+                pwake2tdata[pwake.name] = tdata
 
         def _get_wdata(tdatap, wdeltas, variables, s):
             """Helper function for wake data extraction"""
diff --git a/foxes/algorithms/iterative/models/farm_wakes_calc.py b/foxes/algorithms/iterative/models/farm_wakes_calc.py
index 3d85c90..ff97607 100644
--- a/foxes/algorithms/iterative/models/farm_wakes_calc.py
+++ b/foxes/algorithms/iterative/models/farm_wakes_calc.py
@@ -100,7 +100,13 @@ class FarmWakesCalculation(FarmDataModel):
             pwake = algo.partial_wakes[wname]
             if pwake.name not in pwake2tdata:
                 tpoints, tweights = pwake.get_wake_points(algo, mdata, fdata)
-                pwake2tdata[pwake.name] = TData.from_tpoints(tpoints, tweights)
+                tdata = TData.from_tpoints(tpoints, tweights)
+                tdata.add(
+                    FV.D,
+                    np.broadcast_to(fdata[FV.D][:, :, None], tpoints.shape[:3]),
+                    (FC.STATE, FC.TARGET, FC.TPOINT),
+                )
+                pwake2tdata[pwake.name] = tdata
 
         def _get_wdata(tdatap, wdeltas, variables, s):
             """Helper function for wake data extraction"""
diff --git a/foxes/models/partial_wakes/axiwake.py b/foxes/models/partial_wakes/axiwake.py
index 04e7790..77ee49f 100644
--- a/foxes/models/partial_wakes/axiwake.py
+++ b/foxes/models/partial_wakes/axiwake.py
@@ -112,17 +112,17 @@ class PartialAxiwake(PartialCentre):
         n_states = mdata.n_states
         n_targets = tdata.n_targets
 
-        # get D:
+        # get D of the target rotors:
         D = self.get_data(
             FV.D,
-            FC.STATE_TARGET,
-            lookup="w",
+            FC.STATE_TARGET_TPOINT,
+            lookup="tw",
             algo=algo,
             fdata=fdata,
             tdata=tdata,
             downwind_index=downwind_index,
             upcast=True,
-        )
+        )[:, :, 0]
 
         # calc coordinates to rotor centres:
         wcoos = algo.wake_frame.get_wake_coos(algo, mdata, fdata, tdata, downwind_index)
diff --git a/foxes/models/partial_wakes/top_hat.py b/foxes/models/partial_wakes/top_hat.py
index a48c050..ed409fc 100644
--- a/foxes/models/partial_wakes/top_hat.py
+++ b/foxes/models/partial_wakes/top_hat.py
@@ -153,16 +153,17 @@ class PartialTopHat(PartialCentre):
             R = np.linalg.norm(yz, axis=-1)
             del yz
 
+            # get D of the target rotors:
             D = self.get_data(
                 FV.D,
-                FC.STATE_TARGET,
-                lookup="w",
+                FC.STATE_TARGET_TPOINT,
+                lookup="tw",
                 fdata=fdata,
                 tdata=tdata,
                 downwind_index=downwind_index,
                 algo=algo,
                 upcast=True,
-            )
+            )[:, :, 0]
 
             wr = wmodel.calc_wake_radius(
                 algo, mdata, fdata, tdata, downwind_index, x, ct
-- 
2.43.0


From 34d704c2084f4ddad67718e0de8ae01d43b49120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:48 +0000
Subject: [PATCH 019/150] fix: turbines do not share the list of turbine models

---
 foxes/core/turbine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/foxes/core/turbine.py b/foxes/core/turbine.py
index b1ad99a..2d49cbd 100644
--- a/foxes/core/turbine.py
+++ b/foxes/core/turbine.py
@@ -71,7 +71,7 @@ class Turbine:
         self.index = index
         self.name = name
         self.xy = np.array(xy)
-        self.models = turbine_models
+        self.models = list(turbine_models)
         self.D = D
         self.H = H
 
-- 
2.43.0


From 8a1c069beb1c9de436c5ac1f21919f524416c68d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:18 +0000
Subject: [PATCH 020/150] fix: x bounds of the data selection in FieldDataNC

---
 foxes/input/states/field_data_nc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/foxes/input/states/field_data_nc.py b/foxes/input/states/field_data_nc.py
index 8a1b3bc..b426cf4 100644
--- a/foxes/input/states/field_data_nc.py
+++ b/foxes/input/states/field_data_nc.py
@@ -387,7 +387,7 @@ class FieldDataNC(States):
                     )
                 self.sel.update(
                     {
-                        self.x_coord: slice(xy_min[0], xy_max[1]),
+                        self.x_coord: slice(xy_min[0], xy_max[0]),
                         self.y_coord: slice(xy_min[1], xy_max[1]),
                     }
                 )
-- 
2.43.0


From a1b6c32c2205d072886da6c4871c791d9b2b7f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:44 +0000
Subject: [PATCH 021/150] fix: nominal power from power curves is in units of
 the curve

---
 foxes/models/turbine_types/PCt_file.py     | 3 +--
 foxes/models/turbine_types/PCt_from_two.py | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/foxes/models/turbine_types/PCt_file.py b/foxes/models/turbine_types/PCt_file.py
index 2b89a39..9f3e6ea 100644
--- a/foxes/models/turbine_types/PCt_file.py
+++ b/foxes/models/turbine_types/PCt_file.py
@@ -7,7 +7,6 @@ from foxes.utils import PandasFileHelper
 from foxes.data import PCTCURVE, parse_Pct_file_name
 from foxes.config import get_input_path
 import foxes.variables as FV
-import foxes.constants as FC
 
 
 class PCtFile(TurbineType):
@@ -191,7 +190,7 @@ class PCtFile(TurbineType):
         self.data_ct = data[self.col_ct].to_numpy()
 
         if self.P_nominal is None:
-            self.P_nominal = np.max(self.data_P) / FC.P_UNITS[self.P_unit]
+            self.P_nominal = np.max(self.data_P)
             if verbosity > 0:
                 print(
                     f"Turbine type '{self.name}': Setting P_nominal = {self.P_nominal:.2f} {self.P_unit}"
diff --git a/foxes/models/turbine_types/PCt_from_two.py b/foxes/models/turbine_types/PCt_from_two.py
index 14cb92a..3c9458e 100644
--- a/foxes/models/turbine_types/PCt_from_two.py
+++ b/foxes/models/turbine_types/PCt_from_two.py
@@ -6,7 +6,6 @@ from foxes.utils import PandasFileHelper
 from foxes.data import PCTCURVE, parse_Pct_two_files
 from foxes.config import get_input_path
 import foxes.variables as FV
-import foxes.constants as FC
 
 
 class PCtFromTwo(TurbineType):
@@ -222,7 +221,7 @@ class PCtFromTwo(TurbineType):
         self._data_ct = self._data_ct[self.col_ct].to_numpy()
 
         if self.P_nominal is None:
-            self.P_nominal = np.max(self._data_P) / FC.P_UNITS[self.P_unit]
+            self.P_nominal = np.max(self._data_P)
             if verbosity > 0:
                 print(
                     f"Turbine type '{self.name}': Setting P_nominal = {self.P_nominal:.2f} {self.P_unit}"
-- 
2.43.0


From 88fda4abe6bcbb89f2c4efeabc782aaa0f60255c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:44 +0000
Subject: [PATCH 022/150] fix: pass parameters to turbine types that read two
 files

---
 foxes/models/turbine_types/CpCt_from_two.py      | 1 +
 foxes/models/turbine_types/PCt_from_two.py       | 1 +
 foxes/models/turbine_types/wsrho2PCt_from_two.py | 1 +
 foxes/models/turbine_types/wsti2PCt_from_two.py  | 1 +
 4 files changed, 4 insertions(+)

diff --git a/foxes/models/turbine_types/CpCt_from_two.py b/foxes/models/turbine_types/CpCt_from_two.py
index 73c55a4..1b478fc 100644
--- a/foxes/models/turbine_types/CpCt_from_two.py
+++ b/foxes/models/turbine_types/CpCt_from_two.py
@@ -56,6 +56,7 @@ class CpCtFromTwo(PCtFromTwo):
             data_source_ct, pd.DataFrame
         ):
             pars = parse_Pct_two_files(data_source_cp, data_source_ct)
+            pars.update(parameters)
             path_cp = get_input_path(data_source_cp)
             path_ct = get_input_path(data_source_ct)
             data_cp = PandasFileHelper.read_file(path_cp, **pd_file_read_pars_cp)
diff --git a/foxes/models/turbine_types/PCt_from_two.py b/foxes/models/turbine_types/PCt_from_two.py
index 3c9458e..0124822 100644
--- a/foxes/models/turbine_types/PCt_from_two.py
+++ b/foxes/models/turbine_types/PCt_from_two.py
@@ -98,6 +98,7 @@ class PCtFromTwo(TurbineType):
             data_source_ct, pd.DataFrame
         ):
             pars = parse_Pct_two_files(data_source_P, data_source_ct)
+            pars.update(parameters)
         else:
             pars = parameters
         super().__init__(**pars)
diff --git a/foxes/models/turbine_types/wsrho2PCt_from_two.py b/foxes/models/turbine_types/wsrho2PCt_from_two.py
index b69611f..452c67f 100644
--- a/foxes/models/turbine_types/wsrho2PCt_from_two.py
+++ b/foxes/models/turbine_types/wsrho2PCt_from_two.py
@@ -92,6 +92,7 @@ class WsRho2PCtFromTwo(TurbineType):
             data_source_ct, pd.DataFrame
         ):
             pars = parse_Pct_two_files(data_source_P, data_source_ct)
+            pars.update(parameters)
         else:
             pars = parameters
         super().__init__(**pars)
diff --git a/foxes/models/turbine_types/wsti2PCt_from_two.py b/foxes/models/turbine_types/wsti2PCt_from_two.py
index e2c42f7..8ac3072 100644
--- a/foxes/models/turbine_types/wsti2PCt_from_two.py
+++ b/foxes/models/turbine_types/wsti2PCt_from_two.py
@@ -99,6 +99,7 @@ class WsTI2PCtFromTwo(TurbineType):
             data_source_ct, pd.DataFrame
         ):
             pars = parse_Pct_two_files(data_source_P, data_source_ct)
+            pars.update(parameters)
         else:
             pars = parameters
         super().__init__(**pars)
-- 
2.43.0


From e9065ac12d99c10e54f1ea433573968656b17dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:44 +0000
Subject: [PATCH 023/150] fix: direction of the air density correction of
 turbine types

---
 foxes/models/turbine_types/PCt_file.py          | 4 ++--
 foxes/models/turbine_types/PCt_from_two.py      | 4 ++--
 foxes/models/turbine_types/lookup.py            | 2 +-
 foxes/models/turbine_types/wsti2PCt_from_two.py | 4 ++--
 4 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/foxes/models/turbine_types/PCt_file.py b/foxes/models/turbine_types/PCt_file.py
index 9f3e6ea..0c13a3d 100644
--- a/foxes/models/turbine_types/PCt_file.py
+++ b/foxes/models/turbine_types/PCt_file.py
@@ -310,8 +310,8 @@ class PCtFile(TurbineType):
             # that in the partial load region the
             # correct value is reconstructed:
             rho = fdata[FV.RHO][st_sel]
-            # rews2 *= (self.rho / rho) ** 0.5
-            rews3 *= (self.rho / rho) ** (1.0 / 3.0)
+            # rews2 *= (rho / self.rho) ** 0.5
+            rews3 *= (rho / self.rho) ** (1.0 / 3.0)
             del rho
 
         # in yawed case, calc yaw corrected wind speed:
diff --git a/foxes/models/turbine_types/PCt_from_two.py b/foxes/models/turbine_types/PCt_from_two.py
index 0124822..8308eda 100644
--- a/foxes/models/turbine_types/PCt_from_two.py
+++ b/foxes/models/turbine_types/PCt_from_two.py
@@ -356,8 +356,8 @@ class PCtFromTwo(TurbineType):
             # that in the partial load region the
             # correct value is reconstructed:
             rho = fdata[FV.RHO][st_sel]
-            # rews2 *= (self.rho / rho) ** 0.5
-            rews3 *= (self.rho / rho) ** (1.0 / 3.0)
+            # rews2 *= (rho / self.rho) ** 0.5
+            rews3 *= (rho / self.rho) ** (1.0 / 3.0)
             del rho
 
         # in yawed case, calc yaw corrected wind speed:
diff --git a/foxes/models/turbine_types/lookup.py b/foxes/models/turbine_types/lookup.py
index 2d73723..df8a0c8 100644
--- a/foxes/models/turbine_types/lookup.py
+++ b/foxes/models/turbine_types/lookup.py
@@ -279,7 +279,7 @@ class FromLookupTable(TurbineType):
             # that in the partial load region the
             # correct value is reconstructed:
             rho = fdata[FV.RHO][st_sel]
-            rews3[st_sel] *= (self.rho / rho) ** (1.0 / 3.0)
+            rews3[st_sel] *= (rho / self.rho) ** (1.0 / 3.0)
             del rho
 
         # in yawed case, calc yaw corrected wind speed:
diff --git a/foxes/models/turbine_types/wsti2PCt_from_two.py b/foxes/models/turbine_types/wsti2PCt_from_two.py
index 8ac3072..555d2b8 100644
--- a/foxes/models/turbine_types/wsti2PCt_from_two.py
+++ b/foxes/models/turbine_types/wsti2PCt_from_two.py
@@ -298,7 +298,7 @@ class WsTI2PCtFromTwo(TurbineType):
                 # that in the partial load region the
                 # correct value is reconstructed:
                 rho = fdata[FV.RHO][st_sel]
-                qts[:, 0] *= (self.rho / rho) ** (1.0 / 3.0)
+                qts[:, 0] *= (rho / self.rho) ** (1.0 / 3.0)
                 del rho
 
             # apply yaw corrections:
@@ -347,7 +347,7 @@ class WsTI2PCtFromTwo(TurbineType):
                 # that in the partial load region the
                 # correct value is reconstructed:
                 rho = fdata[FV.RHO][st_sel]
-                qts[:, 0] *= (self.rho / rho) ** 0.5
+                qts[:, 0] *= (rho / self.rho) ** 0.5
                 del rho
 
             # apply yaw corrections:
-- 
2.43.0


From 12981c74d1ffd0d7743bbb538fb216c2cb728862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:12 +0000
Subject: [PATCH 024/150] fix: provide ct data to turbine type CpCtFile

---
 foxes/models/turbine_types/CpCt_file.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/foxes/models/turbine_types/CpCt_file.py b/foxes/models/turbine_types/CpCt_file.py
index 6f4b959..0cf71c0 100644
--- a/foxes/models/turbine_types/CpCt_file.py
+++ b/foxes/models/turbine_types/CpCt_file.py
@@ -59,6 +59,8 @@ class CpCtFile(PCtFile):
         A = np.pi * (D / 2) ** 2
         ws = data[col_ws].to_numpy()
         cp = data[col_cp].to_numpy()
+        col_ct = pars.pop("col_ct", "ct")
+        ct = data[col_ct].to_numpy()
         P_unit = pars.pop("P_unit", FC.kW)
 
         ws_delta = 0.0001
@@ -73,4 +75,14 @@ class CpCtFile(PCtFile):
             0.5 * rho * A * data_P["cp"] * data_P["ws"] ** 3 / FC.P_UNITS[P_unit]
         )
 
-        super().__init__(data_P, col_ws="ws", col_P="P", rho=rho, P_unit=P_unit, **pars)
+        data_P[col_ct] = np.interp(data_P["ws"], ws, ct, left=0, right=0)
+
+        super().__init__(
+            data_P,
+            col_ws="ws",
+            col_P="P",
+            col_ct=col_ct,
+            rho=rho,
+            P_unit=P_unit,
+            **pars,
+        )
-- 
2.43.0


From fb13fd87cc6f990ba6e7d730586fa20a45d24b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:12 +0000
Subject: [PATCH 025/150] fix: selections and wind speed range of the
 two-dimensional turbine type tables

---
 .../turbine_types/wsrho2PCt_from_two.py       | 111 ++++++-------
 .../models/turbine_types/wsti2PCt_from_two.py | 147 ++++++++----------
 2 files changed, 114 insertions(+), 144 deletions(-)

diff --git a/foxes/models/turbine_types/wsrho2PCt_from_two.py b/foxes/models/turbine_types/wsrho2PCt_from_two.py
index 452c67f..9e24a5c 100644
--- a/foxes/models/turbine_types/wsrho2PCt_from_two.py
+++ b/foxes/models/turbine_types/wsrho2PCt_from_two.py
@@ -265,83 +265,68 @@ class WsRho2PCtFromTwo(TurbineType):
         """
 
         # calculate P:
-        st_sel_P = (
-            st_sel
-            & (fdata[self.WSP] >= self._ws_P[0])
-            & (fdata[self.WSP] <= self._ws_P[-1])
-        )
-        st_sel_P0 = st_sel & ~st_sel_P
-        if np.any(st_sel_P0):
-            fdata[FV.P][st_sel_P0] = 0
-        if np.any(st_sel_P):
-            # prepare interpolation:
-            n_sel = np.sum(st_sel_P)
-            qts = np.zeros((n_sel, 2), dtype=config.dtype_double)  # ws, rho
-            qts[:, 0] = fdata[self.WSP][st_sel_P]
-            qts[:, 1] = fdata[FV.RHO][st_sel_P]
-
-            # apply yaw corrections:
-            if FV.YAWM in fdata and self.p_P is not None:
-                # calculate corrected wind speed wsc,
-                # gives ws**3 * cos**p_P in partial load region
-                # and smoothly deals with full load region:
-                yawm = fdata[FV.YAWM][st_sel_P]
-                if np.any(np.isnan(yawm)):
-                    raise ValueError(
-                        f"{self.name}: Found NaN values for variable '{FV.YAWM}'. Maybe change order in turbine_models?"
-                    )
-                cosm = np.cos(yawm / 180 * np.pi)
-                qts[:, 0] *= (cosm**self.p_P) ** (1.0 / 3.0)
-                del yawm, cosm
-
-            # run interpolation:
+        ws = fdata[self.WSP][st_sel].copy()
+        rho = fdata[FV.RHO][st_sel]
+
+        # apply yaw corrections:
+        if FV.YAWM in fdata and self.p_P is not None:
+            # calculate corrected wind speed wsc,
+            # gives ws**3 * cos**p_P in partial load region
+            # and smoothly deals with full load region:
+            yawm = fdata[FV.YAWM][st_sel]
+            if np.any(np.isnan(yawm)):
+                raise ValueError(
+                    f"{self.name}: Found NaN values for variable '{FV.YAWM}'. Maybe change order in turbine_models?"
+                )
+            cosm = np.cos(yawm / 180 * np.pi)
+            ws *= (cosm**self.p_P) ** (1.0 / 3.0)
+            del yawm, cosm
+
+        # run interpolation, zero outside of the wind speed range:
+        data = np.zeros_like(ws)
+        sel = (ws >= self._ws_P[0]) & (ws <= self._ws_P[-1])
+        if np.any(sel):
+            qts = np.stack([ws[sel], rho[sel]], axis=-1)  # ws, rho
             try:
-                fdata[FV.P][st_sel_P] = interpn(
+                data[sel] = interpn(
                     (self._ws_P, self._rho_P), self._P, qts, **self.ipars_P
                 )
             except ValueError as e:
                 self._bounds_info(FV.P, qts)
                 raise e
-        del st_sel_P, st_sel_P0
+        fdata[FV.P][st_sel] = data
 
         # calculate ct:
-        st_sel_ct = (
-            st_sel
-            & (fdata[self.WSCT] >= self._ws_P[0])
-            & (fdata[self.WSCT] <= self._ws_P[-1])
-        )
-        st_sel_ct0 = st_sel & ~st_sel_ct
-        if np.any(st_sel_ct0):
-            fdata[FV.CT][st_sel_ct0] = 0
-        if np.any(st_sel_ct):
-            # prepare interpolation:
-            n_sel = np.sum(st_sel_ct)
-            qts = np.zeros((n_sel, 2), dtype=config.dtype_double)  # ws, rho
-            qts[:, 0] = fdata[self.WSP][st_sel_ct]
-            qts[:, 1] = fdata[FV.RHO][st_sel_ct]
-
-            # apply yaw corrections:
-            if FV.YAWM in fdata and self.p_ct is not None:
-                # calculate corrected wind speed wsc,
-                # gives ws**3 * cos**p_P in partial load region
-                # and smoothly deals with full load region:
-                yawm = fdata[FV.YAWM][st_sel_ct]
-                if np.any(np.isnan(yawm)):
-                    raise ValueError(
-                        f"{self.name}: Found NaN values for variable '{FV.YAWM}'. Maybe change order in turbine_models?"
-                    )
-                cosm = np.cos(yawm / 180 * np.pi)
-                qts[:, 0] *= (cosm**self.p_ct) ** 0.5
-                del yawm, cosm
-
-            # run interpolation:
+        ws = fdata[self.WSCT][st_sel].copy()
+        rho = fdata[FV.RHO][st_sel]
+
+        # apply yaw corrections:
+        if FV.YAWM in fdata and self.p_ct is not None:
+            # calculate corrected wind speed wsc,
+            # gives ws**3 * cos**p_P in partial load region
+            # and smoothly deals with full load region:
+            yawm = fdata[FV.YAWM][st_sel]
+            if np.any(np.isnan(yawm)):
+                raise ValueError(
+                    f"{self.name}: Found NaN values for variable '{FV.YAWM}'. Maybe change order in turbine_models?"
+                )
+            cosm = np.cos(yawm / 180 * np.pi)
+            ws *= (cosm**self.p_ct) ** 0.5
+            del yawm, cosm
+
+        # run interpolation, zero outside of the wind speed range:
+        data = np.zeros_like(ws)
+        sel = (ws >= self._ws_ct[0]) & (ws <= self._ws_ct[-1])
+        if np.any(sel):
+            qts = np.stack([ws[sel], rho[sel]], axis=-1)  # ws, rho
             try:
-                fdata[FV.CT][st_sel_ct] = interpn(
+                data[sel] = interpn(
                     (self._ws_ct, self._rho_ct), self._ct, qts, **self.ipars_ct
                 )
             except ValueError as e:
                 self._bounds_info(FV.CT, qts)
                 raise e
+        fdata[FV.CT][st_sel] = data
 
         return {v: fdata[v] for v in self.output_farm_vars(algo)}
 
diff --git a/foxes/models/turbine_types/wsti2PCt_from_two.py b/foxes/models/turbine_types/wsti2PCt_from_two.py
index 555d2b8..1e76643 100644
--- a/foxes/models/turbine_types/wsti2PCt_from_two.py
+++ b/foxes/models/turbine_types/wsti2PCt_from_two.py
@@ -277,101 +277,86 @@ class WsTI2PCtFromTwo(TurbineType):
         """
 
         # calculate P:
-        st_sel_P = (
-            st_sel
-            & (fdata[self.WSP] >= self._ws_P[0])
-            & (fdata[self.WSP] <= self._ws_P[-1])
-        )
-        st_sel_P0 = st_sel & ~st_sel_P
-        if np.any(st_sel_P0):
-            fdata[FV.P][st_sel_P0] = 0
-        if np.any(st_sel_P):
-            # prepare interpolation:
-            n_sel = np.sum(st_sel_P)
-            qts = np.zeros((n_sel, 2), dtype=config.dtype_double)  # ws, ti
-            qts[:, 0] = fdata[self.WSP][st_sel_P]
-            qts[:, 1] = fdata[FV.TI][st_sel_P]
-
-            # apply air density correction:
-            if self.rho is not None:
-                # correct wind speed by air density, such
-                # that in the partial load region the
-                # correct value is reconstructed:
-                rho = fdata[FV.RHO][st_sel]
-                qts[:, 0] *= (rho / self.rho) ** (1.0 / 3.0)
-                del rho
-
-            # apply yaw corrections:
-            if FV.YAWM in fdata and self.p_P is not None:
-                # calculate corrected wind speed wsc,
-                # gives ws**3 * cos**p_P in partial load region
-                # and smoothly deals with full load region:
-                yawm = fdata[FV.YAWM][st_sel_P]
-                if np.any(np.isnan(yawm)):
-                    raise ValueError(
-                        f"{self.name}: Found NaN values for variable '{FV.YAWM}'. Maybe change order in turbine_models?"
-                    )
-                cosm = np.cos(yawm / 180 * np.pi)
-                qts[:, 0] *= (cosm**self.p_P) ** (1.0 / 3.0)
-                del yawm, cosm
-
-            # run interpolation:
+        ws = fdata[self.WSP][st_sel].copy()
+        ti = fdata[FV.TI][st_sel]
+
+        # apply air density correction:
+        if self.rho is not None:
+            # correct wind speed by air density, such
+            # that in the partial load region the
+            # correct value is reconstructed:
+            rho = fdata[FV.RHO][st_sel]
+            ws *= (rho / self.rho) ** (1.0 / 3.0)
+            del rho
+
+        # apply yaw corrections:
+        if FV.YAWM in fdata and self.p_P is not None:
+            # calculate corrected wind speed wsc,
+            # gives ws**3 * cos**p_P in partial load region
+            # and smoothly deals with full load region:
+            yawm = fdata[FV.YAWM][st_sel]
+            if np.any(np.isnan(yawm)):
+                raise ValueError(
+                    f"{self.name}: Found NaN values for variable '{FV.YAWM}'. Maybe change order in turbine_models?"
+                )
+            cosm = np.cos(yawm / 180 * np.pi)
+            ws *= (cosm**self.p_P) ** (1.0 / 3.0)
+            del yawm, cosm
+
+        # run interpolation, zero outside of the wind speed range:
+        data = np.zeros_like(ws)
+        sel = (ws >= self._ws_P[0]) & (ws <= self._ws_P[-1])
+        if np.any(sel):
+            qts = np.stack([ws[sel], ti[sel]], axis=-1)  # ws, ti
             try:
-                fdata[FV.P][st_sel_P] = interpn(
+                data[sel] = interpn(
                     (self._ws_P, self._ti_P), self._P, qts, **self.ipars_P
                 )
             except ValueError as e:
                 self._bounds_info(FV.P, qts)
                 raise e
-        del st_sel_P, st_sel_P0
+        fdata[FV.P][st_sel] = data
 
         # calculate ct:
-        st_sel_ct = (
-            st_sel
-            & (fdata[self.WSCT] >= self._ws_P[0])
-            & (fdata[self.WSCT] <= self._ws_P[-1])
-        )
-        st_sel_ct0 = st_sel & ~st_sel_ct
-        if np.any(st_sel_ct0):
-            fdata[FV.CT][st_sel_ct0] = 0
-        if np.any(st_sel_ct):
-            # prepare interpolation:
-            n_sel = np.sum(st_sel_ct)
-            qts = np.zeros((n_sel, 2), dtype=config.dtype_double)  # ws, ti
-            qts[:, 0] = fdata[self.WSP][st_sel_ct]
-            qts[:, 1] = fdata[FV.TI][st_sel_ct]
-
-            # apply air density correction:
-            if self.rho is not None:
-                # correct wind speed by air density, such
-                # that in the partial load region the
-                # correct value is reconstructed:
-                rho = fdata[FV.RHO][st_sel]
-                qts[:, 0] *= (rho / self.rho) ** 0.5
-                del rho
-
-            # apply yaw corrections:
-            if FV.YAWM in fdata and self.p_ct is not None:
-                # calculate corrected wind speed wsc,
-                # gives ws**3 * cos**p_P in partial load region
-                # and smoothly deals with full load region:
-                yawm = fdata[FV.YAWM][st_sel_ct]
-                if np.any(np.isnan(yawm)):
-                    raise ValueError(
-                        f"{self.name}: Found NaN values for variable '{FV.YAWM}'. Maybe change order in turbine_models?"
-                    )
-                cosm = np.cos(yawm / 180 * np.pi)
-                qts[:, 0] *= (cosm**self.p_ct) ** 0.5
-                del yawm, cosm
-
-            # run interpolation:
+        ws = fdata[self.WSCT][st_sel].copy()
+        ti = fdata[FV.TI][st_sel]
+
+        # apply air density correction:
+        if self.rho is not None:
+            # correct wind speed by air density, such
+            # that in the partial load region the
+            # correct value is reconstructed:
+            rho = fdata[FV.RHO][st_sel]
+            ws *= (rho / self.rho) ** 0.5
+            del rho
+
+        # apply yaw corrections:
+        if FV.YAWM in fdata and self.p_ct is not None:
+            # calculate corrected wind speed wsc,
+            # gives ws**3 * cos**p_P in partial load region
+            # and smoothly deals with full load region:
+            yawm = fdata[FV.YAWM][st_sel]
+            if np.any(np.isnan(yawm)):
+                raise ValueError(
+                    f"{self.name}: Found NaN values for variable '{FV.YAWM}'. Maybe change order in turbine_models?"
+                )
+            cosm = np.cos(yawm / 180 * np.pi)
+            ws *= (cosm**self.p_ct) ** 0.5
+            del yawm, cosm
+
+        # run interpolation, zero outside of the wind speed range:
+        data = np.zeros_like(ws)
+        sel = (ws >= self._ws_ct[0]) & (ws <= self._ws_ct[-1])
+        if np.any(sel):
+            qts = np.stack([ws[sel], ti[sel]], axis=-1)  # ws, ti
             try:
-                fdata[FV.CT][st_sel_ct] = interpn(
+                data[sel] = interpn(
                     (self._ws_ct, self._ti_ct), self._ct, qts, **self.ipars_ct
                 )
             except ValueError as e:
                 self._bounds_info(FV.CT, qts)
                 raise e
+        fdata[FV.CT][st_sel] = data
 
         return {v: fdata[v] for v in self.output_farm_vars(algo)}
 
-- 
2.43.0


From 77df3d492ce71e8029bdccc4bd7b49aec1c41574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:12 +0000
Subject: [PATCH 026/150] fix: do not modify the user's data frames in turbine
 tables

---
 foxes/models/turbine_models/lookup_table.py      | 2 +-
 foxes/models/turbine_types/wsrho2PCt_from_two.py | 4 ++--
 foxes/models/turbine_types/wsti2PCt_from_two.py  | 4 ++--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/foxes/models/turbine_models/lookup_table.py b/foxes/models/turbine_models/lookup_table.py
index 5ae07d9..6bc40ed 100644
--- a/foxes/models/turbine_models/lookup_table.py
+++ b/foxes/models/turbine_models/lookup_table.py
@@ -138,7 +138,7 @@ class LookupTable(TurbineModel):
             if len(self.varmap):
                 data = data.rename(columns={c: v for v, c in self.varmap.items()})
             data = data[self.input_vars + self.output_vars]
-            data.sort_values(by=self.input_vars, inplace=True)
+            data = data.sort_values(by=self.input_vars)
             coords = {
                 v: np.asarray(data[v].unique(), dtype=config.dtype_double)
                 for v in self.input_vars
diff --git a/foxes/models/turbine_types/wsrho2PCt_from_two.py b/foxes/models/turbine_types/wsrho2PCt_from_two.py
index 9e24a5c..960e3ce 100644
--- a/foxes/models/turbine_types/wsrho2PCt_from_two.py
+++ b/foxes/models/turbine_types/wsrho2PCt_from_two.py
@@ -193,7 +193,7 @@ class WsRho2PCtFromTwo(TurbineType):
             pars.update(self.rpars_P)
             data = PandasFileHelper.read_file(fpath, **pars)
 
-        data.sort_index(inplace=True)
+        data = data.sort_index()
         data.columns = data.columns.astype(config.dtype_double)
         self._ws_P = data.index.to_numpy(config.dtype_double)
         self._rho_P = np.sort(data.columns.to_numpy())
@@ -212,7 +212,7 @@ class WsRho2PCtFromTwo(TurbineType):
             pars.update(self.rpars_ct)
             data = PandasFileHelper.read_file(fpath, **pars)
 
-        data.sort_index(inplace=True)
+        data = data.sort_index()
         data.columns = data.columns.astype(config.dtype_double)
         self._ws_ct = data.index.to_numpy(config.dtype_double)
         self._rho_ct = np.sort(data.columns.to_numpy())
diff --git a/foxes/models/turbine_types/wsti2PCt_from_two.py b/foxes/models/turbine_types/wsti2PCt_from_two.py
index 1e76643..58a786e 100644
--- a/foxes/models/turbine_types/wsti2PCt_from_two.py
+++ b/foxes/models/turbine_types/wsti2PCt_from_two.py
@@ -205,7 +205,7 @@ class WsTI2PCtFromTwo(TurbineType):
             pars.update(self.rpars_P)
             data = PandasFileHelper.read_file(fpath, **pars)
 
-        data.sort_index(inplace=True)
+        data = data.sort_index()
         data.columns = data.columns.astype(config.dtype_double)
         self._ws_P = data.index.to_numpy(config.dtype_double)
         self._ti_P = np.sort(data.columns.to_numpy())
@@ -224,7 +224,7 @@ class WsTI2PCtFromTwo(TurbineType):
             pars.update(self.rpars_ct)
             data = PandasFileHelper.read_file(fpath, **pars)
 
-        data.sort_index(inplace=True)
+        data = data.sort_index()
         data.columns = data.columns.astype(config.dtype_double)
         self._ws_ct = data.index.to_numpy(config.dtype_double)
         self._ti_ct = np.sort(data.columns.to_numpy())
-- 
2.43.0


From 9e3eb68989db92ddf957235edcf7b4957e65d514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:12 +0000
Subject: [PATCH 027/150] fix: selections other than boolean arrays in
 TableFactors

---
 foxes/models/turbine_models/table_factors.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/foxes/models/turbine_models/table_factors.py b/foxes/models/turbine_models/table_factors.py
index d9b235d..181d355 100644
--- a/foxes/models/turbine_models/table_factors.py
+++ b/foxes/models/turbine_models/table_factors.py
@@ -143,10 +143,9 @@ class TableFactors(TurbineModel):
             Values: numpy.ndarray with shape (n_states, n_turbines)
 
         """
-        n_sel = np.sum(st_sel)
-        qts = np.zeros((n_sel, 2), dtype=config.dtype_double)
-        qts[:, 0] = fdata[self.row_var][st_sel]
-        qts[:, 1] = fdata[self.col_var][st_sel]
+        qts = np.stack(
+            [fdata[self.row_var][st_sel], fdata[self.col_var][st_sel]], axis=-1
+        )
 
         try:
             factors = interpn(
@@ -158,7 +157,7 @@ class TableFactors(TurbineModel):
                 f"DATA BOUNDS: ({np.min(self._rvals)}, {np.min(self._cvals)}) -- ({np.max(self._rvals)}, {np.max(self._cvals)})"
             )
             print(
-                f"VALUE BOUNDS: ({np.min(qts[:, 0]):.4f}, {np.min(qts[:, 1]):.4f}) -- ({np.max(qts[:, 0]):.4f}, {np.max(qts[:, 1]):.4f})\n"
+                f"VALUE BOUNDS: ({np.min(qts[..., 0]):.4f}, {np.min(qts[..., 1]):.4f}) -- ({np.max(qts[..., 0]):.4f}, {np.max(qts[..., 1]):.4f})\n"
             )
             raise e
 
-- 
2.43.0


From f3f22e4d024873369949cc8d78f013b9fa18002b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:46 +0000
Subject: [PATCH 028/150] fix: thrust coefficients of lookup table turbine
 types with different wind speed variables

---
 foxes/models/turbine_types/lookup.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/foxes/models/turbine_types/lookup.py b/foxes/models/turbine_types/lookup.py
index df8a0c8..ba26c52 100644
--- a/foxes/models/turbine_types/lookup.py
+++ b/foxes/models/turbine_types/lookup.py
@@ -308,7 +308,7 @@ class FromLookupTable(TurbineType):
             out = self._lookup.calculate(algo, mdata, fdata_lookup, st_sel)
         else:
             fdata_lookup[FV.REWS] = rews2
-            ct = self._lookup.calculate(algo, mdata, fdata_lookup, st_sel)[FV.CT]
+            ct = self._lookup.calculate(algo, mdata, fdata_lookup, st_sel)[FV.CT].copy()
             fdata_lookup[FV.REWS] = rews3
             out = self._lookup.calculate(algo, mdata, fdata_lookup, st_sel)
             out[FV.CT] = ct
-- 
2.43.0


From 13a58f6fb6c25c318b03d8aaf76c97a33b9292c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:46 +0000
Subject: [PATCH 029/150] fix: empty selections in LookupTable

---
 foxes/models/turbine_models/lookup_table.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/foxes/models/turbine_models/lookup_table.py b/foxes/models/turbine_models/lookup_table.py
index 6bc40ed..b5d5bbe 100644
--- a/foxes/models/turbine_models/lookup_table.py
+++ b/foxes/models/turbine_models/lookup_table.py
@@ -189,6 +189,10 @@ class LookupTable(TurbineModel):
             Values: numpy.ndarray with shape (n_states, n_turbines)
 
         """
+        out = {v: fdata[v] for v in self.output_vars}
+        if any(out[v][st_sel].size == 0 for v in self.output_vars):
+            return out
+
         data = {
             v: self.get_data(
                 v,
@@ -236,9 +240,7 @@ class LookupTable(TurbineModel):
             )
             raise e
 
-        out = {}
         for v in self.output_vars:
-            out[v] = fdata[v]
             out[v][st_sel] = odata[v]
 
         return out
-- 
2.43.0


From 9e6286d235e7971301646a2f728b631aa51e33ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:31 +0000
Subject: [PATCH 030/150] fix: use ti_val in turbine model kTI

---
 foxes/models/turbine_models/kTI_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/foxes/models/turbine_models/kTI_model.py b/foxes/models/turbine_models/kTI_model.py
index ed93057..cbc1c05 100644
--- a/foxes/models/turbine_models/kTI_model.py
+++ b/foxes/models/turbine_models/kTI_model.py
@@ -122,7 +122,7 @@ class kTI(TurbineModel):
         ti = self.get_data(
             self.ti_var,
             FC.STATE_TURBINE,
-            lookup="f",
+            lookup="sf",
             fdata=fdata,
             upcast=False,
             selection=st_sel,
-- 
2.43.0


From 5f63ad49e98b1de85c91d409596c48b22cf2dcaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:49 +0000
Subject: [PATCH 031/150] fix: apply state-turbine selection in
 SectorManagement

---
 foxes/models/turbine_models/sector_management.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/foxes/models/turbine_models/sector_management.py b/foxes/models/turbine_models/sector_management.py
index 9f803e8..6e8c9b0 100644
--- a/foxes/models/turbine_models/sector_management.py
+++ b/foxes/models/turbine_models/sector_management.py
@@ -195,7 +195,9 @@ class SectorManagement(TurbineModel):
         tsel = fdata[FV.ORDER_INV].astype(config.dtype_int)[:, self._trbs]
 
         # find state-turbine data that matches ranges:
-        rsel = np.ones((fdata.n_states, n_trbs), dtype=bool)
+        bsel = np.zeros((fdata.n_states, fdata.n_turbines), dtype=bool)
+        bsel[st_sel] = True
+        rsel = bsel[ssel, tsel]
         for vi, v in enumerate(self._rvars):
             d = fdata[v][ssel, tsel]
             if v in self._perds:
-- 
2.43.0


From 97d462cf51722453218a8da118c5e0ee427d742a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:49 +0000
Subject: [PATCH 032/150] fix: do not modify the user's data frame in
 SectorManagement

---
 foxes/models/turbine_models/sector_management.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/foxes/models/turbine_models/sector_management.py b/foxes/models/turbine_models/sector_management.py
index 6e8c9b0..d081bd5 100644
--- a/foxes/models/turbine_models/sector_management.py
+++ b/foxes/models/turbine_models/sector_management.py
@@ -98,11 +98,11 @@ class SectorManagement(TurbineModel):
 
         if self._trbs is None:
             if self._col_i is not None and self._col_t is None:
-                data.reset_index(inplace=True)
+                data = data.reset_index()
             elif self._col_i is None and self._col_t is not None:
                 tnames = algo.farm.turbine_names
                 inds = [tnames.index(name) for name in data[self._col_t]]
-                data[FC.TURBINE] = inds
+                data = data.assign(**{FC.TURBINE: inds})
                 self._col_i = FC.TURBINE
             else:
                 raise KeyError(
-- 
2.43.0


From 5f82c7f0e86353f2041e84dd94f187501aa03387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:59 +0000
Subject: [PATCH 033/150] fix: rules for all wind directions in
 SectorManagement

---
 foxes/models/turbine_models/sector_management.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/foxes/models/turbine_models/sector_management.py b/foxes/models/turbine_models/sector_management.py
index d081bd5..54b3cbf 100644
--- a/foxes/models/turbine_models/sector_management.py
+++ b/foxes/models/turbine_models/sector_management.py
@@ -144,7 +144,9 @@ class SectorManagement(TurbineModel):
 
         for vi, v in enumerate(self._rvars):
             if v in self._perds:
+                full = self._rdata[:, vi, 1] - self._rdata[:, vi, 0] >= self._perds[v]
                 self._rdata[:, vi] = np.mod(self._rdata[:, vi], self._perds[v])
+                self._rdata[full, vi] = [0, self._perds[v]]
 
     def output_farm_vars(self, algo):
         """
-- 
2.43.0


From 911e3d0bd7e956ec4b5a0da346f7ff041a58e446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:47 +0000
Subject: [PATCH 034/150] fix: grid selection in WRGStates covers the requested
 bounds

---
 foxes/input/states/wrg_states.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/foxes/input/states/wrg_states.py b/foxes/input/states/wrg_states.py
index 08d4610..f1f0ba2 100644
--- a/foxes/input/states/wrg_states.py
+++ b/foxes/input/states/wrg_states.py
@@ -120,8 +120,10 @@ class WRGStates(States):
             )
             if verbosity > 0:
                 print(f"States '{self.name}': Farm bounds {xy_min} - {xy_max}")
-            ij_min = np.asarray((xy_min - p0) / res, dtype=config.dtype_int)
-            ij_max = np.asarray((xy_max - p0) / res, dtype=config.dtype_int) + 1
+            ij_min = np.floor((xy_min - p0) / res).astype(config.dtype_int)
+            ij_max = np.ceil((xy_max - p0) / res).astype(config.dtype_int) + 1
+            ij_min = np.maximum(ij_min, 0)
+            ij_max = np.maximum(ij_max, 0)
             sx = slice(ij_min[0], ij_max[0])
             sy = slice(ij_min[1], ij_max[1])
         else:
-- 
2.43.0


From 594e8d7a32afa2e50f1f212cf42adf97dd4f4526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:47 +0000
Subject: [PATCH 035/150] fix: sector frequencies in WRGStates are in percent

---
 foxes/input/states/wrg_states.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/foxes/input/states/wrg_states.py b/foxes/input/states/wrg_states.py
index f1f0ba2..451127b 100644
--- a/foxes/input/states/wrg_states.py
+++ b/foxes/input/states/wrg_states.py
@@ -149,7 +149,8 @@ class WRGStates(States):
         for s in range(ns):
             A.append(wrg.data[f"As_{s}"].to_numpy().reshape(ny, nx)[sy, sx])
             k.append(wrg.data[f"Ks_{s}"].to_numpy().reshape(ny, nx)[sy, sx])
-            f.append(wrg.data[f"fs_{s}"].to_numpy().reshape(ny, nx)[sy, sx])
+            # frequencies are given in percent
+            f.append(wrg.data[f"fs_{s}"].to_numpy().reshape(ny, nx)[sy, sx] / 100)
         del wrg
         A = np.stack(A, axis=0).T
         k = np.stack(k, axis=0).T
-- 
2.43.0


From 7ac20faa77ec648c9269b524bba4b69fe41be3b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:47 +0000
Subject: [PATCH 036/150] fix: variables from data attributes in multi-height
 netcdf states

---
 foxes/input/states/multi_height.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/foxes/input/states/multi_height.py b/foxes/input/states/multi_height.py
index b5d204a..420573f 100644
--- a/foxes/input/states/multi_height.py
+++ b/foxes/input/states/multi_height.py
@@ -657,7 +657,7 @@ class MultiHeightNCStates(MultiHeightStates):
                 continue
             c = self.var2col.get(v, v)
             if c in data.attrs:
-                self._solo[v] = np.full(self._N, data.attrs)
+                self._solo[v] = np.full(self._N, data.attrs[c])
             elif c in data.data_vars:
                 if data[c].dims == (self.state_coord,):
                     self._solo[v] = data.data_vars[c].to_numpy()
-- 
2.43.0


From 81779496d1aa06c87dc2b0da477eb2157dcfff11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:47 +0000
Subject: [PATCH 037/150] fix: positional parameters of TabStates

---
 foxes/input/states/states_table.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/foxes/input/states/states_table.py b/foxes/input/states/states_table.py
index 8b43c49..156caf8 100644
--- a/foxes/input/states/states_table.py
+++ b/foxes/input/states/states_table.py
@@ -502,7 +502,7 @@ class TabStates(StatesTable):
                 f"Expecting str, Path or xarray.Dataset as data_source, got {type(data_source)}"
             )
 
-        super().__init__(data_source=None, *args, **kwargs)
+        super().__init__(None, *args, **kwargs)
 
     def load_data(self, algo, verbosity=0):
         """
-- 
2.43.0


From 36c2d5c9cc0fc8dc28ea6b0b2d6d3ffddb0d18e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:47 +0000
Subject: [PATCH 038/150] fix: fixed wind speed or direction in FieldDataNC

---
 foxes/input/states/field_data_nc.py | 18 +++++-------------
 1 file changed, 5 insertions(+), 13 deletions(-)

diff --git a/foxes/input/states/field_data_nc.py b/foxes/input/states/field_data_nc.py
index b426cf4..66d9083 100644
--- a/foxes/input/states/field_data_nc.py
+++ b/foxes/input/states/field_data_nc.py
@@ -256,7 +256,7 @@ class FieldDataNC(States):
                 )
 
         data = np.zeros(
-            (n_sts, n_h, n_y, n_x, len(self.var2ncvar)), dtype=config.dtype_double
+            (n_sts, n_h, n_y, n_x, self._n_dvars), dtype=config.dtype_double
         )
         for v in vars_shyx:
             ncv = self.var2ncvar[v]
@@ -278,12 +278,9 @@ class FieldDataNC(States):
         for v in vars_s:
             ncv = self.var2ncvar[v]
             data[..., self._dkys[v]] = ds[ncv].to_numpy()[:, None, None, None]
-        if FV.WD in self.fixed_vars:
-            data[..., self._dkys[FV.WD]] = np.full(
-                (n_sts, n_h, n_y, n_x),
-                self.fixed_vars[FV.WD],
-                dtype=config.dtype_double,
-            )
+        for v in (FV.WD, FV.WS):
+            if v in self.fixed_vars and v in self._dkys:
+                data[..., self._dkys[v]] = self.fixed_vars[v]
 
         weights = None
         if self.weight_ncvar is not None:
@@ -464,7 +461,6 @@ class FieldDataNC(States):
         self._dkys = {}
         if FV.WS in self.ovars:
             self._dkys[FV.WD] = 0
-        if FV.WS in self.var2ncvar:
             self._dkys[FV.WS] = 1
         for v in self.var2ncvar:
             if v not in self._dkys:
@@ -725,11 +721,7 @@ class FieldDataNC(States):
         # translate WS, WD into U, V:
         if FV.WD in self.ovars and FV.WS in self.ovars:
             wd = data[..., self._dkys[FV.WD]]
-            ws = (
-                data[..., self._dkys[FV.WS]]
-                if FV.WS in self._dkys
-                else self.fixed_vars[FV.WS]
-            )
+            ws = data[..., self._dkys[FV.WS]]
             wdwsi = [self._dkys[FV.WD], self._dkys[FV.WS]]
             data[..., wdwsi] = wd2uv(wd, ws, axis=-1)
             del ws, wd
-- 
2.43.0


From bd8fd69ac7b9333e8ad4c18936be9a2d63a4a210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:25 +0000
Subject: [PATCH 039/150] fix: variables that come from a profile only in
 StatesTable

---
 foxes/input/states/states_table.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/foxes/input/states/states_table.py b/foxes/input/states/states_table.py
index 156caf8..ae53cb4 100644
--- a/foxes/input/states/states_table.py
+++ b/foxes/input/states/states_table.py
@@ -247,15 +247,18 @@ class StatesTable(States):
             )
 
         tcols = []
+        tvars = []
         for v in self._tvars:
             c = self.var2col.get(v, v)
             if c in data.columns:
                 tcols.append(c)
+                tvars.append(v)
             elif v not in self._profiles.keys():
                 raise KeyError(
                     f"States '{self.name}': Missing variable '{c}' in states table columns, profiles or fixed vars"
                 )
         data = data[tcols]
+        self._tvars = tvars
 
         idata = super().load_data(algo, verbosity)
         idata["coords"][self.VARS] = self._tvars
-- 
2.43.0


From 0a6c3235a36672394d478de0cbb8cfafa5d4a479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:25 +0000
Subject: [PATCH 040/150] fix: add variable TKE, as required by point model
 TKE2TI

---
 foxes/variables.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/foxes/variables.py b/foxes/variables.py
index dbfefde..e6b43ee 100644
--- a/foxes/variables.py
+++ b/foxes/variables.py
@@ -266,6 +266,11 @@ USTAR = "USTAR"
 :group: foxes.variables
 """
 
+TKE = "TKE"
+""" The turbulent kinetic energy in m2/s2
+:group: foxes.variables
+"""
+
 SHEAR = "shear"
 """ The shear exponent
 :group: foxes.variables
-- 
2.43.0


From 5573c48d9a938f3c4d36e19b3c704d3632ce8f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:25 +0000
Subject: [PATCH 041/150] fix: max_ti is an upper limit in Ustar2TI

---
 foxes/models/point_models/ustar2ti.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/foxes/models/point_models/ustar2ti.py b/foxes/models/point_models/ustar2ti.py
index c44cdb2..51a9414 100644
--- a/foxes/models/point_models/ustar2ti.py
+++ b/foxes/models/point_models/ustar2ti.py
@@ -79,6 +79,6 @@ class Ustar2TI(PointDataModel):
 
         ti = (ustar / FC.KAPPA) / ws
         if self.max_ti is not None:
-            ti = np.maximum(ti, self.max_ti)
+            ti = np.minimum(ti, self.max_ti)
 
         return {FV.TI: ti}
-- 
2.43.0


From 1988440b06d50db84488120f5aabc86966d7810f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:25 +0000
Subject: [PATCH 042/150] fix: normalized wake deltas

---
 foxes/models/point_models/wake_deltas.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/foxes/models/point_models/wake_deltas.py b/foxes/models/point_models/wake_deltas.py
index 551df49..c958b31 100644
--- a/foxes/models/point_models/wake_deltas.py
+++ b/foxes/models/point_models/wake_deltas.py
@@ -81,6 +81,6 @@ class WakeDeltas(PointDataModel):
 
         if self.normalize:
             for v in self.vars:
-                out[v] /= pdata[FV.var2amb[v]]
+                out[f"DELTA_{v}"] /= pdata[FV.var2amb[v]]
 
         return out
-- 
2.43.0


From 620369f1859925144263b6bd4fc9b8a6013361bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:25 +0000
Subject: [PATCH 043/150] fix: uniform friction velocity in ABLLogWsProfile

---
 foxes/models/vertical_profiles/abl_log_ws.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/foxes/models/vertical_profiles/abl_log_ws.py b/foxes/models/vertical_profiles/abl_log_ws.py
index a18a659..6b61817 100644
--- a/foxes/models/vertical_profiles/abl_log_ws.py
+++ b/foxes/models/vertical_profiles/abl_log_ws.py
@@ -81,7 +81,8 @@ class ABLLogWsProfile(VerticalProfile):
         mol[:] = data[FV.MOL]
 
         if self.ustar_input:
-            ustar = data[FV.USTAR]
+            ustar = np.zeros_like(heights)
+            ustar[:] = data[FV.USTAR]
         else:
             ws = np.zeros_like(heights)
             ws[:] = data[FV.WS]
-- 
2.43.0


From e795573ed76ef0469d72e1b84397fb44c73fda2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:25 +0000
Subject: [PATCH 044/150] fix: point model SetUniformData

---
 foxes/models/point_models/set_uniform_data.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/foxes/models/point_models/set_uniform_data.py b/foxes/models/point_models/set_uniform_data.py
index f371ebd..d9063e2 100644
--- a/foxes/models/point_models/set_uniform_data.py
+++ b/foxes/models/point_models/set_uniform_data.py
@@ -49,6 +49,7 @@ class SetUniformData(PointDataModel):
             pandas file reading parameters
 
         """
+        super().__init__()
         self.data_source = data_source
         self.ovars = output_vars
         self.var2col = var2col
@@ -86,7 +87,7 @@ class SetUniformData(PointDataModel):
                 [self.var2col.get(v, v) for v in self.ovars]
             ].to_numpy(config.dtype_double)
         elif isinstance(self.data_source, dict):
-            pass
+            data = None
         else:
             if verbosity:
                 print(f"States '{self.name}': Reading file {self.data_source}")
@@ -98,8 +99,9 @@ class SetUniformData(PointDataModel):
             )
 
         idata = super().load_data(algo, verbosity)
-        idata["coords"][self.VARS] = self.ovars
-        idata["data_vars"][self.DATA] = ((FC.STATE, self.VARS), data)
+        if data is not None:
+            idata["coords"][self.VARS] = self.ovars
+            idata["data_vars"][self.DATA] = ((FC.STATE, self.VARS), data)
 
         return idata
 
@@ -147,7 +149,7 @@ class SetUniformData(PointDataModel):
         """
         for v in self.ovars:
             if self.DATA in mdata:
-                pdata[v][:] = mdata[v][None, self.ovars.index(v)]
+                pdata[v][:] = mdata[self.DATA][:, self.ovars.index(v), None, None]
             else:
                 pdata[v][:] = self.data_source[v]
 
-- 
2.43.0


From de6cfeaa6c5ee7035dab77e2a78a31b67426b7aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:45 +0000
Subject: [PATCH 045/150] fix: ambient yield in FarmResultsEval.calc_farm_yield

---
 foxes/output/farm_results_eval.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/foxes/output/farm_results_eval.py b/foxes/output/farm_results_eval.py
index f6af445..a3906c6 100644
--- a/foxes/output/farm_results_eval.py
+++ b/foxes/output/farm_results_eval.py
@@ -561,14 +561,15 @@ class FarmResultsEval(Output):
             yargs = dict(annual=True)
             yargs.update(kwargs)
             turbine_yield = self.calc_turbine_yield(**yargs)
+        v = FV.YLD if FV.YLD in turbine_yield else FV.AMB_YLD
         farm_yield = turbine_yield.sum()
 
         if power_uncert is not None:
             P75 = farm_yield * (1.0 - (0.675 * power_uncert))
             P90 = farm_yield * (1.0 - (1.282 * power_uncert))
-            return farm_yield["YLD"], P75["YLD"], P90["YLD"]
+            return farm_yield[v], P75[v], P90[v]
 
-        return farm_yield["YLD"]
+        return farm_yield[v]
 
     def add_efficiency(self, verbosity=1):
         """
-- 
2.43.0


From 556acf5684e26e2f03bff0eeac7429a28fdcbcec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:45 +0000
Subject: [PATCH 046/150] fix: unweighted turbine mean in
 FarmResultsEval.reduce_all

---
 foxes/output/farm_results_eval.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/foxes/output/farm_results_eval.py b/foxes/output/farm_results_eval.py
index a3906c6..10ee693 100644
--- a/foxes/output/farm_results_eval.py
+++ b/foxes/output/farm_results_eval.py
@@ -254,7 +254,7 @@ class FarmResultsEval(Output):
                 else:
                     rdata[v] = self.weinsum("", vdata[None, :])
             elif op == "mean_no_weights":
-                rdata[v] = np.sum(vdata)
+                rdata[v] = np.mean(vdata)
             elif op == "sum":
                 rdata[v] = np.sum(vdata)
             elif op == "min":
-- 
2.43.0


From 5d6dc58a57c39e472af617ae187fc361c34cff97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:45 +0000
Subject: [PATCH 047/150] fix: FarmResultsEval.calc_farm_mean averages over
 turbines

---
 foxes/output/farm_results_eval.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/foxes/output/farm_results_eval.py b/foxes/output/farm_results_eval.py
index 10ee693..51ccd73 100644
--- a/foxes/output/farm_results_eval.py
+++ b/foxes/output/farm_results_eval.py
@@ -369,8 +369,10 @@ class FarmResultsEval(Output):
             The fully contracted results
 
         """
-        op = {v: "weights" for v in vars}
-        return self.reduce_all(states_op=op, turbines_op=op)
+        return self.reduce_all(
+            states_op={v: "weights" for v in vars},
+            turbines_op={v: "mean_no_weights" for v in vars},
+        )
 
     def calc_farm_sum(self, vars):
         """
-- 
2.43.0


From 3b80a936cbaa81061487eaba191816549e776043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:58 +0000
Subject: [PATCH 048/150] fix: write_nc does not round the data of the caller

---
 foxes/utils/xarray_utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/foxes/utils/xarray_utils.py b/foxes/utils/xarray_utils.py
index ccf6a88..a2a5d6c 100644
--- a/foxes/utils/xarray_utils.py
+++ b/foxes/utils/xarray_utils.py
@@ -31,6 +31,7 @@ def write_nc(
     """
     fpath = Path(fpath)
     if round is not None:
+        ds = ds.copy()
         for v in ds.coords.keys():
             d = round.get(v, get_default_digits(v))
             if d is not None:
-- 
2.43.0


From c6706736cbe4412594715501fc83f2fba0a6b387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:58 +0000
Subject: [PATCH 049/150] fix: default variables in SliceData

---
 foxes/output/slice_data.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/foxes/output/slice_data.py b/foxes/output/slice_data.py
index a4c87f9..49804a3 100644
--- a/foxes/output/slice_data.py
+++ b/foxes/output/slice_data.py
@@ -140,7 +140,11 @@ class SliceData(Output):
         )
         states = point_results[FC.STATE].to_numpy()
         if variables is None:
-            variables = list(point_results.data_vars.keys())
+            variables = [
+                v
+                for v, d in point_results.data_vars.items()
+                if d.dims == (FC.STATE, FC.POINT)
+            ]
         else:
             point_results.drop_vars(variables)
         del g_pts
@@ -657,7 +661,11 @@ class SliceData(Output):
         )
         states = point_results[FC.STATE].to_numpy()
         if variables is None:
-            variables = list(point_results.data_vars.keys())
+            variables = [
+                v
+                for v, d in point_results.data_vars.items()
+                if d.dims == (FC.STATE, FC.POINT)
+            ]
         else:
             point_results.drop_vars(variables)
         del g_pts
-- 
2.43.0


From 621696d5525d885ccf4ab4ea73a858b4bf4ded55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:58 +0000
Subject: [PATCH 050/150] fix: SliceData mean over selected states

---
 foxes/output/slice_data.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/foxes/output/slice_data.py b/foxes/output/slice_data.py
index 49804a3..51f4da4 100644
--- a/foxes/output/slice_data.py
+++ b/foxes/output/slice_data.py
@@ -151,6 +151,7 @@ class SliceData(Output):
 
         # take mean over states:
         weights = point_results[FV.WEIGHT].to_numpy()
+        weights = weights / np.sum(weights, axis=0)
         if point_results[FV.WEIGHT].dims == (FC.STATE,):
             data = {
                 v: np.einsum("s,sp->p", weights, point_results[v].to_numpy())
-- 
2.43.0


From 7782489467616de0568794aa5e14489b9db24882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:16 +0000
Subject: [PATCH 051/150] fix: label_map applies to the fields in all data
 formats

---
 foxes/output/grids.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/foxes/output/grids.py b/foxes/output/grids.py
index b9766b5..cff3e47 100644
--- a/foxes/output/grids.py
+++ b/foxes/output/grids.py
@@ -563,6 +563,7 @@ def np2pd_p(data, a_pos, b_pos, ori, label_map={}):
     n_a = len(a_pos)
     n_b = len(b_pos)
     minds = pd.MultiIndex.from_product([range(n_a), range(n_b)], names=[a, b])
+    data = {label_map.get(v, v): d for v, d in data.items()}
     return pd.DataFrame(index=minds, data=data)
 
 
@@ -601,6 +602,7 @@ def np2pd_sp(data, states, a_pos, b_pos, ori, label_map={}):
     minds = pd.MultiIndex.from_product(
         [states, range(n_a), range(n_b)], names=[s, a, b]
     )
+    data = {label_map.get(v, v): d for v, d in data.items()}
     return pd.DataFrame(index=minds, data=data)
 
 
@@ -638,7 +640,8 @@ def np2xr_p(data, a_pos, b_pos, c_pos, ori, label_map={}):
     return Dataset(
         coords={b: b_pos, a: a_pos},
         data_vars={
-            v: ((b, a), np.swapaxes(d.reshape(n_a, n_b), 0, 1)) for v, d in data.items()
+            label_map.get(v, v): ((b, a), np.swapaxes(d.reshape(n_a, n_b), 0, 1))
+            for v, d in data.items()
         },
         attrs={c: float(c_pos)},
     )
-- 
2.43.0


From 0868189b40bcfdde64e3c60db3d63fd55a78a250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:16 +0000
Subject: [PATCH 052/150] fix: states mean in PointCalculator

---
 foxes/output/calc_points.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/foxes/output/calc_points.py b/foxes/output/calc_points.py
index d7bff65..16d7555 100644
--- a/foxes/output/calc_points.py
+++ b/foxes/output/calc_points.py
@@ -101,11 +101,15 @@ class PointCalculator(Output):
         pres = self.algo.calc_points(self.farm_results, pts, *args, **kwargs)
 
         if states_mean:
-            weights = self.farm_results[FV.WEIGHT].to_numpy()[:, weight_turbine]
+            weights = self.farm_results[FV.WEIGHT]
+            if FC.TURBINE in weights.dims:
+                weights = weights.isel({FC.TURBINE: weight_turbine})
+            weights = weights.to_numpy()
             pres = Dataset(
                 data_vars={
-                    v: np.einsum("s,sp->p", weights, pres[v].to_numpy())
-                    for v in pres.data_vars.keys()
+                    v: ((FC.POINT,), np.einsum("s,sp->p", weights, d.to_numpy()))
+                    for v, d in pres.data_vars.items()
+                    if d.dims == (FC.STATE, FC.POINT)
                 }
             )
 
-- 
2.43.0


From b3811258765205eaee1e16c2c49f8fa2ca81d13a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:16 +0000
Subject: [PATCH 053/150] fix: writing state weights in PointCalculator

---
 foxes/output/calc_points.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/foxes/output/calc_points.py b/foxes/output/calc_points.py
index 16d7555..3ad0cd0 100644
--- a/foxes/output/calc_points.py
+++ b/foxes/output/calc_points.py
@@ -138,9 +138,7 @@ class PointCalculator(Output):
                         "y": ((FC.POINT,), points[..., 1]),
                         "z": ((FC.POINT,), points[..., 2]),
                     }
-                dvars.update(
-                    {v: ((FC.STATE, FC.POINT), pres[v].to_numpy()) for v in vrs}
-                )
+                dvars.update({v: (pres[v].dims, pres[v].to_numpy()) for v in vrs})
                 ds = Dataset(
                     coords={FC.STATE: pres[FC.STATE].to_numpy()}, data_vars=dvars
                 )
-- 
2.43.0


From 6353c8555a54bd09b47d6fb551948f5775fb37e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:16 +0000
Subject: [PATCH 054/150] fix: returned data of FlowPlots2D

---
 foxes/output/flow_plots_2d/flow_plots.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/foxes/output/flow_plots_2d/flow_plots.py b/foxes/output/flow_plots_2d/flow_plots.py
index 4937007..63bcdf1 100644
--- a/foxes/output/flow_plots_2d/flow_plots.py
+++ b/foxes/output/flow_plots_2d/flow_plots.py
@@ -156,7 +156,7 @@ class FlowPlots2D(SliceData):
 
         if ret_data:
             out = list(out) if isinstance(out, tuple) else [out]
-            return tuple(out + [data[:, :, 0]])
+            return tuple(out + [data[:, :, vi]])
 
         return out
 
@@ -306,7 +306,7 @@ class FlowPlots2D(SliceData):
 
         if ret_data:
             out = list(out) if isinstance(out, tuple) else [out]
-            return tuple(out + [data[:, :, 0]])
+            return tuple(out + [data[:, :, vi]])
 
         return out
 
@@ -457,7 +457,7 @@ class FlowPlots2D(SliceData):
 
         if ret_data:
             out = list(out) if isinstance(out, tuple) else [out]
-            return tuple(out + [data[:, :, 0]])
+            return tuple(out + [data[:, :, vi]])
 
         return out
 
-- 
2.43.0


From 38799c72d9664d8c79a04484eef861644b556590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:32 +0000
Subject: [PATCH 055/150] fix: rotor lines of selected states in FlowPlots2D

---
 foxes/output/flow_plots_2d/flow_plots.py | 46 +++++++++++++-----------
 1 file changed, 25 insertions(+), 21 deletions(-)

diff --git a/foxes/output/flow_plots_2d/flow_plots.py b/foxes/output/flow_plots_2d/flow_plots.py
index 63bcdf1..449dd14 100644
--- a/foxes/output/flow_plots_2d/flow_plots.py
+++ b/foxes/output/flow_plots_2d/flow_plots.py
@@ -2,6 +2,7 @@ import numpy as np
 
 from foxes.output import SliceData
 import foxes.variables as FV
+import foxes.constants as FC
 
 from .get_fig import get_fig
 
@@ -601,18 +602,19 @@ class FlowPlots2D(SliceData):
 
             # get data for show_turbines
             if rotor_color is not None:
+                fres = self.fres.sel({FC.STATE: s})
                 try:
-                    turb_angle = self.fres[FV.AMB_WD][si] + self.fres[FV.YAWM][si]
+                    turb_angle = fres[FV.AMB_WD] + fres[FV.YAWM]
                 except KeyError:
-                    turb_angle = self.fres[FV.AMB_WD][si]
+                    turb_angle = fres[FV.AMB_WD]
 
                 show_rotor_dict = {
                     "color": rotor_color,
-                    "D": self.fres[FV.D][si],
-                    "H": self.fres[FV.H][si],
-                    "X": self.fres[FV.X][si],
-                    "Y": self.fres[FV.Y][si],
-                    "AMB_WD": self.fres[FV.AMB_WD][si],
+                    "D": fres[FV.D],
+                    "H": fres[FV.H],
+                    "X": fres[FV.X],
+                    "Y": fres[FV.Y],
+                    "AMB_WD": fres[FV.AMB_WD],
                     "turb_angle": turb_angle,
                 }
             else:
@@ -787,18 +789,19 @@ class FlowPlots2D(SliceData):
 
             # get data for show_turbines
             if rotor_color is not None:
+                fres = self.fres.sel({FC.STATE: s})
                 try:
-                    turb_angle = self.fres[FV.AMB_WD][si] + self.fres[FV.YAWM][si]
+                    turb_angle = fres[FV.AMB_WD] + fres[FV.YAWM]
                 except KeyError:
-                    turb_angle = self.fres[FV.AMB_WD][si]
+                    turb_angle = fres[FV.AMB_WD]
 
                 show_rotor_dict = {
                     "color": rotor_color,
-                    "D": self.fres[FV.D][si],
-                    "H": self.fres[FV.H][si],
-                    "X": self.fres[FV.X][si],
-                    "Y": self.fres[FV.Y][si],
-                    "AMB_WD": self.fres[FV.AMB_WD][si],
+                    "D": fres[FV.D],
+                    "H": fres[FV.H],
+                    "X": fres[FV.X],
+                    "Y": fres[FV.Y],
+                    "AMB_WD": fres[FV.AMB_WD],
                     "turb_angle": turb_angle,
                 }
             else:
@@ -973,18 +976,19 @@ class FlowPlots2D(SliceData):
 
             # get data for show_turbines
             if rotor_color is not None:
+                fres = self.fres.sel({FC.STATE: s})
                 try:
-                    turb_angle = self.fres[FV.AMB_WD][si] + self.fres[FV.YAWM][si]
+                    turb_angle = fres[FV.AMB_WD] + fres[FV.YAWM]
                 except KeyError:
-                    turb_angle = self.fres[FV.AMB_WD][si]
+                    turb_angle = fres[FV.AMB_WD]
 
                 show_rotor_dict = {
                     "color": rotor_color,
-                    "D": self.fres[FV.D][si],
-                    "H": self.fres[FV.H][si],
-                    "X": self.fres[FV.X][si],
-                    "Y": self.fres[FV.Y][si],
-                    "AMB_WD": self.fres[FV.AMB_WD][si],
+                    "D": fres[FV.D],
+                    "H": fres[FV.H],
+                    "X": fres[FV.X],
+                    "Y": fres[FV.Y],
+                    "AMB_WD": fres[FV.AMB_WD],
                     "turb_angle": turb_angle,
                 }
             else:
-- 
2.43.0


From 5df39c3d67c61a7d24abd07e1311ee6f7f7b020b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:58 +0000
Subject: [PATCH 056/150] fix: pandas format of states slices

---
 foxes/output/grids.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/foxes/output/grids.py b/foxes/output/grids.py
index cff3e47..f9ff865 100644
--- a/foxes/output/grids.py
+++ b/foxes/output/grids.py
@@ -602,7 +602,7 @@ def np2pd_sp(data, states, a_pos, b_pos, ori, label_map={}):
     minds = pd.MultiIndex.from_product(
         [states, range(n_a), range(n_b)], names=[s, a, b]
     )
-    data = {label_map.get(v, v): d for v, d in data.items()}
+    data = {label_map.get(v, v): d.reshape(-1) for v, d in data.items()}
     return pd.DataFrame(index=minds, data=data)
 
 
-- 
2.43.0


From a50b3a2aeb5799f6036c2217eba658914131a186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:06 +0000
Subject: [PATCH 057/150] fix: angles of turbines in add_ring

---
 foxes/input/farm_layout/ring.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/foxes/input/farm_layout/ring.py b/foxes/input/farm_layout/ring.py
index 0fe15d0..e26e8c3 100644
--- a/foxes/input/farm_layout/ring.py
+++ b/foxes/input/farm_layout/ring.py
@@ -1,6 +1,7 @@
 import numpy as np
 
 from foxes.core import Turbine
+from foxes.config import config
 from foxes.utils import wd2wdvec
 
 
@@ -45,7 +46,7 @@ def add_ring(
     """
     p0 = np.array(xy_base)
     R = n_turbines * dist / (2 * np.pi)
-    a = np.atleast_1d(offset_deg)
+    a = np.array([offset_deg], dtype=config.dtype_double)
     da = 360 / n_turbines
 
     for i in range(n_turbines):
-- 
2.43.0


From 1f6bcd5a98b141be315f2051ee56007d5c6c1df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:06 +0000
Subject: [PATCH 058/150] fix: random layouts with seed 0

---
 foxes/utils/random_xy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/foxes/utils/random_xy.py b/foxes/utils/random_xy.py
index 18d97e8..3ae4db0 100644
--- a/foxes/utils/random_xy.py
+++ b/foxes/utils/random_xy.py
@@ -38,7 +38,7 @@ def random_xy_square(
     :group: utils
 
     """
-    if seed:
+    if seed is not None:
         np.random.seed(seed)
 
     xmax = np.sqrt(n) * min_dist if xmax_ini is None else xmax_ini
-- 
2.43.0


From fb83d0c6a43b7edbe30d57125f62f92a4a99d65d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:16 +0000
Subject: [PATCH 059/150] fix: turbines do not share the list of model state
 selections

---
 foxes/core/turbine.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/foxes/core/turbine.py b/foxes/core/turbine.py
index 2d49cbd..419b2cf 100644
--- a/foxes/core/turbine.py
+++ b/foxes/core/turbine.py
@@ -75,9 +75,10 @@ class Turbine:
         self.D = D
         self.H = H
 
-        self.mstates_sel = models_state_sel
-        if self.mstates_sel is None:
+        if models_state_sel is None:
             self.mstates_sel = [None] * len(self.models)
+        else:
+            self.mstates_sel = list(models_state_sel)
 
     def add_model(self, model, states_sel=None):
         """
-- 
2.43.0


From 422b94d16c8054a346bfc34b0598385f8e428d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:42 +0000
Subject: [PATCH 060/150] fix: ResultsWriter does not modify its data and
 arguments

---
 foxes/output/results_writer.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/foxes/output/results_writer.py b/foxes/output/results_writer.py
index d532c78..13abf71 100644
--- a/foxes/output/results_writer.py
+++ b/foxes/output/results_writer.py
@@ -55,11 +55,10 @@ class ResultsWriter(Output):
         if variables is None:
             pass
         elif isinstance(variables, dict):
-            inds = {
-                s: variables.pop(s) for s in self.data.index.names if s in variables
-            }
-            if len(variables):
-                data = data[list(variables.keys())].rename(variables, axis=1)
+            inds = {s: variables[s] for s in self.data.index.names if s in variables}
+            cols = {v: c for v, c in variables.items() if v not in inds}
+            if len(cols):
+                data = data[list(cols.keys())].rename(cols, axis=1)
             if len(inds):
                 for s, ns in inds.items():
                     data = data.rename_axis(index={s: ns})
@@ -104,8 +103,8 @@ class ResultsWriter(Output):
             print(f"ResultsWriter: Writing file '{file_name}'")
 
         data, variables = self._get_data_vars(variables)
-        data.reset_index(inplace=True)
-        fc2v = kwargs.pop("format_col2var", {})
+        data = data.reset_index()
+        fc2v = dict(kwargs.pop("format_col2var", {}))
         tix = FC.TNAME if turbine_names else FC.TURBINE
 
         if state_turbine_table:
-- 
2.43.0


From df345a906a7137c5fe8134a4204e0afee0ad98db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:42 +0000
Subject: [PATCH 061/150] fix: turbine names and renamed index in ResultsWriter

---
 foxes/output/results_writer.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/foxes/output/results_writer.py b/foxes/output/results_writer.py
index 13abf71..95cd169 100644
--- a/foxes/output/results_writer.py
+++ b/foxes/output/results_writer.py
@@ -103,9 +103,13 @@ class ResultsWriter(Output):
             print(f"ResultsWriter: Writing file '{file_name}'")
 
         data, variables = self._get_data_vars(variables)
+        six, tix = data.index.names
         data = data.reset_index()
         fc2v = dict(kwargs.pop("format_col2var", {}))
-        tix = FC.TNAME if turbine_names else FC.TURBINE
+        if turbine_names:
+            if tix == FC.TURBINE:
+                tix = FC.TNAME
+            data[tix] = self.data[FC.TNAME].to_numpy()
 
         if state_turbine_table:
             if len(variables) != 1:
@@ -114,12 +118,10 @@ class ResultsWriter(Output):
                 )
             v = variables[0]
             cnames = {
-                t: f"{v}_T{t:04d}" if tix == FC.TURBINE else f"{v}_{t}"
+                t: f"{v}_{t}" if turbine_names else f"{v}_T{t:04d}"
                 for t in data[tix]
             }
-            for ti, (t, g) in enumerate(
-                data.reset_index().set_index(FC.STATE).groupby(tix)
-            ):
+            for ti, (t, g) in enumerate(data.set_index(six).groupby(tix)):
                 if ti == 0:
                     odata = pd.DataFrame(
                         index=g.index.to_numpy(), columns=list(cnames.values())
@@ -130,7 +132,7 @@ class ResultsWriter(Output):
                 fc2v[cname] = v
             data = odata
         else:
-            data.set_index([FC.STATE, tix], inplace=True)
+            data.set_index([six, tix], inplace=True)
 
         super().write(file_name, data, format_col2var=fc2v, **kwargs)
 
@@ -169,8 +171,7 @@ class ResultsWriter(Output):
 
         crds = {FC.STATE: states}
         if turbine_names:
-            idx = pd.IndexSlice
-            crds[FC.TURBINE] = self.data.loc[idx[0, :], FC.TNAME].to_numpy()
+            crds[FC.TURBINE] = self.data[FC.TNAME].to_numpy()[:n_turbines]
 
         ds = Dataset(
             coords=crds,
-- 
2.43.0


From f0ad0c5b6e536bf5c2eb519e2b0b6b3157c1f197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:42 +0000
Subject: [PATCH 062/150] fix: parameters of PandasFileHelper.write_file are
 not kept

---
 foxes/utils/pandas_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/foxes/utils/pandas_utils.py b/foxes/utils/pandas_utils.py
index fe375bb..45ff116 100644
--- a/foxes/utils/pandas_utils.py
+++ b/foxes/utils/pandas_utils.py
@@ -163,7 +163,7 @@ class PandasFileHelper:
                 f = out.to_netcdf
 
             if f is not None:
-                pars = cls.DEFAULT_WRITING_PARAMETERS[fmt]
+                pars = deepcopy(cls.DEFAULT_WRITING_PARAMETERS[fmt])
                 pars.update(kwargs)
 
                 f(file_path, **pars)
-- 
2.43.0


From 9fc3822e514fa6114250bfbab80fad60a9542619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:42 +0000
Subject: [PATCH 063/150] fix: file formats in PandasFileHelper

---
 foxes/utils/pandas_utils.py | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/foxes/utils/pandas_utils.py b/foxes/utils/pandas_utils.py
index 45ff116..e822fc9 100644
--- a/foxes/utils/pandas_utils.py
+++ b/foxes/utils/pandas_utils.py
@@ -98,14 +98,17 @@ class PandasFileHelper:
         """
         fpath = Path(file_path)
         fname = fpath.name
-        sfx = ".".join(fname.split(".")[1:])
         f = None
         for fmt in cls.DATA_FILE_FORMATS:
-            if sfx[:3] == "csv":
+            if not (
+                fname.endswith("." + fmt) or (fmt == "csv" and ".csv." in fname)
+            ):
+                continue
+            if fmt[:3] == "csv":
                 f = pd.read_csv
-            elif sfx == "h5":
+            elif fmt == "h5":
                 f = pd.read_hdf
-            elif sfx == "nc":
+            elif fmt == "nc":
                 f = lambda fname, **pars: xarray.open_dataset(
                     fname, **pars
                 ).to_dataframe()
@@ -152,15 +155,18 @@ class PandasFileHelper:
 
         fpath = Path(file_path)
         fname = fpath.name
-        sfx = ".".join(fname.split(".")[1:])
         f = None
         for fmt in cls.DATA_FILE_FORMATS:
-            if sfx[:3] == "csv":
+            if not (
+                fname.endswith("." + fmt) or (fmt == "csv" and ".csv." in fname)
+            ):
+                continue
+            if fmt[:3] == "csv":
                 f = out.to_csv
-            elif sfx == "h5":
+            elif fmt == "h5":
                 f = out.to_hdf
-            elif sfx == "nc":
-                f = out.to_netcdf
+            elif fmt == "nc":
+                f = data.to_xarray().to_netcdf
 
             if f is not None:
                 pars = deepcopy(cls.DEFAULT_WRITING_PARAMETERS[fmt])
-- 
2.43.0


From 60aaa1e536868792ba1a2f18e9034d0163a3d741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:42 +0000
Subject: [PATCH 064/150] fix: digits in write_random_abl_states

---
 foxes/input/states/create/random_abl_states.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/foxes/input/states/create/random_abl_states.py b/foxes/input/states/create/random_abl_states.py
index 81f3381..7be3e1d 100644
--- a/foxes/input/states/create/random_abl_states.py
+++ b/foxes/input/states/create/random_abl_states.py
@@ -125,7 +125,7 @@ def write_random_abl_states(
         if isinstance(digits, str) and digits == "auto":
             digits = hdigits
         else:
-            digits = hdigits
+            digits = {c: digits for c in hdigits.keys() if c != wcol}
 
     if digits is not None:
         for v, d in digits.items():
-- 
2.43.0


From 1a13559279550c21dd7c22461150f33222cad9c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:42 +0000
Subject: [PATCH 065/150] fix: random time series with seed 0

---
 foxes/input/states/create/random_timeseries.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/foxes/input/states/create/random_timeseries.py b/foxes/input/states/create/random_timeseries.py
index 10b8c9c..877b8f3 100644
--- a/foxes/input/states/create/random_timeseries.py
+++ b/foxes/input/states/create/random_timeseries.py
@@ -39,7 +39,7 @@ def random_timseries_data(
     :group: input.states.create
 
     """
-    if seed:
+    if seed is not None:
         np.random.seed(seed)
 
     dranges = {FV.WS: (0.0, 30.0), FV.WD: (0.0, 360.0)}
-- 
2.43.0


From aeee04b6ea6336258f029f5c902048032af0518c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:30 +0000
Subject: [PATCH 066/150] fix: instances of YawedWakes do not share their base
 frame

---
 foxes/models/wake_frames/yawed_wakes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/foxes/models/wake_frames/yawed_wakes.py b/foxes/models/wake_frames/yawed_wakes.py
index 6b20f37..6217469 100644
--- a/foxes/models/wake_frames/yawed_wakes.py
+++ b/foxes/models/wake_frames/yawed_wakes.py
@@ -42,7 +42,7 @@ class YawedWakes(WakeFrame):
 
     def __init__(
         self,
-        base_frame=RotorWD(),
+        base_frame=None,
         alpha=0.58,
         beta=0.07,
         induction="Madsen",
@@ -72,7 +72,7 @@ class YawedWakes(WakeFrame):
         """
         super().__init__(max_length_km=max_length_km)
 
-        self.base_frame = base_frame
+        self.base_frame = RotorWD() if base_frame is None else base_frame
         self.model = None
         self.alpha = alpha
         self.beta = beta
-- 
2.43.0


From 4c14ba4392b4e8f8a5e1d5ba6014ec5dd7580677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:30 +0000
Subject: [PATCH 067/150] fix: calc_points without previous farm calculation

---
 foxes/algorithms/downwind/downwind.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/foxes/algorithms/downwind/downwind.py b/foxes/algorithms/downwind/downwind.py
index 79fe9d9..d5766ca 100644
--- a/foxes/algorithms/downwind/downwind.py
+++ b/foxes/algorithms/downwind/downwind.py
@@ -1,4 +1,5 @@
 import numpy as np
+from xarray import Dataset
 
 from foxes.core import Algorithm, FarmDataModelList, get_engine
 from foxes.core import PointDataModel, PointDataModelList, FarmController
@@ -768,6 +769,13 @@ class Downwind(Algorithm):
         # subset selections:
         sel = {} if states_sel is None else {FC.STATE: states_sel}
         isel = {} if states_isel is None else {FC.STATE: states_isel}
+        if farm_results is None:
+            farm_results = Dataset(
+                coords={
+                    FC.STATE: self.states.index(),
+                    FC.TURBINE: np.arange(self.n_turbines),
+                }
+            )
         if states_isel is not None:
             farm_results = farm_results.isel(isel)
         if states_sel is not None:
@@ -779,7 +787,6 @@ class Downwind(Algorithm):
         if persist_mdata:
             model_data = model_data.persist()
         self.print("\nInput data:\n\n", model_data, "\n")
-        self.print(f"\nOutput farm variables:", ", ".join(self.farm_vars))
 
         # chunk farm results:
         self.print("\nInput farm data:\n\n", farm_results, "\n")
-- 
2.43.0


From 6a7fc67cbe20bb99f417f46d261146168c97afc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:45 +0000
Subject: [PATCH 068/150] fix: calc_parameters of the farm controller

---
 foxes/algorithms/downwind/downwind.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/foxes/algorithms/downwind/downwind.py b/foxes/algorithms/downwind/downwind.py
index d5766ca..d057ed7 100644
--- a/foxes/algorithms/downwind/downwind.py
+++ b/foxes/algorithms/downwind/downwind.py
@@ -436,37 +436,37 @@ class Downwind(Algorithm):
 
         # 0) run pre-rotor turbine models via farm controller:
         mlist.models.append(self.farm_controller)
-        calc_pars.append(calc_parameters.get(mlist.models[-1].name, {}))
+        calc_pars.append(dict(calc_parameters.get(mlist.models[-1].name, {})))
         calc_pars[-1]["pre_rotor"] = True
 
         # 1) set initial data:
         mlist.models.append(self.get_model("InitFarmData")())
-        calc_pars.append(calc_parameters.get(mlist.models[-1].name, {}))
+        calc_pars.append(dict(calc_parameters.get(mlist.models[-1].name, {})))
 
         # 2) calculate ambient rotor results:
         mlist.models.append(self.rotor_model)
-        calc_pars.append(calc_parameters.get(mlist.models[-1].name, {}))
+        calc_pars.append(dict(calc_parameters.get(mlist.models[-1].name, {})))
         calc_pars[-1].update({"store": True})
 
         # 3) run post-rotor turbine models via farm controller:
         mlist.models.append(self.farm_controller)
-        calc_pars.append(calc_parameters.get(mlist.models[-1].name, {}))
+        calc_pars.append(dict(calc_parameters.get(mlist.models[-1].name, {})))
         calc_pars[-1]["pre_rotor"] = False
 
         # 4) copy results to ambient, requires self.farm_vars:
         self.farm_vars = mlist.output_farm_vars(self)
         mlist.models.append(self.get_model("SetAmbFarmResults")())
-        calc_pars.append(calc_parameters.get(mlist.models[-1].name, {}))
+        calc_pars.append(dict(calc_parameters.get(mlist.models[-1].name, {})))
 
         # 5) calculate wake effects:
         if not ambient:
             mlist.models.append(self.get_model("FarmWakesCalculation")())
-            calc_pars.append(calc_parameters.get(mlist.models[-1].name, {}))
+            calc_pars.append(dict(calc_parameters.get(mlist.models[-1].name, {})))
 
         # 6) reorder back to state-turbine dimensions:
         if outputs != False:
             mlist.models.append(self.get_model("ReorderFarmOutput")(outputs))
-            calc_pars.append(calc_parameters.get(mlist.models[-1].name, {}))
+            calc_pars.append(dict(calc_parameters.get(mlist.models[-1].name, {})))
 
         return mlist, calc_pars
 
@@ -639,7 +639,7 @@ class Downwind(Algorithm):
 
         # 0) calculate states results:
         mlist.models.append(self.states)
-        calc_pars.append(calc_parameters.get(mlist.models[-1].name, {}))
+        calc_pars.append(dict(calc_parameters.get(mlist.models[-1].name, {})))
 
         # 1) calculate ambient extra eval point results:
         mlist.models.append(emodels)
@@ -647,14 +647,14 @@ class Downwind(Algorithm):
 
         # 2) transfer ambient results:
         mlist.models.append(self.get_model("SetAmbPointResults")())
-        calc_pars.append(calc_parameters.get(mlist.models[-1].name, {}))
+        calc_pars.append(dict(calc_parameters.get(mlist.models[-1].name, {})))
 
         # 3) calc wake effects:
         if not ambient:
             mlist.models.append(
                 self.get_model("PointWakesCalculation")(emodels, emodels_cpars)
             )
-            calc_pars.append(calc_parameters.get(mlist.models[-1].name, {}))
+            calc_pars.append(dict(calc_parameters.get(mlist.models[-1].name, {})))
 
         return mlist, calc_pars
 
-- 
2.43.0


From 6e78065a79c936936c892e012e4d3a9f2ea3cf27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:45 +0000
Subject: [PATCH 069/150] fix: turbine types of algorithms that share a model
 book

---
 foxes/core/farm_controller.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/foxes/core/farm_controller.py b/foxes/core/farm_controller.py
index 7de2d12..99e3e25 100644
--- a/foxes/core/farm_controller.py
+++ b/foxes/core/farm_controller.py
@@ -221,8 +221,7 @@ class FarmController(FarmDataModel):
 
         """
 
-        if self.turbine_types is None:
-            self.find_turbine_types(algo)
+        self.find_turbine_types(algo)
 
         # check turbine models, and find turbine types and pre/post-rotor models:
         prer_models = [[] for t in algo.farm.turbines]
-- 
2.43.0


From dc7e6b2780b5c5643164836a7def0a018124ef97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:45 +0000
Subject: [PATCH 070/150] fix: failed calculations leave algorithms and models
 usable

---
 foxes/algorithms/downwind/downwind.py   | 48 ++++++++++++-------
 foxes/algorithms/iterative/iterative.py | 61 +++++++++++++------------
 foxes/core/algorithm.py                 | 46 ++++++++++---------
 foxes/core/model.py                     | 34 +++++++++-----
 4 files changed, 112 insertions(+), 77 deletions(-)

diff --git a/foxes/algorithms/downwind/downwind.py b/foxes/algorithms/downwind/downwind.py
index d057ed7..f2d252b 100644
--- a/foxes/algorithms/downwind/downwind.py
+++ b/foxes/algorithms/downwind/downwind.py
@@ -474,6 +474,14 @@ class Downwind(Algorithm):
         """Helper function that gathers the farm variables"""
         self.farm_vars = sorted(list(mlist.output_farm_vars(self)))
 
+    def _reset_models(self, mlist, finalize):
+        """Helper function that cleans up after a failed calculation"""
+        if finalize:
+            mlist.finalize(self, self.verbosity - 1)
+            self.finalize()
+        else:
+            self.del_model_data(mlist)
+
     def _launch_parallel_farm_calc(
         self,
         mlist,
@@ -578,13 +586,17 @@ class Downwind(Algorithm):
         self.print(f"\nOutput variables:", ", ".join(outputs))
 
         # run main calculation:
-        farm_results = super().calc_farm(
-            mlist,
-            model_data,
-            parameters=calc_pars,
-            outputs=outputs,
-            **kwargs,
-        )
+        try:
+            farm_results = super().calc_farm(
+                mlist,
+                model_data,
+                parameters=calc_pars,
+                outputs=outputs,
+                **kwargs,
+            )
+        except BaseException:
+            self._reset_models(mlist, finalize)
+            raise
         farm_results[FC.TNAME] = ((FC.TURBINE,), self.farm.turbine_names)
         for v in [FV.ORDER, FV.ORDER_SSEL, FV.ORDER_INV]:
             if v in farm_results:
@@ -808,15 +820,19 @@ class Downwind(Algorithm):
         self.print(f"\nOutput point variables:", ", ".join(ovars))
 
         # calculate:
-        point_results = super().calc_points(
-            mlist,
-            model_data,
-            farm_results,
-            point_data,
-            outputs=ovars,
-            parameters=calc_pars,
-            **kwargs,
-        )
+        try:
+            point_results = super().calc_points(
+                mlist,
+                model_data,
+                farm_results,
+                point_data,
+                outputs=ovars,
+                parameters=calc_pars,
+                **kwargs,
+            )
+        except BaseException:
+            self._reset_models(mlist, finalize)
+            raise
         del model_data, farm_results, point_data
 
         # finalize models:
diff --git a/foxes/algorithms/iterative/iterative.py b/foxes/algorithms/iterative/iterative.py
index 963715d..0cfb8a1 100644
--- a/foxes/algorithms/iterative/iterative.py
+++ b/foxes/algorithms/iterative/iterative.py
@@ -313,35 +313,40 @@ class Iterative(Downwind):
         self._it = -1
         self._final_run = False
         fres_dwnd = None
-        while self._it < self.max_it:
-            self._it += 1
-
-            self.print(f"\nAlgorithm {self.name}: Iteration {self._it}\n", vlim=0)
-
-            self.__prev_farm_results = fres
-            fres = super().calc_farm(outputs=None, finalize=False, **kwargs)
-
-            fres_dwnd = fres
-            if self.conv_crit is not None:
-                if self.eval_conv_block():
-                    self.print(f"{self.name}: Convergence blocked", vlim=0)
-                else:
-                    conv = self.conv_crit.check_converged(
-                        self,
-                        self.__prev_farm_results,
-                        fres,
-                        verbosity=self.verbosity + 1,
-                    )
-                    if conv:
-                        self.print(
-                            f"\nAlgorithm {self.name}: Convergence reached.\n", vlim=0
+        try:
+            while self._it < self.max_it:
+                self._it += 1
+
+                self.print(f"\nAlgorithm {self.name}: Iteration {self._it}\n", vlim=0)
+
+                self.__prev_farm_results = fres
+                fres = super().calc_farm(outputs=None, finalize=False, **kwargs)
+
+                fres_dwnd = fres
+                if self.conv_crit is not None:
+                    if self.eval_conv_block():
+                        self.print(f"{self.name}: Convergence blocked", vlim=0)
+                    else:
+                        conv = self.conv_crit.check_converged(
+                            self,
+                            self.__prev_farm_results,
+                            fres,
+                            verbosity=self.verbosity + 1,
                         )
-                        break
-
-        # final run, recovers farm order of results:
-        self.print("Starting final run", vlim=0)
-        self._final_run = True
-        fres = super().calc_farm(outputs=outputs, finalize=False, **kwargs)
+                        if conv:
+                            self.print(
+                                f"\nAlgorithm {self.name}: Convergence reached.\n", vlim=0
+                            )
+                            break
+
+            # final run, recovers farm order of results:
+            self.print("Starting final run", vlim=0)
+            self._final_run = True
+            fres = super().calc_farm(outputs=outputs, finalize=False, **kwargs)
+        except BaseException:
+            if finalize:
+                self.finalize()
+            raise
 
         # finalize models:
         if finalize:
diff --git a/foxes/core/algorithm.py b/foxes/core/algorithm.py
index beafde3..d84c405 100644
--- a/foxes/core/algorithm.py
+++ b/foxes/core/algorithm.py
@@ -827,19 +827,21 @@ class Algorithm(Model):
             )
 
         # run parallel calculation:
-        farm_results = self._launch_parallel_farm_calc(
-            *args,
-            chunk_store=chunk_store,
-            sel=None,
-            isel=None,
-            **kwargs,
-        )
+        try:
+            farm_results = self._launch_parallel_farm_calc(
+                *args,
+                chunk_store=chunk_store,
+                sel=None,
+                isel=None,
+                **kwargs,
+            )
 
         # reset to not running:
-        for m in mdls:
-            m.unset_running(
-                self, data_stash, sel=None, isel=None, verbosity=self.verbosity - 2
-            )
+        finally:
+            for m in mdls:
+                m.unset_running(
+                    self, data_stash, sel=None, isel=None, verbosity=self.verbosity - 2
+                )
 
         return farm_results
 
@@ -906,18 +908,20 @@ class Algorithm(Model):
 
         # run parallel calculation:
         chunk_store = self.reset_chunk_store()
-        point_results = self._launch_parallel_points_calc(
-            *args,
-            chunk_store=chunk_store,
-            sel=sel,
-            isel=isel,
-            **kwargs,
-        )
+        try:
+            point_results = self._launch_parallel_points_calc(
+                *args,
+                chunk_store=chunk_store,
+                sel=sel,
+                isel=isel,
+                **kwargs,
+            )
 
         # reset to not running:
-        self.unset_running(
-            self, data_stash, sel=sel, isel=isel, verbosity=self.verbosity - 2
-        )
+        finally:
+            self.unset_running(
+                self, data_stash, sel=sel, isel=isel, verbosity=self.verbosity - 2
+            )
 
         return point_results
 
diff --git a/foxes/core/model.py b/foxes/core/model.py
index a451056..34abd10 100644
--- a/foxes/core/model.py
+++ b/foxes/core/model.py
@@ -142,18 +142,28 @@ class Model(ABC):
             raise ValueError(f"Model '{self.name}': Cannot initialize while running")
         if not self.initialized:
             pr = False
-            for m in self.sub_models():
-                if not m.initialized:
-                    if verbosity > 1 and not pr:
-                        print(f">> {self.name}: Starting sub-model initialization >> ")
-                        pr = True
-                    m.initialize(algo, verbosity)
-            if pr:
-                print(f"<< {self.name}: Finished sub-model initialization << ")
-
-            if verbosity > 0:
-                print(f"Initializing model '{self.name}'")
-            algo.store_model_data(self, self.load_data(algo, verbosity), force)
+            try:
+                for m in self.sub_models():
+                    if not m.initialized:
+                        if verbosity > 1 and not pr:
+                            print(
+                                f">> {self.name}: Starting sub-model initialization >> "
+                            )
+                            pr = True
+                        m.initialize(algo, verbosity)
+                if pr:
+                    print(f"<< {self.name}: Finished sub-model initialization << ")
+
+                if verbosity > 0:
+                    print(f"Initializing model '{self.name}'")
+                algo.store_model_data(self, self.load_data(algo, verbosity), force)
+
+            # do not leave a partial initialization behind:
+            except BaseException:
+                for m in self.sub_models():
+                    if m.initialized:
+                        m.finalize(algo, verbosity)
+                raise
 
             self.__initialized = True
 
-- 
2.43.0


From 15cf0aabc7152527d6f31440ba64b101b2538723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:43 +0000
Subject: [PATCH 071/150] fix: YawedWakes takes the wake growth from the
 current algorithm

---
 foxes/models/wake_frames/yawed_wakes.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/foxes/models/wake_frames/yawed_wakes.py b/foxes/models/wake_frames/yawed_wakes.py
index 6217469..f23729f 100644
--- a/foxes/models/wake_frames/yawed_wakes.py
+++ b/foxes/models/wake_frames/yawed_wakes.py
@@ -115,6 +115,8 @@ class YawedWakes(WakeFrame):
 
         """
         if not self.initialized:
+            self.model = None
+            self.wake_k = None
             for w in algo.wake_models.values():
                 if isinstance(w, Bastankhah2016):
                     if not w.initialized:
-- 
2.43.0


From b8c574e08c66b3d6421818a5fe901ec9eed0f74d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:43 +0000
Subject: [PATCH 072/150] fix: PowerMask with nominal powers from power curves

---
 foxes/models/turbine_models/power_mask.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/foxes/models/turbine_models/power_mask.py b/foxes/models/turbine_models/power_mask.py
index e058971..fbf29f4 100644
--- a/foxes/models/turbine_models/power_mask.py
+++ b/foxes/models/turbine_models/power_mask.py
@@ -116,6 +116,8 @@ class PowerMask(TurbineModel):
 
         self._P_rated = []
         for t in algo.farm_controller.turbine_types:
+            if not t.initialized:
+                t.initialize(algo, verbosity)
             Pnom = config.dtype_double(t.P_nominal)
             if np.isnan(Pnom):
                 raise ValueError(
-- 
2.43.0


From 1a4bdf12d82519cf320ca063a0410b270e1ccaaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:33 +0000
Subject: [PATCH 073/150] fix: rotor models that are shared between algorithms

The automatically selected variables were kept from the first algorithm,
so that another algorithm with different states or turbine types failed or
produced variables that it does not calculate.
---
 foxes/core/rotor_model.py | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/foxes/core/rotor_model.py b/foxes/core/rotor_model.py
index bd6fb26..158d746 100644
--- a/foxes/core/rotor_model.py
+++ b/foxes/core/rotor_model.py
@@ -41,7 +41,8 @@ class RotorModel(FarmDataModel):
 
         """
         super().__init__()
-        self.calc_vars = calc_vars
+        self.calc_vars = None if calc_vars is None else list(calc_vars)
+        self._auto_vars = calc_vars is None
 
     def output_farm_vars(self, algo):
         """
@@ -58,23 +59,23 @@ class RotorModel(FarmDataModel):
             The output variable names
 
         """
-        if self.calc_vars is None:
-            vrs = algo.states.output_point_vars(algo)
+        # the automatic selection depends on the algorithm, while
+        # the rotor model may be shared between algorithms:
+        if self.calc_vars is None or (self._auto_vars and not algo.running):
+            vrs = list(algo.states.output_point_vars(algo))
             assert (
                 FV.WEIGHT not in vrs
             ), f"Rotor '{self.name}': States '{algo.states.name}' output_point_vars contain '{FV.WEIGHT}', please remove"
 
             if FV.WS in vrs:
-                self.calc_vars = [FV.REWS] + [v for v in vrs if v != FV.WS]
-            else:
-                self.calc_vars = vrs
+                vrs = [FV.REWS] + [v for v in vrs if v != FV.WS]
 
-            if algo.farm_controller.needs_rews2() and FV.REWS2 not in self.calc_vars:
-                self.calc_vars.append(FV.REWS2)
-            if algo.farm_controller.needs_rews3() and FV.REWS3 not in self.calc_vars:
-                self.calc_vars.append(FV.REWS3)
+            if algo.farm_controller.needs_rews2() and FV.REWS2 not in vrs:
+                vrs.append(FV.REWS2)
+            if algo.farm_controller.needs_rews3() and FV.REWS3 not in vrs:
+                vrs.append(FV.REWS3)
 
-            self.calc_vars = sorted(self.calc_vars)
+            self.calc_vars = sorted(vrs)
 
         if FV.WEIGHT not in self.calc_vars:
             self.calc_vars.append(FV.WEIGHT)
-- 
2.43.0


From 82a4a68ac954549ad26af6658a2859c50c579cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:33 +0000
Subject: [PATCH 074/150] fix: FieldDataNC load modes lazy and fly with state
 selections

The data was read by the position of the chunk, which is not the state
position in the data if states_sel or states_isel is given.
---
 foxes/input/states/field_data_nc.py | 62 +++++++++++++++--------------
 1 file changed, 33 insertions(+), 29 deletions(-)

diff --git a/foxes/input/states/field_data_nc.py b/foxes/input/states/field_data_nc.py
index 66d9083..677502c 100644
--- a/foxes/input/states/field_data_nc.py
+++ b/foxes/input/states/field_data_nc.py
@@ -493,6 +493,14 @@ class FieldDataNC(States):
             if weights is not None:
                 idata["data_vars"][self.WEIGHT] = ((FC.STATE,), weights)
 
+        else:
+            # remember which data to read, also for state subsets and chunks:
+            self.STATEI = self.var("state_i")
+            idata["data_vars"][self.STATEI] = (
+                (FC.STATE,),
+                np.arange(self._N, dtype=config.dtype_int),
+            )
+
         return idata
 
     def set_running(
@@ -660,9 +668,7 @@ class FieldDataNC(States):
 
         # case lazy:
         elif self.load_mode == "lazy":
-            i0 = mdata.states_i0(counter=True)
-            s = slice(i0, i0 + n_states)
-            ds = self.data_source.isel({self.states_coord: s}).load()
+            ds = self.data_source.isel({self.states_coord: mdata[self.STATEI]}).load()
             __, h, y, x, data, weights = self._get_data(ds, coords, verbosity=0)
             del ds
 
@@ -672,41 +678,39 @@ class FieldDataNC(States):
             if self.weight_ncvar is not None:
                 vars += [self.weight_ncvar]
 
-            i0 = mdata.states_i0(counter=True)
-            i1 = i0 + n_states
+            inds = mdata[self.STATEI]
+            i0 = 0
             j0 = 0
             data = []
+            order = []
             for fpath, n in self._files_maxi.items():
-                if i0 < j0:
-                    break
-                else:
-                    j1 = j0 + n
-                    if i0 < j1:
-                        a = i0 - j0
-                        b = min(i1, j1) - j0
-                        isel = copy(self.isel)
-                        isel[self.states_coord] = slice(a, b)
-
-                        data.append(
-                            _read_nc_file(
-                                fpath,
-                                coords=coords,
-                                vars=vars,
-                                nc_engine=config.nc_engine,
-                                isel=isel,
-                                sel=self.sel,
-                                minimal=False,
-                            )
+                hits = np.flatnonzero((inds >= j0) & (inds < j0 + n))
+                if len(hits):
+                    isel = copy(self.isel)
+                    isel[self.states_coord] = inds[hits] - j0
+
+                    data.append(
+                        _read_nc_file(
+                            fpath,
+                            coords=coords,
+                            vars=vars,
+                            nc_engine=config.nc_engine,
+                            isel=isel,
+                            sel=self.sel,
+                            minimal=False,
                         )
+                    )
 
-                        i0 += b - a
-                    j0 = j1
+                    order.append(hits)
+                    i0 += len(hits)
+                j0 += n
 
             assert (
-                i0 == i1
-            ), f"States '{self.name}': Missing states for load_mode '{self.load_mode}': (i0, i1) = {(i0, i1)}"
+                i0 == n_states
+            ), f"States '{self.name}': Missing states for load_mode '{self.load_mode}': (found, expected) = {(i0, n_states)}"
 
             data = xr.concat(data, dim=self.states_coord)
+            data = data.isel({self.states_coord: np.argsort(np.concatenate(order))})
             __, h, y, x, data, weights = self._get_data(data, coords, verbosity=0)
 
         else:
-- 
2.43.0


From d30c3e7d7030a7032d98c7d74c2aa99f5fc9cff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:46 +0000
Subject: [PATCH 075/150] fix: Rathmann induction on the rotor axis

Rounding caused nan results at points close to one rotor radius upstream.
---
 foxes/models/wake_models/induction/rathmann.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/foxes/models/wake_models/induction/rathmann.py b/foxes/models/wake_models/induction/rathmann.py
index 5439113..e76d729 100644
--- a/foxes/models/wake_models/induction/rathmann.py
+++ b/foxes/models/wake_models/induction/rathmann.py
@@ -190,7 +190,7 @@ class Rathmann(TurbineInductionModel):
                 (x_R**2 + (r_R - 1) ** 2) * (x_R**2 + (r_R + 1) ** 2)
             )  # eqn 19
             sin_alpha = np.sqrt(
-                0.5 * (1 - np.sqrt(1 - sin_2_alpha**2))
+                0.5 * (1 - np.sqrt(np.maximum(1 - sin_2_alpha**2, 0.0)))
             )  # derived from cos(2a)**2 + sin(2a)**2 = 1
             sin_beta = 1 / np.sqrt(x_R**2 + r_R**2 + 1)  # eqn 19
             return sin_alpha * sin_beta * (1 + x_R**2)
-- 
2.43.0


From 33c01101853eab5b8a49c91d720ea840d2e5afbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:46 +0000
Subject: [PATCH 076/150] fix: several wake models in point calculations

Wake deltas of the second and following wake models were based on waked
instead of ambient results, in contradiction to the farm calculation.
---
 foxes/algorithms/downwind/models/point_wakes_calc.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/foxes/algorithms/downwind/models/point_wakes_calc.py b/foxes/algorithms/downwind/models/point_wakes_calc.py
index c8ff6d0..d7cb9dc 100644
--- a/foxes/algorithms/downwind/models/point_wakes_calc.py
+++ b/foxes/algorithms/downwind/models/point_wakes_calc.py
@@ -139,7 +139,11 @@ class PointWakesCalculation(PointDataModel):
                     if v not in res and v in tdata:
                         res[v] = tdata[v].copy()
 
-                gmodel.finalize_point_wakes(algo, mdata, fdata, res, wdeltas, wmodel)
+                # as for rotors, all wake models refer to the ambient results:
+                amb_res = {v: tdata[v] for v in res.keys()}
+                gmodel.finalize_point_wakes(
+                    algo, mdata, fdata, amb_res, wdeltas, wmodel
+                )
 
                 for v in res.keys():
                     if v in wdeltas:
-- 
2.43.0


From 31784761a0768f2516bab61b1ab17bb32dcc6cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:52 +0000
Subject: [PATCH 077/150] fix: nearest boundary point of a circle for its
 centre

---
 foxes/utils/geom2d/circle.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/foxes/utils/geom2d/circle.py b/foxes/utils/geom2d/circle.py
index 2d1788c..242a364 100644
--- a/foxes/utils/geom2d/circle.py
+++ b/foxes/utils/geom2d/circle.py
@@ -89,9 +89,9 @@ class Circle(AreaGeometry):
             if np.all(sel):
                 minp = self.centre + deltas / magd[:, None] * self.radius
             else:
-                minp = np.zeros_like(points)
-                minp[sel] = deltas[sel] / magd[sel]
-                minp[~sel][:, 0] = 1
+                minp = np.zeros_like(deltas)
+                minp[sel] = deltas[sel] / magd[sel, None]
+                minp[~sel, 0] = 1
                 minp = self.centre + minp * self.radius
             return dists, minp
         else:
-- 
2.43.0


From 558db0c51f64081246aab7bad46001e500d242de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:52 +0000
Subject: [PATCH 078/150] fix: polygons from integer points

---
 foxes/utils/geom2d/polygon.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/foxes/utils/geom2d/polygon.py b/foxes/utils/geom2d/polygon.py
index 11aa015..469ae42 100644
--- a/foxes/utils/geom2d/polygon.py
+++ b/foxes/utils/geom2d/polygon.py
@@ -32,10 +32,10 @@ class ClosedPolygon(AreaGeometry):
             The polygon points, shape: (n_points, 2)
 
         """
-        self.points = points
+        self.points = np.array(points, dtype=np.float64)
 
-        if not np.all(points[0] == points[-1]):
-            self.points = np.append(self.points, points[[0]], axis=0)
+        if not np.all(self.points[0] == self.points[-1]):
+            self.points = np.append(self.points, self.points[[0]], axis=0)
 
         self.poly = Path(self.points, closed=True)
 
-- 
2.43.0


From 6b6088f0b33aeb775fb62b39cc5d2364094de88d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:52 +0000
Subject: [PATCH 079/150] fix: subtraction of a list of geometries

---
 foxes/utils/geom2d/area_geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/foxes/utils/geom2d/area_geometry.py b/foxes/utils/geom2d/area_geometry.py
index d9d9eb8..3302afa 100644
--- a/foxes/utils/geom2d/area_geometry.py
+++ b/foxes/utils/geom2d/area_geometry.py
@@ -214,7 +214,7 @@ class AreaGeometry(metaclass=ABCMeta):
 
     def __sub__(self, g):
         if isinstance(g, list):
-            return AreaIntersection([self] + g.inverse())
+            return AreaIntersection([self] + [h.inverse() for h in g])
         else:
             return AreaIntersection([self, g.inverse()])
 
-- 
2.43.0


From 6c3cccebebd123113dc2631571c02c1c962634ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:52 +0000
Subject: [PATCH 080/150] fix: geometry figures modify the parameters of the
 caller

---
 foxes/utils/geom2d/area_geometry.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/foxes/utils/geom2d/area_geometry.py b/foxes/utils/geom2d/area_geometry.py
index 3302afa..88fc362 100644
--- a/foxes/utils/geom2d/area_geometry.py
+++ b/foxes/utils/geom2d/area_geometry.py
@@ -108,6 +108,7 @@ class AreaGeometry(metaclass=ABCMeta):
 
         """
         if fill_mode is not None:
+            pars_distance = dict(pars_distance)
             if "Nx" in pars_distance or "Ny" in pars_distance:
                 Nx = pars_distance.pop("Nx")
                 Ny = pars_distance.pop("Ny")
@@ -118,8 +119,8 @@ class AreaGeometry(metaclass=ABCMeta):
                 Nx = 500
                 Ny = 500
 
-            p0 = pars_distance.pop("p_min", self.p_min())
-            p1 = pars_distance.pop("p_max", self.p_max())
+            p0 = np.array(pars_distance.pop("p_min", self.p_min()), dtype=np.float64)
+            p1 = np.array(pars_distance.pop("p_max", self.p_max()), dtype=np.float64)
             if np.isinf(p0[0]):
                 q0 = self.inverse().p_min()
                 a0 = ax.get_xlim()[0]
-- 
2.43.0


From 7e3b4151ffd74483134560dea9ad0c4e1719f049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:18 +0000
Subject: [PATCH 081/150] fix: bounding points of intersections of unbounded
 geometries

---
 foxes/utils/geom2d/area_geometry.py | 36 ++---------------------------
 1 file changed, 2 insertions(+), 34 deletions(-)

diff --git a/foxes/utils/geom2d/area_geometry.py b/foxes/utils/geom2d/area_geometry.py
index 88fc362..67fcb79 100644
--- a/foxes/utils/geom2d/area_geometry.py
+++ b/foxes/utils/geom2d/area_geometry.py
@@ -624,23 +624,7 @@ class InvertedAreaUnion(InvertedAreaGeometry):
             The minimal (x,y) point, shape = (2,)
 
         """
-        if len(self._geometry.geometries) == 1:
-            return self._geometry.geometries[0].inverse().p_min()
-
-        pmi = self._geometry.p_min()
-        if not np.any(np.isinf(pmi)):
-            return np.full(2, -np.inf, dtype=np.float64)
-        else:
-            out = np.full(2, np.inf, dtype=np.float64)
-            for g in self._geometry.geometries:
-                imi = g.inverse().p_min()
-                for di in range(2):
-                    if np.isinf(pmi[di]) and not np.isinf(imi[di]):
-                        out[di] = np.minimum(out[di], imi[di])
-            for di in range(2):
-                if not np.isinf(pmi[di]):
-                    out[di] = -np.inf
-            return out
+        return np.max([g.inverse().p_min() for g in self._geometry.geometries], axis=0)
 
     def p_max(self):
         """
@@ -652,23 +636,7 @@ class InvertedAreaUnion(InvertedAreaGeometry):
             The maximal (x,y) point, shape = (2,)
 
         """
-        if len(self._geometry.geometries) == 1:
-            return self._geometry.geometries[0].inverse().p_max()
-
-        pma = self._geometry.p_max()
-        if not np.any(np.isinf(pma)):
-            return np.full(2, np.inf, dtype=np.float64)
-        else:
-            out = np.full(2, -np.inf, dtype=np.float64)
-            for g in self._geometry.geometries:
-                ima = g.inverse().p_max()
-                for di in range(2):
-                    if np.isinf(pma[di]) and not np.isinf(ima[di]):
-                        out[di] = np.maximum(out[di], ima[di])
-            for di in range(2):
-                if not np.isinf(pma[di]):
-                    out[di] = np.inf
-            return out
+        return np.min([g.inverse().p_max() for g in self._geometry.geometries], axis=0)
 
 
 class AreaIntersection(AreaGeometry):
-- 
2.43.0


From 7bd3d2b4c54503a2306db0da0e76ffc7c8406b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:18 +0000
Subject: [PATCH 082/150] fix: figures of geometries that are unbounded on both
 sides

---
 foxes/utils/geom2d/area_geometry.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/foxes/utils/geom2d/area_geometry.py b/foxes/utils/geom2d/area_geometry.py
index 67fcb79..b1401d6 100644
--- a/foxes/utils/geom2d/area_geometry.py
+++ b/foxes/utils/geom2d/area_geometry.py
@@ -124,19 +124,19 @@ class AreaGeometry(metaclass=ABCMeta):
             if np.isinf(p0[0]):
                 q0 = self.inverse().p_min()
                 a0 = ax.get_xlim()[0]
-                p0[0] = a0 if a0 < q0[0] else q0[0]
+                p0[0] = a0 if np.isinf(q0[0]) or a0 < q0[0] else q0[0]
             if np.isinf(p0[1]):
                 q0 = self.inverse().p_min()
                 a0 = ax.get_ylim()[0]
-                p0[1] = a0 if a0 < q0[1] else q0[1]
+                p0[1] = a0 if np.isinf(q0[1]) or a0 < q0[1] else q0[1]
             if np.isinf(p1[0]):
                 q1 = self.inverse().p_max()
                 a1 = ax.get_xlim()[1]
-                p1[0] = a1 if a1 > q1[0] else q1[0]
+                p1[0] = a1 if np.isinf(q1[0]) or a1 > q1[0] else q1[0]
             if np.isinf(p1[1]):
                 q1 = self.inverse().p_max()
                 a1 = ax.get_ylim()[1]
-                p1[1] = a1 if a1 > q1[1] else q1[1]
+                p1[1] = a1 if np.isinf(q1[1]) or a1 > q1[1] else q1[1]
 
             delta = p1 - p0
             p0 -= 0.05 * delta
-- 
2.43.0


From 26b8c812c7283f88bec40ba97a8ae32d98188f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:26 +0000
Subject: [PATCH 083/150] fix: differences of wind directions beyond one full
 turn

---
 foxes/utils/wind_dir.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/foxes/utils/wind_dir.py b/foxes/utils/wind_dir.py
index a91876a..2166c38 100644
--- a/foxes/utils/wind_dir.py
+++ b/foxes/utils/wind_dir.py
@@ -136,7 +136,4 @@ def delta_wd(wd_a, wd_b):
     """
     out = wd_b - wd_a
 
-    out[out < -180.0] += 360.0
-    out[out > 180.0] -= 360.0
-
-    return out
+    return out - 360.0 * np.round(out / 360.0)
-- 
2.43.0


From a3db601716e848c42fc652cf9226bf40c88c1ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:26 +0000
Subject: [PATCH 084/150] fix: wind direction from wind vectors along negative
 axes

---
 foxes/utils/wind_dir.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/foxes/utils/wind_dir.py b/foxes/utils/wind_dir.py
index 2166c38..02f840c 100644
--- a/foxes/utils/wind_dir.py
+++ b/foxes/utils/wind_dir.py
@@ -78,14 +78,8 @@ def uv2wd(uv, axis=-1):
     :group: utils
 
     """
-    if axis == -1:
-        u = uv[..., 0]
-        v = uv[..., 1]
-    else:
-        s = tuple(0 if a == axis else slice(None) for a in range(len(uv.shape)))
-        u = uv[s]
-        s = tuple(1 if a == axis else slice(None) for a in range(len(uv.shape)))
-        v = uv[s]
+    u = np.take(uv, 0, axis=axis)
+    v = np.take(uv, 1, axis=axis)
 
     return np.mod(180 + np.rad2deg(np.arctan2(u, v)), 360)
 
-- 
2.43.0


From 3a9655c530a01b10886fb4bf77411f8c99708c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:26 +0000
Subject: [PATCH 085/150] fix: broadcasting and integers in the intersection
 area of circles

---
 foxes/utils/two_circles.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/foxes/utils/two_circles.py b/foxes/utils/two_circles.py
index 60d120a..4167b2d 100644
--- a/foxes/utils/two_circles.py
+++ b/foxes/utils/two_circles.py
@@ -82,7 +82,8 @@ def calc_area(r1, r2, d):
     """
 
     # prepare:
-    out = np.zeros_like(d)
+    r1, r2, d = np.broadcast_arrays(r1, r2, d)
+    out = np.zeros(d.shape, dtype=np.float64)
 
     # condition d < r1 + r2:
     sel0 = d < r1 + r2
-- 
2.43.0


From e65eb3882cb8822472e73808e3b97889b94baa78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:26 +0000
Subject: [PATCH 086/150] fix: single and threefold roots of cubic polynomials

---
 foxes/utils/cubic_roots.py | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/foxes/utils/cubic_roots.py b/foxes/utils/cubic_roots.py
index 37da261..058450e 100644
--- a/foxes/utils/cubic_roots.py
+++ b/foxes/utils/cubic_roots.py
@@ -52,23 +52,21 @@ def cubic_roots(a0, a1, a2, a3=None):
     D = Q3 + R * R
     b_a_3 = (1.0 / 3.0) * b_a
 
-    sel = Q == 0.0
+    # One threefold real root
+    sel = (Q == 0.0) & (R == 0.0)
     if np.any(sel):
-        o = out[sel, 0]
+        out[sel, 0] = -b_a_3[sel]
 
-        sel2 = R == 0.0
-        if np.any(sel2):
-            o[sel2] = -b_a_3[sel][sel2]
-
-        if np.any(~sel2):
-            o[~sel2] = np.pow(2 * R[sel][~sel2], 1 / 3.0) - b_a_3[sel][~sel2]
-
-        out[sel, 0] = o
+    # One real root
+    sel = D > 0.0
+    if np.any(sel):
+        A = np.cbrt(R[sel] + np.copysign(np.sqrt(D[sel]), R[sel]))
+        out[sel, 0] = A - Q[sel] / A - b_a_3[sel]
 
-    sel = D <= 0.0
+    # Three real roots
+    sel = (D <= 0.0) & (Q < 0.0)
     if np.any(sel):
-        # Three real roots
-        theta = np.arccos(R[sel] / np.sqrt(-Q3[sel]))
+        theta = np.arccos(np.clip(R[sel] / np.sqrt(-Q3[sel]), -1.0, 1.0))
         sqrt_Q = np.sqrt(-Q[sel])
 
         out[sel, 0] = 2 * sqrt_Q * np.cos(theta / 3.0) - b_a_3[sel]
-- 
2.43.0


From de4378f68633fdfbef6b8685ee8277970fa08bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:26 +0000
Subject: [PATCH 087/150] fix: arguments of exec_python for nested objects

---
 foxes/utils/exec_python.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/foxes/utils/exec_python.py b/foxes/utils/exec_python.py
index 8627eea..9572884 100644
--- a/foxes/utils/exec_python.py
+++ b/foxes/utils/exec_python.py
@@ -51,9 +51,12 @@ def exec_python(s, indicator="%", newline=";", globals=globals(), locals={}):
                     exec(c, globals, locals)
                 return locals[v]
     elif isinstance(s, list):
-        return [exec_python(a, indicator) for a in s]
+        return [exec_python(a, indicator, newline, globals, locals) for a in s]
     elif isinstance(s, tuple):
-        return tuple(exec_python(list(s), indicator))
+        return tuple(exec_python(list(s), indicator, newline, globals, locals))
     elif isinstance(s, dict):
-        return {k: exec_python(a, indicator) for k, a in s.items()}
+        return {
+            k: exec_python(a, indicator, newline, globals, locals)
+            for k, a in s.items()
+        }
     return s
-- 
2.43.0


From 7d8b650d35c7eec313680acc8930e51bf1e55eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:26 +0000
Subject: [PATCH 088/150] fix: Dict with other than string keys and with
 overlapping arguments

---
 foxes/utils/dict.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/foxes/utils/dict.py b/foxes/utils/dict.py
index 5c0afa4..9999889 100644
--- a/foxes/utils/dict.py
+++ b/foxes/utils/dict.py
@@ -42,18 +42,19 @@ class Dict(dict):
                 }
             )
 
-        super().__init__(
-            **tmp,
-            **{
+        tmp.update(
+            {
                 k: (
                     Dict(d, name=k)
                     if isinstance(d, dict) and not isinstance(d, Dict)
                     else d
                 )
                 for k, d in kwargs.items()
-            },
+            }
         )
 
+        super().__init__(tmp)
+
         self.name = name if name is not None else type(self).__name__
 
     def get_item(self, key, *deflt, prnt=True):
-- 
2.43.0


From ec30113cc79d8b90a4334477e327112bfe52c11d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:52 +0000
Subject: [PATCH 089/150] fix: model names with extra characters after the end
 of the template

---
 foxes/utils/factory.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/foxes/utils/factory.py b/foxes/utils/factory.py
index ea230c4..4c1b561 100644
--- a/foxes/utils/factory.py
+++ b/foxes/utils/factory.py
@@ -280,6 +280,8 @@ class Factory:
         for pi, p in enumerate(self._pre):
             if len(p) > 0:
                 i = name[j:].find(p)
+                if pi == len(self._pre) - 1:
+                    i = len(name) - j - len(p) if name[j:].endswith(p) else -1
                 if i < 0 or (pi == 0 and i > 0):
                     if error:
                         raise ValueError(
-- 
2.43.0


From d33078a485eb7a4d9fa392b1ea4d2a80fab3b269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:52 +0000
Subject: [PATCH 090/150] fix: notation of numbers in the example names of
 model factories

---
 foxes/utils/factory.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/foxes/utils/factory.py b/foxes/utils/factory.py
index 4c1b561..ef0bf7a 100644
--- a/foxes/utils/factory.py
+++ b/foxes/utils/factory.py
@@ -133,8 +133,8 @@ class Factory:
             n=5,
             n2=9,
             superposition="linear",
-            kTI=0.2,
-            kb=0.001,
+            kTI="02",
+            kb="0001",
             step=100,
             dx=100,
             dt="10s",
@@ -385,7 +385,7 @@ class WakeKFactory:
                 f"String '_[wake_k]' not found in name template '{name_template}'"
             )
 
-        exvars = dict(k=0.04, ka=0.2, ambka=0.4, kb=0.001)
+        exvars = dict(k="004", ka="02", ambka="04", kb="0001")
         if "example_vars" in kwargs:
             exvars.update(kwargs.pop("example_vars"))
 
-- 
2.43.0


From be6c6aab8ec3e316b21b5c6e0f41a87bca529bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:44 +0000
Subject: [PATCH 091/150] fix: engine map functions receive the original inputs

The inputs were converted to a numpy array for splitting them into parts,
which changed their types and failed for inputs of different shapes.
---
 foxes/engines/dask.py | 8 ++++++--
 foxes/engines/pool.py | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/foxes/engines/dask.py b/foxes/engines/dask.py
index 8cbf28a..d8a333f 100644
--- a/foxes/engines/dask.py
+++ b/foxes/engines/dask.py
@@ -128,14 +128,18 @@ class DaskBaseEngine(Engine):
             The list of results
 
         """
+        inputs = list(inputs)
         if len(inputs) == 0:
             return []
         elif len(inputs) == 1:
             return [func(inputs[0], *args, **kwargs)]
         else:
-            inptl = np.array_split(inputs, min(self.n_procs, len(inputs)))
+            indsl = np.array_split(
+                np.arange(len(inputs)), min(self.n_procs, len(inputs))
+            )
             jobs = []
-            for subi in inptl:
+            for inds in indsl:
+                subi = [inputs[i] for i in inds]
                 jobs.append(_run_map(func, subi, *args, **kwargs))
             results = dask.compute(jobs)[0]
             out = []
diff --git a/foxes/engines/pool.py b/foxes/engines/pool.py
index 2c17007..20f6ecb 100644
--- a/foxes/engines/pool.py
+++ b/foxes/engines/pool.py
@@ -116,14 +116,18 @@ class PoolEngine(Engine):
             The list of results
 
         """
+        inputs = list(inputs)
         if len(inputs) == 0:
             return []
         elif len(inputs) == 1:
             return [func(inputs[0], *args, **kwargs)]
         else:
-            inptl = np.array_split(inputs, min(self.n_procs, len(inputs)))
+            indsl = np.array_split(
+                np.arange(len(inputs)), min(self.n_procs, len(inputs))
+            )
             jobs = []
-            for subi in inptl:
+            for inds in indsl:
+                subi = [inputs[i] for i in inds]
                 jobs.append(self._submit(_run_map, func, subi, *args, **kwargs))
             results = []
             for j in jobs:
-- 
2.43.0


From 939576f983d650816bb3cb0eea52061e575f09ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:44 +0000
Subject: [PATCH 092/150] fix: default engine stays active if a calculation
 fails

The engine was not re-initialized in case of an exception, such that leaving
the with-block replaced the original exception by a ValueError.
---
 foxes/engines/default.py | 46 +++++++++++++++++++++-------------------
 1 file changed, 24 insertions(+), 22 deletions(-)

diff --git a/foxes/engines/default.py b/foxes/engines/default.py
index 1576b10..15c2008 100644
--- a/foxes/engines/default.py
+++ b/foxes/engines/default.py
@@ -43,16 +43,17 @@ class DefaultEngine(Engine):
 
         self.finalize()
 
-        with Engine.new(
-            "process",
-            n_procs=self.n_procs,
-            chunk_size_states=self.chunk_size_states,
-            chunk_size_points=self.chunk_size_points,
-            verbosity=self.verbosity,
-        ) as e:
-            results = e.map(func, inputs, *args, **kwargs)
-
-        self.initialize()
+        try:
+            with Engine.new(
+                "process",
+                n_procs=self.n_procs,
+                chunk_size_states=self.chunk_size_states,
+                chunk_size_points=self.chunk_size_points,
+                verbosity=self.verbosity,
+            ) as e:
+                results = e.map(func, inputs, *args, **kwargs)
+        finally:
+            self.initialize()
 
         return results
 
@@ -102,17 +103,18 @@ class DefaultEngine(Engine):
 
         self.finalize()
 
-        with Engine.new(
-            ename,
-            n_procs=self.n_procs,
-            chunk_size_states=self.chunk_size_states,
-            chunk_size_points=self.chunk_size_points,
-            verbosity=self.verbosity,
-        ) as e:
-            results = e.run_calculation(
-                algo, model, model_data, farm_data, point_data=point_data, **kwargs
-            )
-
-        self.initialize()
+        try:
+            with Engine.new(
+                ename,
+                n_procs=self.n_procs,
+                chunk_size_states=self.chunk_size_states,
+                chunk_size_points=self.chunk_size_points,
+                verbosity=self.verbosity,
+            ) as e:
+                results = e.run_calculation(
+                    algo, model, model_data, farm_data, point_data=point_data, **kwargs
+                )
+        finally:
+            self.initialize()
 
         return results
-- 
2.43.0


From 4e37878f6c3ef83cf3313f9385613f4e5aaaa589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:42 +0000
Subject: [PATCH 093/150] fix: failed attempts to enter an engine have no side
 effects

An engine that could not be entered, since another one is active, stayed in
entered state and could not be used afterwards, and its worker pool, cluster or
dask configuration stayed alive.
---
 foxes/core/engine.py  |  6 +++++-
 foxes/engines/dask.py | 27 ++++++++++++++++++---------
 foxes/engines/pool.py |  9 +++++++--
 3 files changed, 30 insertions(+), 12 deletions(-)

diff --git a/foxes/core/engine.py b/foxes/core/engine.py
index 8e20c01..ea6be83 100644
--- a/foxes/core/engine.py
+++ b/foxes/core/engine.py
@@ -76,7 +76,11 @@ class Engine(ABC):
             raise ValueError(f"Enter called for already entered engine")
         self.__entered = True
         if not self.initialized:
-            self.initialize()
+            try:
+                self.initialize()
+            except Exception:
+                self.__entered = False
+                raise
         return self
 
     def __exit__(self, *exit_args):
diff --git a/foxes/engines/dask.py b/foxes/engines/dask.py
index d8a333f..2236a04 100644
--- a/foxes/engines/dask.py
+++ b/foxes/engines/dask.py
@@ -83,10 +83,11 @@ class DaskBaseEngine(Engine):
         self.progress_bar = progress_bar
 
     def __enter__(self):
+        super().__enter__()
         if self.progress_bar:
             self._pbar = ProgressBar(minimum=2)
             self._pbar.__enter__()
-        return super().__enter__()
+        return self
 
     def __exit__(self, *args):
         if self.progress_bar:
@@ -97,8 +98,8 @@ class DaskBaseEngine(Engine):
         """
         Initializes the engine.
         """
-        dask.config.set(**self.dask_config)
         super().initialize()
+        dask.config.set(**self.dask_config)
 
     def map(
         self,
@@ -184,7 +185,8 @@ class DaskBaseEngine(Engine):
             Arguments from the exit function
 
         """
-        dask.config.refresh()
+        if self.initialized:
+            dask.config.refresh()
         super().finalize(*exit_args, **exit_kwargs)
 
 
@@ -820,14 +822,21 @@ class LocalClusterEngine(DaskBaseEngine):
         self._client = None
 
     def __enter__(self):
-        self.print("Launching local dask cluster..")
-        self._cluster = distributed.LocalCluster(
-            n_workers=self.n_procs, **self.cluster_pars
-        ).__enter__()
-        self._client = distributed.Client(self._cluster, **self.client_pars).__enter__()
+        super().__enter__()
+        try:
+            self.print("Launching local dask cluster..")
+            self._cluster = distributed.LocalCluster(
+                n_workers=self.n_procs, **self.cluster_pars
+            ).__enter__()
+            self._client = distributed.Client(
+                self._cluster, **self.client_pars
+            ).__enter__()
+        except Exception:
+            super().__exit__(None, None, None)
+            raise
         self.print(self._cluster)
         self.print(f"Dashboard: {self._client.dashboard_link}\n")
-        return super().__enter__()
+        return self
 
     def __exit__(self, *args):
         self.print(f"Shutting down {type(self._cluster).__name__}")
diff --git a/foxes/engines/pool.py b/foxes/engines/pool.py
index 20f6ecb..9620a5d 100644
--- a/foxes/engines/pool.py
+++ b/foxes/engines/pool.py
@@ -81,8 +81,13 @@ class PoolEngine(Engine):
         pass
 
     def __enter__(self):
-        self._create_pool()
-        return super().__enter__()
+        super().__enter__()
+        try:
+            self._create_pool()
+        except Exception:
+            super().__exit__(None, None, None)
+            raise
+        return self
 
     def __exit__(self, *exit_args):
         self._shutdown_pool()
-- 
2.43.0


From e20be818591ea8a5aa7508aa267c329355334635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:42 +0000
Subject: [PATCH 094/150] fix: local cluster engine does not modify the default
 dask config

The scheduler setting was written into the shared default argument, such that
all later dask engines of the session required a distributed client.
---
 foxes/engines/dask.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/foxes/engines/dask.py b/foxes/engines/dask.py
index 2236a04..4a053ff 100644
--- a/foxes/engines/dask.py
+++ b/foxes/engines/dask.py
@@ -79,7 +79,7 @@ class DaskBaseEngine(Engine):
 
         load_dask()
 
-        self.dask_config = dask_config
+        self.dask_config = dict(dask_config)
         self.progress_bar = progress_bar
 
     def __enter__(self):
-- 
2.43.0


From 70fef70c3d626ee6c38414ca936e2cb3a7df8bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:05 +0000
Subject: [PATCH 095/150] fix: loop dimensions of engines with chunk size for
 points only

---
 foxes/core/engine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/foxes/core/engine.py b/foxes/core/engine.py
index ea6be83..34011c0 100644
--- a/foxes/core/engine.py
+++ b/foxes/core/engine.py
@@ -200,7 +200,7 @@ class Engine(ABC):
             The loop dimensions (possibly chunked)
 
         """
-        if self.chunk_size_states is None and self.chunk_size_states is None:
+        if self.chunk_size_states is None and self.chunk_size_points is None:
             return []
         elif self.chunk_size_states is None:
             return [FC.TARGET]
-- 
2.43.0


From f009466aa788588307784af0476bf077b01a5457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:39 +0000
Subject: [PATCH 096/150] fix: local cluster engine uses calculation parameters
 of the current run

Scattering a dict uses its keys as data keys, such that the parameters of the
previous calculation were used if they were still in the memory of the cluster.
---
 foxes/engines/dask.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/foxes/engines/dask.py b/foxes/engines/dask.py
index 4a053ff..0336a8f 100644
--- a/foxes/engines/dask.py
+++ b/foxes/engines/dask.py
@@ -938,7 +938,7 @@ class LocalClusterEngine(DaskBaseEngine):
         n_chunks_all = n_chunks_states * n_chunks_targets
         falgo = self._client.scatter(algo, broadcast=True)
         fmodel = self._client.scatter(model, broadcast=True)
-        cpars = self._client.scatter(calc_pars, broadcast=True)
+        (cpars,) = self._client.scatter([calc_pars], broadcast=True, hash=False)
         all_data = [falgo, fmodel, cpars]
 
         # submit chunks:
-- 
2.43.0


From 3c76a21f8660673af855393155026b15c5d44b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:39 +0000
Subject: [PATCH 097/150] fix: isolate algorithm and models between the threads
 of a cluster worker

---
 foxes/engines/dask.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/foxes/engines/dask.py b/foxes/engines/dask.py
index 0336a8f..3da7a77 100644
--- a/foxes/engines/dask.py
+++ b/foxes/engines/dask.py
@@ -735,6 +735,10 @@ def _run_on_cluster(
 ):
     """Helper function for running on a cluster"""
 
+    # the threads of a worker share scattered objects, hence each job needs
+    # its own copy of those that are modified during calculations:
+    algo, model = deepcopy((algo, model))
+
     algo.reset_chunk_store(chunk_store)
 
     mdata = MData(
-- 
2.43.0


From 6ed06fa7ed47792d8e19e47707397209ab998e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:43 +0000
Subject: [PATCH 098/150] fix: run_outputs returns the labels only if requested

The conditional expression was part of the tuple, such that always a
tuple of outputs and result labels was returned.
---
 foxes/input/yaml/dict.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/foxes/input/yaml/dict.py b/foxes/input/yaml/dict.py
index 70f9379..c9980c9 100644
--- a/foxes/input/yaml/dict.py
+++ b/foxes/input/yaml/dict.py
@@ -438,7 +438,7 @@ def run_outputs(
         if len(odicts):
             _print()
 
-    return out if not ret_rlabels else out, rlabels
+    return (out, rlabels) if ret_rlabels else out
 
 
 def run_dict(idict, *args, verbosity=None, **kwargs):
-- 
2.43.0


From 39a36f4f4ed0a20cb8d39a52728f60655753663d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:43 +0000
Subject: [PATCH 099/150] fix: empty strings as parameters of output functions

The look-up of result labels failed with an IndexError.
---
 foxes/input/yaml/dict.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/foxes/input/yaml/dict.py b/foxes/input/yaml/dict.py
index c9980c9..20a4e48 100644
--- a/foxes/input/yaml/dict.py
+++ b/foxes/input/yaml/dict.py
@@ -302,7 +302,7 @@ def run_obj_function(
 
     # replace result labels by objects:
     for k, d in fdict.items():
-        if isinstance(d, str) and d[0] == "$":
+        if isinstance(d, str) and d.startswith("$"):
             fdict[k] = _get_object(rlabels, d)
 
     # run function:
-- 
2.43.0


From cac69b3a6bf4cb9a62b9e3a7d28cb8be5e40aa4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:43 +0000
Subject: [PATCH 100/150] fix: refusal of wrong result labels of output
 functions

The message of the assertion used an unknown variable and raised a
NameError instead.
---
 foxes/input/yaml/dict.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/foxes/input/yaml/dict.py b/foxes/input/yaml/dict.py
index 20a4e48..8cc24f2 100644
--- a/foxes/input/yaml/dict.py
+++ b/foxes/input/yaml/dict.py
@@ -323,10 +323,10 @@ def run_obj_function(
             if k not in ["", "none", "None", "_", "__"]:
                 assert (
                     k[0] == "$"
-                ), f"Output {i} of type '{ocls}', function '{fname}': result labels must start with '$', got '{k}'"
+                ), f"Output of type '{ocls}', function '{fname}': result labels must start with '$', got '{k}'"
                 assert (
                     "[" not in k and "]" not in k and "," not in k
-                ), f"Output {i} of type '{ocls}', function '{fname}': result labels cannot contain '[' or ']' or comma, got '{k}'"
+                ), f"Output of type '{ocls}', function '{fname}': result labels cannot contain '[' or ']' or comma, got '{k}'"
                 _print(f"    result label {k}: {type(r).__name__}")
                 rlabels[k] = r
 
-- 
2.43.0


From 051861d405011b110dd64ea51d07c6db163fc252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:43 +0000
Subject: [PATCH 101/150] fix: calc_points section of parameter files

The run flag had no default, other than for calc_farm, and relative
paths of points files were not interpreted relative to the input
directory.
---
 foxes/input/yaml/dict.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/foxes/input/yaml/dict.py b/foxes/input/yaml/dict.py
index 8cc24f2..ed5c98a 100644
--- a/foxes/input/yaml/dict.py
+++ b/foxes/input/yaml/dict.py
@@ -7,7 +7,7 @@ from foxes.core import States, Engine, WindFarm, Algorithm
 from foxes.models import ModelBook
 from foxes.output import Output
 from foxes.utils import Dict, new_cls
-from foxes.config import config
+from foxes.config import config, get_input_path
 import foxes.constants as FC
 
 
@@ -492,10 +492,11 @@ def run_dict(idict, *args, verbosity=None, **kwargs):
     point_results = None
     if "calc_points" in idict:
         rdict = idict.get_item("calc_points")
-        if rdict.pop_item("run"):
+        if rdict.pop_item("run", True):
             _print("Running calc_points")
             points = rdict.pop_item("points")
             if isinstance(points, str):
+                points = get_input_path(points)
                 _print("Reading file", points)
                 points = pd.read_csv(points).to_numpy()
             point_results = algo.calc_points(farm_results, points=points, **rdict)
-- 
2.43.0


From 64c6affbca11d2725e769be60259de082c6e890e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:07 +0000
Subject: [PATCH 102/150] fix: finalize the engine of run_dict also if the run
 fails

The engine that had been started for the run was left behind, still
initialized and set as the current engine, if any of the steps failed.
---
 foxes/input/yaml/dict.py | 84 +++++++++++++++++++++-------------------
 1 file changed, 44 insertions(+), 40 deletions(-)

diff --git a/foxes/input/yaml/dict.py b/foxes/input/yaml/dict.py
index ed5c98a..13fc35b 100644
--- a/foxes/input/yaml/dict.py
+++ b/foxes/input/yaml/dict.py
@@ -145,19 +145,6 @@ def read_dict(
             algo is None
         ), f"Cannot handle both the algo and the farm argument, please drop one"
 
-    # create engine:
-    engine = None
-    if engine_pars is not None:
-        engine = Engine.new(**engine_pars)
-        _print(f"Initializing engine: {engine}")
-        engine.initialize()
-    elif "engine" in idict:
-        if verbosity is not None:
-            idict["verbosity"] = verbosity - 1
-        engine = Engine.new(**idict["engine"])
-        engine.initialize()
-        _print(f"Initializing engine: {engine}")
-
     # create algorithm:
     if algo is None:
         adict = idict.get_item("algorithm")
@@ -171,6 +158,19 @@ def read_dict(
             adict.update({v: d for v, d in algo_pars.items() if d is not None})
         algo = Algorithm.new(**adict)
 
+    # create engine:
+    engine = None
+    if engine_pars is not None:
+        engine = Engine.new(**engine_pars)
+        _print(f"Initializing engine: {engine}")
+        engine.initialize()
+    elif "engine" in idict:
+        if verbosity is not None:
+            idict["verbosity"] = verbosity - 1
+        engine = Engine.new(**idict["engine"])
+        engine.initialize()
+        _print(f"Initializing engine: {engine}")
+
     _print("------------------------------------------------------------------------\n")
 
     return algo, engine
@@ -479,37 +479,41 @@ def run_dict(idict, *args, verbosity=None, **kwargs):
     # read components:
     algo, engine = read_dict(idict, *args, verbosity=verbosity, **kwargs)
 
-    # run farm calculation:
-    rdict = idict.get_item("calc_farm", Dict(name=idict.name + ".calc_farm"))
-    if rdict.pop_item("run", True):
-        _print("Running calc_farm")
-        farm_results = algo.calc_farm(**rdict)
-    else:
-        farm_results = None
-    out = (farm_results,)
-
-    # run points calculation:
-    point_results = None
-    if "calc_points" in idict:
-        rdict = idict.get_item("calc_points")
+    try:
+        # run farm calculation:
+        rdict = idict.get_item("calc_farm", Dict(name=idict.name + ".calc_farm"))
         if rdict.pop_item("run", True):
-            _print("Running calc_points")
-            points = rdict.pop_item("points")
-            if isinstance(points, str):
-                points = get_input_path(points)
-                _print("Reading file", points)
-                points = pd.read_csv(points).to_numpy()
-            point_results = algo.calc_points(farm_results, points=points, **rdict)
+            _print("Running calc_farm")
+            farm_results = algo.calc_farm(**rdict)
         else:
-            point_results = None
-        out += (point_results,)
+            farm_results = None
+        out = (farm_results,)
+
+        # run points calculation:
+        point_results = None
+        if "calc_points" in idict:
+            rdict = idict.get_item("calc_points")
+            if rdict.pop_item("run", True):
+                _print("Running calc_points")
+                points = rdict.pop_item("points")
+                if isinstance(points, str):
+                    points = get_input_path(points)
+                    _print("Reading file", points)
+                    points = pd.read_csv(points).to_numpy()
+                point_results = algo.calc_points(farm_results, points=points, **rdict)
+            else:
+                point_results = None
+            out += (point_results,)
 
-    # run outputs:
-    out += (run_outputs(idict, algo, farm_results, point_results, verbosity=verbosity),)
+        # run outputs:
+        out += (
+            run_outputs(idict, algo, farm_results, point_results, verbosity=verbosity),
+        )
 
     # shutdown engine, if created above:
-    if engine is not None:
-        _print(f"Finalizing engine: {engine}")
-        engine.finalize()
+    finally:
+        if engine is not None:
+            _print(f"Finalizing engine: {engine}")
+            engine.finalize()
 
     return out
-- 
2.43.0


From a6e136bd9873247178542969c2170b897d7557c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:07 +0000
Subject: [PATCH 103/150] fix: verbosity of the engine in read_dict

The verbosity was written to the top level of the input dict, instead
of the engine section.
---
 foxes/input/yaml/dict.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/foxes/input/yaml/dict.py b/foxes/input/yaml/dict.py
index 13fc35b..1a060be 100644
--- a/foxes/input/yaml/dict.py
+++ b/foxes/input/yaml/dict.py
@@ -166,7 +166,7 @@ def read_dict(
         engine.initialize()
     elif "engine" in idict:
         if verbosity is not None:
-            idict["verbosity"] = verbosity - 1
+            idict["engine"]["verbosity"] = verbosity - 1
         engine = Engine.new(**idict["engine"])
         engine.initialize()
         _print(f"Initializing engine: {engine}")
-- 
2.43.0


From 0688faded67c74f1f6f87b7cdb4bfe29ff09e220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:07 +0000
Subject: [PATCH 104/150] fix: output directory of foxes_yaml

Output files were written relative to the current directory, whereas
the documentation promises that the directory of the yaml file is the
working directory for reading and writing.
---
 foxes/input/yaml/yaml.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/foxes/input/yaml/yaml.py b/foxes/input/yaml/yaml.py
index 2b22425..b1bff1d 100644
--- a/foxes/input/yaml/yaml.py
+++ b/foxes/input/yaml/yaml.py
@@ -1,6 +1,7 @@
 import argparse
 from pathlib import Path
 
+from foxes.config import get_path
 from foxes.utils import Dict
 
 from .dict import run_dict
@@ -97,7 +98,12 @@ def foxes_yaml():
         wake_frame=args.frame,
         engine_pars=epars,
         iterative=args.iterative,
+        work_dir=fpath.parent,
         input_dir=fpath.parent,
-        output_dir=args.output_dir,
+        output_dir=(
+            get_path(args.output_dir, base=fpath.parent)
+            if args.output_dir is not None
+            else None
+        ),
         verbosity=args.verbosity,
     )
-- 
2.43.0


From 788dea94a0a79920c8bd70c5bffbe77021a2121e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:33 +0000
Subject: [PATCH 105/150] fix: turbine data file names without any separator

Parsing a file name like curve.csv failed with an UnboundLocalError.
---
 foxes/data/parse.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/foxes/data/parse.py b/foxes/data/parse.py
index d33358f..cc98126 100644
--- a/foxes/data/parse.py
+++ b/foxes/data/parse.py
@@ -42,6 +42,8 @@ def parse_Pct_file_name(file_name):
         pieces = sname.split("-")
     elif "_" in sname:
         pieces = sname.split("_")
+    else:
+        return pars
 
     pars["name"] = pieces[0]
     pieces = pieces[1:]
-- 
2.43.0


From 100ec0f4a0beb9a1166f95931b8b83b7562d894f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:44 +0000
Subject: [PATCH 106/150] fix: windio input of a single state

Scalar wind speed and direction were never recognized as a single
state, since the names instead of the values of the coordinates were
checked, and the code that creates the state could not run.
---
 foxes/input/yaml/windio/read_site.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/foxes/input/yaml/windio/read_site.py b/foxes/input/yaml/windio/read_site.py
index ccc952c..8789b89 100644
--- a/foxes/input/yaml/windio/read_site.py
+++ b/foxes/input/yaml/windio/read_site.py
@@ -47,14 +47,21 @@ def _get_SingleStateStates(
     """Try to generate single state parameters
     :group: input.yaml.windio
     """
-    for c in coords:
+    if FV.WS not in coords or FV.WD not in coords:
+        return False
+    for c in coords.values():
         if not isinstance(c, Number):
             return False
+    for d in dims.values():
+        if len(d):
+            return False
 
     if verbosity > 2:
         print("        selecting class 'SingleStateStates'")
 
     smap = {FV.WS: "ws", FV.WD: "wd", FV.TI: "ti", FV.RHO: "rho"}
+    if len(profiles):
+        smap.update({v: v for v in [FV.H, FV.Z0, FV.MOL]})
 
     data = {smap[v]: d for v, d in fixval.items()}
     for v, d in coords.items():
@@ -68,8 +75,6 @@ def _get_SingleStateStates(
         elif verbosity > 1:
             print(f"        ignoring field '{v}' with dims {dims[v]}")
 
-    sdata = pd.DataFrame(index=coords[FC.TIME], data=data)
-    sdata.index.name = FC.TIME
     states_dict.update(
         dict(
             states_type="SingleStateStates",
@@ -263,7 +268,7 @@ def read_site(wio_dict, verbosity=1):
     if verbosity > 2:
         print("      Coords:")
         for c, d in coords.items():
-            print(f"        {c}: Shape {d.shape}")
+            print(f"        {c}: Shape {np.shape(d)}")
         print("      Fields:")
         for f, d in dims.items():
             if len(d):
-- 
2.43.0


From 0521dd71d3c2b94a17c9c2e751686a893e48ee0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:44 +0000
Subject: [PATCH 107/150] fix: constant turbulence intensity in windio input

Constant fields were overwritten by the default values.
---
 foxes/input/yaml/windio/read_site.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/foxes/input/yaml/windio/read_site.py b/foxes/input/yaml/windio/read_site.py
index 8789b89..069cad6 100644
--- a/foxes/input/yaml/windio/read_site.py
+++ b/foxes/input/yaml/windio/read_site.py
@@ -104,7 +104,10 @@ def _get_Timeseries(
                 fix[v] = d
             elif verbosity > 2:
                 print(f"        ignoring field '{v}' with dims {dims[v]}")
-        fix.update({v: d for v, d in fixval.items() if v not in data})
+        fix = {
+            **{v: d for v, d in fixval.items() if v not in data},
+            **fix,
+        }
 
         sdata = pd.DataFrame(index=coords[FC.TIME], data=data)
         sdata.index.name = FC.TIME
@@ -147,7 +150,10 @@ def _get_MultiHeightNCTimeseries(
                 fix[v] = d
             elif verbosity > 2:
                 print(f"        ignoring field '{v}' with dims {dims[v]}")
-        fix.update({v: d for v, d in fixval.items() if v not in data})
+        fix = {
+            **{v: d for v, d in fixval.items() if v not in data},
+            **fix,
+        }
 
         sdata = Dataset(coords=coords, data_vars=data)
         states_dict.update(
-- 
2.43.0


From 8d5511d52e65e44077c1bf4f810357938e8b5966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:44 +0000
Subject: [PATCH 108/150] fix: name of the windio deflection model
 Bastankhah2016

The model could not be selected, due to a typo.
---
 foxes/input/yaml/windio/read_attributes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/foxes/input/yaml/windio/read_attributes.py b/foxes/input/yaml/windio/read_attributes.py
index 90cf60e..e9dcef7 100644
--- a/foxes/input/yaml/windio/read_attributes.py
+++ b/foxes/input/yaml/windio/read_attributes.py
@@ -231,7 +231,7 @@ def _read_deflection(deflection, induction, algo_dict, mbook, verbosity):
     defl_def_map = Dict(
         {
             "None": "RotorWD",
-            "Batankhah2016": "YawedWakes",
+            "Bastankhah2016": "YawedWakes",
         },
         name="defl_def_map",
     )
-- 
2.43.0


From 470a43d4f5ebb458e902f11295eac03f463a4003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:44 +0000
Subject: [PATCH 109/150] fix: class name of the windio wind deficit model
 TurbOPark

The class TurbOPark does not exist.
---
 foxes/input/yaml/windio/read_attributes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/foxes/input/yaml/windio/read_attributes.py b/foxes/input/yaml/windio/read_attributes.py
index e9dcef7..aa85cdc 100644
--- a/foxes/input/yaml/windio/read_attributes.py
+++ b/foxes/input/yaml/windio/read_attributes.py
@@ -19,7 +19,7 @@ def _read_wind_deficit(
             "Jensen": "JensenWake",
             "Bastankhah2014": "Bastankhah2014",
             "Bastankhah2016": "Bastankhah2016",
-            "TurbOPark": "TurbOPark",
+            "TurbOPark": "TurbOParkWake",
         },
         name="wind_def_map",
     )
-- 
2.43.0


From 262db50d5bfae67ae299b64f4327d8c8d73c189e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:44 +0000
Subject: [PATCH 110/150] fix: windio input without background averaging

The algorithms do not accept None as the name of the rotor model, the
default model is used instead.
---
 foxes/input/yaml/windio/read_attributes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/foxes/input/yaml/windio/read_attributes.py b/foxes/input/yaml/windio/read_attributes.py
index aa85cdc..5ec2999 100644
--- a/foxes/input/yaml/windio/read_attributes.py
+++ b/foxes/input/yaml/windio/read_attributes.py
@@ -200,7 +200,7 @@ def _read_rotor_averaging(rotor_averaging, algo_dict, verbosity):
     if background_averaging in ["center", "centre"]:
         algo_dict["rotor_model"] = "centre"
     elif background_averaging in ["none", "None", None]:
-        algo_dict["rotor_model"] = None
+        algo_dict.pop("rotor_model", None)
     elif background_averaging == "grid":
         algo_dict["rotor_model"] = f"grid{nx*ny}"
     else:
@@ -222,7 +222,7 @@ def _read_rotor_averaging(rotor_averaging, algo_dict, verbosity):
         algo_dict["partial_wakes"] = wake_averaging
 
     if verbosity > 2:
-        print("        --> rotor_model     :", algo_dict["rotor_model"])
+        print("        --> rotor_model     :", algo_dict.get("rotor_model", None))
         print("        --> partial_wakes   :", algo_dict["partial_wakes"])
 
 
-- 
2.43.0


From 1035dba2d09070c93d1cd52248cd686fdd544cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:44 +0000
Subject: [PATCH 111/150] fix: windio outputs without the optional cases_run
 section

All cases are written if there is no selection.
---
 foxes/input/yaml/windio/read_outputs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/foxes/input/yaml/windio/read_outputs.py b/foxes/input/yaml/windio/read_outputs.py
index b0c7cd5..5930f21 100644
--- a/foxes/input/yaml/windio/read_outputs.py
+++ b/foxes/input/yaml/windio/read_outputs.py
@@ -190,7 +190,7 @@ def read_outputs(wio_outs, idict, algo, verbosity=1):
     cases_run = Dict(
         wio_outs.pop_item("cases_run", {}), name=wio_outs.name + ".cases_run"
     )
-    if cases_run.pop_item("all_occurences"):
+    if cases_run.pop_item("all_occurences", "subset" not in cases_run):
         states_isel = None
     else:
         states_isel = cases_run.pop_item("subset")
-- 
2.43.0


From 021224c9c915589279df9a6dec2ee291ccbb26cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:56 +0000
Subject: [PATCH 112/150] fix: wind speed exponents for windio turbines with Cp
 curve

The exponents were only used for turbines that are described by power
curves.
---
 foxes/input/yaml/windio/read_farm.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/foxes/input/yaml/windio/read_farm.py b/foxes/input/yaml/windio/read_farm.py
index 36efebf..3d2a1f7 100644
--- a/foxes/input/yaml/windio/read_farm.py
+++ b/foxes/input/yaml/windio/read_farm.py
@@ -37,6 +37,13 @@ def read_turbine_types(wio_farm, mbook, ws_exp_P, ws_exp_ct, verbosity):
         if verbosity >= level:
             print(*args, **kwargs)
 
+    def _get_wse_var(wse):
+        if wse not in [1, 2, 3]:
+            raise ValueError(
+                f"Expecting wind speed exponent 1, 2 or 3, got {wse}"
+            )
+        return FV.REWS if wse == 1 else (FV.REWS2 if wse == 2 else FV.REWS3)
+
     if "turbine_types" not in wio_farm:
         wio_farm["turbine_types"] = {0: wio_farm["turbines"]}
 
@@ -69,13 +76,6 @@ def read_turbine_types(wio_farm, mbook, ws_exp_P, ws_exp_ct, verbosity):
             data_P = pd.DataFrame(data={"ws": ws_P, "P": P})
             data_ct = pd.DataFrame(data={"ws": ws_ct, "ct": ct})
 
-            def _get_wse_var(wse):
-                if wse not in [1, 2, 3]:
-                    raise ValueError(
-                        f"Expecting wind speed exponent 1, 2 or 3, got {wse}"
-                    )
-                return FV.REWS if wse == 1 else (FV.REWS2 if wse == 2 else FV.REWS3)
-
             _print(f"            Creating model '{tname}'", level=3)
             _print(f"              Turbine type class: PCtFomTwo", level=3)
             mbook.turbine_types[tname] = TurbineType.new(
@@ -122,6 +122,8 @@ def read_turbine_types(wio_farm, mbook, ws_exp_P, ws_exp_ct, verbosity):
                 col_ct="ct",
                 H=wio_trbns["hub_height"],
                 D=wio_trbns["rotor_diameter"],
+                var_ws_ct=_get_wse_var(ws_exp_ct),
+                var_ws_P=_get_wse_var(ws_exp_P),
             )
             _print("               ", mbook.turbine_types[tname], level=3)
 
-- 
2.43.0


From 8a406506401f31b0c07d892dc729382da02009c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:24 +0000
Subject: [PATCH 113/150] fix: command line options of foxes_windio

The options for the rotor, partial wakes, wake models, wake frame and
the iterative algorithm had no effect, and the option for the output
directory raised an AttributeError. Relative output directories are
relative to the directory of the yaml file, as in foxes_yaml.
---
 foxes/input/yaml/windio/windio.py | 46 ++++++++++++++++++++-----------
 1 file changed, 30 insertions(+), 16 deletions(-)

diff --git a/foxes/input/yaml/windio/windio.py b/foxes/input/yaml/windio/windio.py
index cafe613..9709104 100644
--- a/foxes/input/yaml/windio/windio.py
+++ b/foxes/input/yaml/windio/windio.py
@@ -1,6 +1,7 @@
 import argparse
 from pathlib import Path
 
+from foxes.config import get_path
 from foxes.core import Algorithm
 from foxes.models import ModelBook
 from foxes.utils import import_module, Dict
@@ -12,7 +13,7 @@ from .read_outputs import read_outputs
 from ..dict import run_dict
 
 
-def read_windio(wio_dict, verbosity=1):
+def read_windio(wio_dict, verbosity=1, iterative=None, **algo_pars):
     """
     Translate windio data to foxes input data
 
@@ -22,6 +23,11 @@ def read_windio(wio_dict, verbosity=1):
         The windio data
     verbosity: int
         The verbosity level, 0 = silent
+    iterative: bool, optional
+        Force iterative algorithm
+    algo_pars: dict, optional
+        Additional parameters for the algorithm, overruling
+        the choices of the windio data if not None
 
     Returns
     -------
@@ -66,9 +72,11 @@ def read_windio(wio_dict, verbosity=1):
     wio_attrs = Dict(wio_dict["attributes"], name=wio_dict.name + ".attributes")
     read_attributes(wio_attrs, idict, mbook, verbosity=verbosity)
 
-    algo = Algorithm.new(
-        farm=farm, states=states, mbook=mbook, **idict.pop_item("algorithm")
-    )
+    adict = idict.pop_item("algorithm")
+    if iterative is not None and iterative:
+        adict["algo_type"] = "Iterative"
+    adict.update({v: d for v, d in algo_pars.items() if d is not None})
+    algo = Algorithm.new(farm=farm, states=states, mbook=mbook, **adict)
 
     odir = None
     if "model_outputs_specification" in wio_attrs:
@@ -98,18 +106,18 @@ def foxes_windio():
         help="The windio yaml file",
     )
     parser.add_argument("-o", "--output_dir", help="The output directory", default=None)
-    parser.add_argument("-r", "--rotor", help="The rotor model", default="centre")
+    parser.add_argument("-r", "--rotor", help="The rotor model", default=None)
     parser.add_argument(
-        "-p", "--pwakes", help="The partial wakes models", default="centre", nargs="+"
+        "-p", "--pwakes", help="The partial wakes models", default=None, nargs="+"
     )
     parser.add_argument(
         "-w",
         "--wakes",
         help="The wake models",
-        default=["Jensen_linear_k007"],
+        default=None,
         nargs="+",
     )
-    parser.add_argument("-f", "--frame", help="The wake frame", default="rotor_wd")
+    parser.add_argument("-f", "--frame", help="The wake frame", default=None)
     parser.add_argument("-e", "--engine", help="The engine", default=None)
     parser.add_argument(
         "-n", "--n_procs", help="The number of processes", default=None, type=int
@@ -172,21 +180,27 @@ def foxes_windio():
     )
 
     wio = Dict(yml_utils.load_yaml(wio_file), name="windio")
-    idict, algo, odir = read_windio(wio, verbosity=args.verbosity)
+    idict, algo, odir = read_windio(
+        wio,
+        verbosity=args.verbosity,
+        iterative=args.iterative,
+        rotor_model=args.rotor,
+        partial_wakes=args.pwakes,
+        wake_models=args.wakes,
+        wake_frame=args.frame,
+    )
 
     if args.output_dir is not None:
-        odir = args.odir
+        odir = args.output_dir
 
     run_dict(
         idict,
         algo=algo,
-        rotor_model=args.rotor,
-        partial_wakes=args.pwakes,
-        wake_models=args.wakes,
-        wake_frame=args.frame,
         engine_pars=epars,
-        iterative=args.iterative,
+        work_dir=wio_file.parent,
         input_dir=wio_file.parent,
-        output_dir=odir,
+        output_dir=(
+            get_path(odir, base=wio_file.parent) if odir is not None else None
+        ),
         verbosity=args.verbosity,
     )
-- 
2.43.0


From b4688c57af53d255e4f5798bb018c44023d1305c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:27 +0000
Subject: [PATCH 114/150] fix: files written by SlicesData contain all slices

---
 foxes/output/slices_data.py | 115 ++++++++++++++++++++++++++++++------
 1 file changed, 97 insertions(+), 18 deletions(-)

diff --git a/foxes/output/slices_data.py b/foxes/output/slices_data.py
index 3db23c7..d40dee3 100644
--- a/foxes/output/slices_data.py
+++ b/foxes/output/slices_data.py
@@ -1,6 +1,7 @@
 import xarray as xr
 import pandas as pd
 
+from foxes.utils import write_nc
 import foxes.constants as FC
 
 from .output import Output
@@ -46,10 +47,19 @@ class SlicesData(Output):
             **kwargs,
         )
 
+    def _write(self, data, to_file, verbosity, write_pars):
+        """Helper function for data writing"""
+        if to_file is not None:
+            write_nc(data, self.get_fpath(to_file), verbosity=verbosity, **write_pars)
+        return data
+
     def get_mean_data_xy(
         self,
         z_list,
         *args,
+        label_map={},
+        to_file=None,
+        write_pars={},
         verbosity=0,
         **kwargs,
     ):
@@ -62,6 +72,12 @@ class SlicesData(Output):
             The z values
         args: tuple, optional
             Arguments for the SliceData function of the same name
+        label_map: dict
+            Mapping from original to new field names
+        to_file: str, optional
+            Write the combined data to this file name
+        write_pars: dict
+            Additional write function parameters
         verbosity: int, optional
             The verbosity level, 0 = silent
         kwargs: dict, optional
@@ -82,20 +98,25 @@ class SlicesData(Output):
                     *args,
                     z=z,
                     data_format="xarray",
+                    label_map=label_map,
                     ret_states=False,
                     ret_grid=False,
                     verbosity=verbosity,
                     **kwargs,
                 )
             )
-        out = xr.concat(dsl, pd.Index(z_list, name="z"))
-        del out.attrs["z"]
-        return out
+        zc = label_map.get("z", "z")
+        out = xr.concat(dsl, pd.Index(z_list, name=zc))
+        del out.attrs[zc]
+        return self._write(out, to_file, verbosity, write_pars)
 
     def get_mean_data_xz(
         self,
         y_list,
         *args,
+        label_map={},
+        to_file=None,
+        write_pars={},
         verbosity=0,
         **kwargs,
     ):
@@ -108,6 +129,12 @@ class SlicesData(Output):
             The y values
         args: tuple, optional
             Arguments for the SliceData function of the same name
+        label_map: dict
+            Mapping from original to new field names
+        to_file: str, optional
+            Write the combined data to this file name
+        write_pars: dict
+            Additional write function parameters
         verbosity: int, optional
             The verbosity level, 0 = silent
         kwargs: dict, optional
@@ -128,20 +155,25 @@ class SlicesData(Output):
                     *args,
                     y=y,
                     data_format="xarray",
+                    label_map=label_map,
                     ret_states=False,
                     ret_grid=False,
                     verbosity=verbosity,
                     **kwargs,
                 )
             )
-        out = xr.concat(dsl, pd.Index(y_list, name="y"))
-        del out.attrs["y"]
-        return out
+        yc = label_map.get("y", "y")
+        out = xr.concat(dsl, pd.Index(y_list, name=yc))
+        del out.attrs[yc]
+        return self._write(out, to_file, verbosity, write_pars)
 
     def get_mean_data_yz(
         self,
         x_list,
         *args,
+        label_map={},
+        to_file=None,
+        write_pars={},
         verbosity=0,
         **kwargs,
     ):
@@ -154,6 +186,12 @@ class SlicesData(Output):
             The x values
         args: tuple, optional
             Arguments for the SliceData function of the same name
+        label_map: dict
+            Mapping from original to new field names
+        to_file: str, optional
+            Write the combined data to this file name
+        write_pars: dict
+            Additional write function parameters
         verbosity: int, optional
             The verbosity level, 0 = silent
         kwargs: dict, optional
@@ -174,20 +212,25 @@ class SlicesData(Output):
                     *args,
                     x=x,
                     data_format="xarray",
+                    label_map=label_map,
                     ret_states=False,
                     ret_grid=False,
                     verbosity=verbosity,
                     **kwargs,
                 )
             )
-        out = xr.concat(dsl, pd.Index(x_list, name="x"))
-        del out.attrs["x"]
-        return out
+        xc = label_map.get("x", "x")
+        out = xr.concat(dsl, pd.Index(x_list, name=xc))
+        del out.attrs[xc]
+        return self._write(out, to_file, verbosity, write_pars)
 
     def get_states_data_xy(
         self,
         z_list,
         *args,
+        label_map={},
+        to_file=None,
+        write_pars={},
         verbosity=0,
         **kwargs,
     ):
@@ -200,6 +243,12 @@ class SlicesData(Output):
             The z values
         args: tuple, optional
             Arguments for the SliceData function of the same name
+        label_map: dict
+            Mapping from original to new field names
+        to_file: str, optional
+            Write the combined data to this file name
+        write_pars: dict
+            Additional write function parameters
         verbosity: int, optional
             The verbosity level, 0 = silent
         kwargs: dict, optional
@@ -220,20 +269,27 @@ class SlicesData(Output):
                     *args,
                     z=z,
                     data_format="xarray",
+                    label_map=label_map,
                     ret_states=False,
                     ret_grid=False,
                     verbosity=verbosity,
                     **kwargs,
                 )
             )
-        out = xr.concat(dsl, pd.Index(z_list, name="z"))
-        del out.attrs["z"]
-        return out.transpose(FC.STATE, "z", ...)
+        zc = label_map.get("z", "z")
+        out = xr.concat(dsl, pd.Index(z_list, name=zc))
+        del out.attrs[zc]
+        dims = [FC.STATE, "z"]
+        out = out.transpose(*[label_map.get(d, d) for d in dims], ...)
+        return self._write(out, to_file, verbosity, write_pars)
 
     def get_states_data_xz(
         self,
         y_list,
         *args,
+        label_map={},
+        to_file=None,
+        write_pars={},
         verbosity=0,
         **kwargs,
     ):
@@ -246,6 +302,12 @@ class SlicesData(Output):
             The y values
         args: tuple, optional
             Arguments for the SliceData function of the same name
+        label_map: dict
+            Mapping from original to new field names
+        to_file: str, optional
+            Write the combined data to this file name
+        write_pars: dict
+            Additional write function parameters
         verbosity: int, optional
             The verbosity level, 0 = silent
         kwargs: dict, optional
@@ -266,20 +328,27 @@ class SlicesData(Output):
                     *args,
                     y=y,
                     data_format="xarray",
+                    label_map=label_map,
                     ret_states=False,
                     ret_grid=False,
                     verbosity=verbosity,
                     **kwargs,
                 )
             )
-        out = xr.concat(dsl, pd.Index(y_list, name="y"))
-        del out.attrs["y"]
-        return out.transpose(FC.STATE, "z", "y", ...)
+        yc = label_map.get("y", "y")
+        out = xr.concat(dsl, pd.Index(y_list, name=yc))
+        del out.attrs[yc]
+        dims = [FC.STATE, "z", "y"]
+        out = out.transpose(*[label_map.get(d, d) for d in dims], ...)
+        return self._write(out, to_file, verbosity, write_pars)
 
     def get_states_data_yz(
         self,
         x_list,
         *args,
+        label_map={},
+        to_file=None,
+        write_pars={},
         verbosity=0,
         **kwargs,
     ):
@@ -292,6 +361,12 @@ class SlicesData(Output):
             The x values
         args: tuple, optional
             Arguments for the SliceData function of the same name
+        label_map: dict
+            Mapping from original to new field names
+        to_file: str, optional
+            Write the combined data to this file name
+        write_pars: dict
+            Additional write function parameters
         verbosity: int, optional
             The verbosity level, 0 = silent
         kwargs: dict, optional
@@ -312,12 +387,16 @@ class SlicesData(Output):
                     *args,
                     x=x,
                     data_format="xarray",
+                    label_map=label_map,
                     ret_states=False,
                     ret_grid=False,
                     verbosity=verbosity,
                     **kwargs,
                 )
             )
-        out = xr.concat(dsl, pd.Index(x_list, name="x"))
-        del out.attrs["x"]
-        return out.transpose(FC.STATE, "z", "y", "x", ...)
+        xc = label_map.get("x", "x")
+        out = xr.concat(dsl, pd.Index(x_list, name=xc))
+        del out.attrs[xc]
+        dims = [FC.STATE, "z", "y", "x"]
+        out = out.transpose(*[label_map.get(d, d) for d in dims], ...)
+        return self._write(out, to_file, verbosity, write_pars)
-- 
2.43.0


From 589ac079227c442b071f0a3e1f7eba1595b98cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:06 +0000
Subject: [PATCH 115/150] fix: states data file relative to a relative input
 directory when initialized again

---
 foxes/input/states/multi_height.py | 32 +++++++++++++++---------------
 foxes/input/states/states_table.py | 16 +++++++--------
 2 files changed, 24 insertions(+), 24 deletions(-)

diff --git a/foxes/input/states/multi_height.py b/foxes/input/states/multi_height.py
index 420573f..9fb4cde 100644
--- a/foxes/input/states/multi_height.py
+++ b/foxes/input/states/multi_height.py
@@ -197,21 +197,21 @@ class MultiHeightStates(States):
 
         """
         if not isinstance(self.data_source, pd.DataFrame):
-            self._data_source = get_input_path(self.data_source)
-            if not self.data_source.is_file():
+            fpath = get_input_path(self.data_source)
+            if not fpath.is_file():
                 if verbosity > 0:
                     print(
-                        f"States '{self.name}': Reading static data '{self.data_source}' from context '{STATES}'"
+                        f"States '{self.name}': Reading static data '{fpath}' from context '{STATES}'"
                     )
-                self._data_source = algo.dbook.get_file_path(
-                    STATES, self.data_source.name, check_raw=False
+                fpath = algo.dbook.get_file_path(
+                    STATES, fpath.name, check_raw=False
                 )
                 if verbosity > 0:
-                    print(f"Path: {self.data_source}")
+                    print(f"Path: {fpath}")
             elif verbosity:
-                print(f"States '{self.name}': Reading file {self.data_source}")
+                print(f"States '{self.name}': Reading file {fpath}")
             rpars = dict(self.RDICT, **self.rpars)
-            data = PandasFileHelper().read_file(self.data_source, **rpars)
+            data = PandasFileHelper().read_file(fpath, **rpars)
         else:
             data = self.data_source
 
@@ -605,20 +605,20 @@ class MultiHeightNCStates(MultiHeightStates):
 
         """
         if not isinstance(self.data_source, Dataset):
-            self._data_source = get_input_path(self.data_source)
-            if not self.data_source.is_file():
+            fpath = get_input_path(self.data_source)
+            if not fpath.is_file():
                 if verbosity > 0:
                     print(
-                        f"States '{self.name}': Reading static data '{self.data_source}' from context '{STATES}'"
+                        f"States '{self.name}': Reading static data '{fpath}' from context '{STATES}'"
                     )
-                self._data_source = algo.dbook.get_file_path(
-                    STATES, self.data_source.name, check_raw=False
+                fpath = algo.dbook.get_file_path(
+                    STATES, fpath.name, check_raw=False
                 )
                 if verbosity > 0:
-                    print(f"Path: {self.data_source}")
+                    print(f"Path: {fpath}")
             elif verbosity:
-                print(f"States '{self.name}': Reading file {self.data_source}")
-            data = open_dataset(self.data_source, **self.xr_read_pars)
+                print(f"States '{self.name}': Reading file {fpath}")
+            data = open_dataset(fpath, **self.xr_read_pars)
         else:
             data = self.data_source
 
diff --git a/foxes/input/states/states_table.py b/foxes/input/states/states_table.py
index ae53cb4..5d2dd6e 100644
--- a/foxes/input/states/states_table.py
+++ b/foxes/input/states/states_table.py
@@ -214,21 +214,21 @@ class StatesTable(States):
         if isinstance(self.data_source, pd.DataFrame):
             data = self.data_source
         else:
-            self._data_source = get_input_path(self.data_source)
-            if not self.data_source.is_file():
+            fpath = get_input_path(self.data_source)
+            if not fpath.is_file():
                 if verbosity > 0:
                     print(
-                        f"States '{self.name}': Reading static data '{self.data_source}' from context '{STATES}'"
+                        f"States '{self.name}': Reading static data '{fpath}' from context '{STATES}'"
                     )
-                self._data_source = algo.dbook.get_file_path(
-                    STATES, self.data_source.name, check_raw=False
+                fpath = algo.dbook.get_file_path(
+                    STATES, fpath.name, check_raw=False
                 )
                 if verbosity > 0:
-                    print(f"Path: {self.data_source}")
+                    print(f"Path: {fpath}")
             elif verbosity:
-                print(f"States '{self.name}': Reading file {self.data_source}")
+                print(f"States '{self.name}': Reading file {fpath}")
             rpars = dict(self.RDICT, **self.rpars)
-            data = PandasFileHelper().read_file(self.data_source, **rpars)
+            data = PandasFileHelper().read_file(fpath, **rpars)
 
         if self.states_sel is not None:
             data = data.iloc[self.states_sel]
-- 
2.43.0


From 8283da822a11697a09e271fec16be340c54a1e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:37 +0000
Subject: [PATCH 116/150] fix: target data is not replaced by wake source data
 with dynamic wake frames

---
 foxes/core/model.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/foxes/core/model.py b/foxes/core/model.py
index 34abd10..3cb1e30 100644
--- a/foxes/core/model.py
+++ b/foxes/core/model.py
@@ -484,6 +484,7 @@ class Model(ABC):
                 )
 
             if out is not None:
+                found_in = s
                 break
 
         # check for None:
@@ -496,7 +497,8 @@ class Model(ABC):
 
         # data from other chunks, only with iterations:
         if (
-            target in [FC.STATE_TARGET, FC.STATE_TARGET_TPOINT]
+            found_in in ["f", "w"]
+            and target in [FC.STATE_TARGET, FC.STATE_TARGET_TPOINT]
             and fdata is not None
             and variable in fdata
             and tdata is not None
-- 
2.43.0


From 4969013f6fc52d3567e82291a45f43a99b61b7cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:06 +0000
Subject: [PATCH 117/150] fix: timelines find the wakes of turbines mirrored by
 ground models

---
 foxes/models/wake_frames/timelines.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/foxes/models/wake_frames/timelines.py b/foxes/models/wake_frames/timelines.py
index f6605d7..29e80e4 100644
--- a/foxes/models/wake_frames/timelines.py
+++ b/foxes/models/wake_frames/timelines.py
@@ -198,6 +198,7 @@ class Timelines(WakeFrame):
                 t.H if t.H is not None else algo.farm_controller.turbine_types[ti].H
             )
         heights = np.unique(t2h)
+        self._hub_heights = t2h
 
         # pre-calc data:
         from foxes.input.states import OnePointFlowTimeseries
@@ -344,7 +345,8 @@ class Timelines(WakeFrame):
         n_points = n_targets * n_tpoints
         points = targets.reshape(n_states, n_points, 3)
         rxyz = fdata[FV.TXYH][:, downwind_index]
-        theights = fdata[FV.H][:, downwind_index]
+        # the original hub height, also for mirrored turbines
+        theights = np.full(fdata.n_states, self._hub_heights[downwind_index])
         heights = self.timelines_data["height"].to_numpy()
         data_dxy = self.timelines_data["dxy"].to_numpy()
 
@@ -459,7 +461,8 @@ class Timelines(WakeFrame):
         # prepare:
         n_states, n_points = x.shape
         rxyz = fdata[FV.TXYH][:, downwind_index]
-        theights = fdata[FV.H][:, downwind_index]
+        # the original hub height, also for mirrored turbines
+        theights = np.full(fdata.n_states, self._hub_heights[downwind_index])
         heights = self.timelines_data["height"].to_numpy()
         data_dxy = self.timelines_data["dxy"].to_numpy()
 
-- 
2.43.0


From 35dd9d5d18c1c1d4d915a715e61dcbed17d74220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:13 +0000
Subject: [PATCH 118/150] fix: dynamic wakes of a single turbine reach points
 in later chunks of states

---
 foxes/algorithms/iterative/models/farm_wakes_calc.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/foxes/algorithms/iterative/models/farm_wakes_calc.py b/foxes/algorithms/iterative/models/farm_wakes_calc.py
index ff97607..1b75231 100644
--- a/foxes/algorithms/iterative/models/farm_wakes_calc.py
+++ b/foxes/algorithms/iterative/models/farm_wakes_calc.py
@@ -122,8 +122,15 @@ class FarmWakesCalculation(FarmDataModel):
             tdatap = pwake2tdata[pwake.name]
             wdeltas = pwake.new_wake_deltas(algo, mdata, fdata, tdatap, wmodel)
 
-            for oi in range(n_turbines):
+            # without other turbines the wake frame is not called below,
+            # but it may collect data over chunks and iterations, for points:
+            if n_turbines == 1:
+                tdata, __ = _get_wdata(
+                    tdatap, {}, [FC.STATE, FC.TARGET], np.s_[:, :]
+                )
+                algo.wake_frame.get_wake_coos(algo, mdata, fdata, tdata, 0)
 
+            for oi in range(n_turbines):
                 if oi > 0:
                     tdata, wdelta = _get_wdata(
                         tdatap, wdeltas, [FC.STATE, FC.TARGET], np.s_[:, :oi]
-- 
2.43.0


From 919cce3dcbf3eff4fe1e088a10c9edb0b26c5fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:57 +0000
Subject: [PATCH 119/150] fix: iterations that are blocked by data exchange
 between chunks do not count for the default maximum

---
 foxes/algorithms/iterative/iterative.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/foxes/algorithms/iterative/iterative.py b/foxes/algorithms/iterative/iterative.py
index 0cfb8a1..1efb581 100644
--- a/foxes/algorithms/iterative/iterative.py
+++ b/foxes/algorithms/iterative/iterative.py
@@ -72,6 +72,7 @@ class Iterative(Downwind):
         super().__init__(*args, **kwargs)
 
         self.max_it = 2 + self.farm.n_turbines**2 if max_it is None else max_it
+        self._auto_max_it = max_it is None
         self.conv_crit = (
             self.get_model("DefaultConv")() if conv_crit == "default" else conv_crit
         )
@@ -314,7 +315,8 @@ class Iterative(Downwind):
         self._final_run = False
         fres_dwnd = None
         try:
-            while self._it < self.max_it:
+            max_it = self.max_it
+            while self._it < max_it:
                 self._it += 1
 
                 self.print(f"\nAlgorithm {self.name}: Iteration {self._it}\n", vlim=0)
@@ -326,6 +328,10 @@ class Iterative(Downwind):
                 if self.conv_crit is not None:
                     if self.eval_conv_block():
                         self.print(f"{self.name}: Convergence blocked", vlim=0)
+
+                        # data exchange between chunks needs extra iterations:
+                        if self._auto_max_it:
+                            max_it += 1
                     else:
                         conv = self.conv_crit.check_converged(
                             self,
-- 
2.43.0


From 0222cd8b64acc7d57cf0d8e96c68f76591b262c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:08 +0000
Subject: [PATCH 120/150] fix: one point flow downstream of the reach of the
 first state is that of the first state

---
 foxes/input/states/one_point_flow.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/foxes/input/states/one_point_flow.py b/foxes/input/states/one_point_flow.py
index 012c3a8..7eb5764 100644
--- a/foxes/input/states/one_point_flow.py
+++ b/foxes/input/states/one_point_flow.py
@@ -296,8 +296,10 @@ class OnePointFlowStates(States):
                     w = projx / np.abs(lx)
                     coeffs[sel] = np.where(seld, w, coeffs[sel])
 
+            return projx
+
         # step backwards in time, until projection onto axis is negative:
-        _eval_trace(sel=np.s_[:])
+        upstream = _eval_trace(sel=np.s_[:]) < 0
         sel = np.isnan(coeffs)
         tshift = 0
         while np.any(sel):
@@ -316,7 +318,7 @@ class OnePointFlowStates(States):
             del trs, sel0, hdxy
 
         # step forwards in time, until projection onto axis is positive:
-        sel = np.isnan(coeffs)
+        sel = np.isnan(coeffs) & upstream
         if np.any(sel):
             trace_p = np.where(
                 sel[:, :, None], points[:, :, :2] - ref_xy[:, :, :2], trace_p
@@ -408,7 +410,7 @@ class OnePointFlowStates(States):
             if np.any(sel):
                 s = sts[sel]
                 c = -cfs[sel]
-                out[sel] = c * data[s] + (1 - c) * data[s - 1]
+                out[sel] = c * data[s] + (1 - c) * data[np.maximum(s - 1, 0)]
 
             sel = (~sel_low) & (~sel_hi) & (cfs > 0)
             if np.any(sel):
-- 
2.43.0


From 61554e0c01ef45547361ed913da2f0c69d38e612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:08 +0000
Subject: [PATCH 121/150] fix: one point flow at points on the line through the
 reference point, across the wind

---
 foxes/input/states/one_point_flow.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/foxes/input/states/one_point_flow.py b/foxes/input/states/one_point_flow.py
index 7eb5764..e328e1d 100644
--- a/foxes/input/states/one_point_flow.py
+++ b/foxes/input/states/one_point_flow.py
@@ -282,16 +282,16 @@ class OnePointFlowStates(States):
 
             # check for local points:
             if hdxy is None:
-                seld = (projx >= 1e-10) & (projx <= 1e-10)
+                seld = (projx >= -1e-10) & (projx <= 1e-10)
                 if np.any(seld):
                     coeffs[sel] = np.where(seld, -1, coeffs[sel])
 
             # check for vicinity to reference plane:
             else:
                 lx = np.einsum("...d,...d->...", hdxy, nx)
-                seld = ((lx < 0) & (projx >= lx) & (projx <= 0)) | (
-                    (lx > 0) & (projx >= 0) & (projx <= lx)
-                )
+                seld = (
+                    (lx < 0) & (projx >= lx - 1e-10) & (projx <= 1e-10)
+                ) | ((lx > 0) & (projx >= -1e-10) & (projx <= lx + 1e-10))
                 if np.any(seld):
                     w = projx / np.abs(lx)
                     coeffs[sel] = np.where(seld, w, coeffs[sel])
-- 
2.43.0


From 70168bd8bd45922e272894152b86eec3a0f45efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:08 +0000
Subject: [PATCH 122/150] fix: one point flow for irregular time steps,
 displacements between states as for dynamic wakes

---
 foxes/input/states/one_point_flow.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/foxes/input/states/one_point_flow.py b/foxes/input/states/one_point_flow.py
index e328e1d..8fee91d 100644
--- a/foxes/input/states/one_point_flow.py
+++ b/foxes/input/states/one_point_flow.py
@@ -305,7 +305,7 @@ class OnePointFlowStates(States):
         while np.any(sel):
 
             trs = trace_si[sel]
-            hdxy = -dxy[trs]
+            hdxy = -dxy[np.maximum(trs - 1, 0)]
             trace_p[sel] += hdxy
 
             _eval_trace(sel, hdxy=hdxy, hdxy0=dxy[trs - tshift])
@@ -330,7 +330,7 @@ class OnePointFlowStates(States):
             while np.any(sel):
 
                 trs = trace_si[sel]
-                hdxy = dxy[trs]
+                hdxy = dxy[trs - 1]
                 trace_p[sel] += hdxy
 
                 _eval_trace(sel, hdxy=hdxy, hdxy0=dxy[trs - tshift])
-- 
2.43.0


From 2c2e4269e6d413f4f302063f5132547ea18ac416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:08 +0000
Subject: [PATCH 123/150] fix: one point flow in sequential runs

---
 foxes/input/states/one_point_flow.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/foxes/input/states/one_point_flow.py b/foxes/input/states/one_point_flow.py
index 8fee91d..54b89f8 100644
--- a/foxes/input/states/one_point_flow.py
+++ b/foxes/input/states/one_point_flow.py
@@ -263,6 +263,7 @@ class OnePointFlowStates(States):
 
         n_states, n_points = points.shape[:2]
         dxy = self.timelines_data["dxy"].to_numpy()[hi]
+        n_times = len(dxy)
 
         i0 = mdata.states_i0(counter=True)
         trace_p = points[:, :, :2] - ref_xy[:, :, :2]
@@ -325,7 +326,7 @@ class OnePointFlowStates(States):
             )
             trace_si = np.where(sel, i0 + np.arange(n_states)[:, None] + 1, trace_si)
 
-            sel &= trace_si < algo.n_states
+            sel &= trace_si < n_times
             tshift = 1
             while np.any(sel):
 
@@ -338,7 +339,7 @@ class OnePointFlowStates(States):
                 tshift += 1
                 sel0 = np.isnan(coeffs)
                 trace_si[sel0 & sel] += 1
-                sel = sel0 & (trace_si < algo.n_states)
+                sel = sel0 & (trace_si < n_times)
 
                 del trs, sel0, hdxy
 
@@ -402,9 +403,9 @@ class OnePointFlowStates(States):
             if np.any(sel_low):
                 out[sel_low] = data[0]
 
-            sel_hi = sts >= algo.n_states
+            sel_hi = sts >= len(data)
             if np.any(sel_hi):
-                out[sel_hi] = data[algo.n_states - 1]
+                out[sel_hi] = data[-1]
 
             sel = (~sel_low) & (~sel_hi) & (cfs <= 0)
             if np.any(sel):
-- 
2.43.0


From 6db9630c63fa03e6298e21049290aa9d5e7d04cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:37 +0000
Subject: [PATCH 124/150] fix: one point flow for selected states of a run
 looks back and ahead in all states

---
 foxes/input/states/one_point_flow.py | 90 +++++-----------------------
 1 file changed, 16 insertions(+), 74 deletions(-)

diff --git a/foxes/input/states/one_point_flow.py b/foxes/input/states/one_point_flow.py
index 54b89f8..aa328ed 100644
--- a/foxes/input/states/one_point_flow.py
+++ b/foxes/input/states/one_point_flow.py
@@ -1,4 +1,5 @@
 import numpy as np
+import pandas as pd
 from scipy.interpolate import interpn
 
 from foxes.core import States
@@ -186,78 +187,19 @@ class OnePointFlowStates(States):
         """
         return self.base_states.output_point_vars(algo)
 
-    def set_running(
-        self,
-        algo,
-        data_stash,
-        sel=None,
-        isel=None,
-        verbosity=0,
-    ):
+    def _get_times(self, mdata, n_states):
         """
-        Sets this model status to running, and moves
-        all large data to stash.
-
-        The stashed data will be returned by the
-        unset_running() function after running calculations.
-
-        Parameters
-        ----------
-        algo: foxes.core.Algorithm
-            The calculation algorithm
-        data_stash: dict
-            Large data stash, this function adds data here.
-            Key: model name. Value: dict, large model data
-        sel: dict, optional
-            The subset selection dictionary
-        isel: dict, optional
-            The index subset selection dictionary
-        verbosity: int
-            The verbosity level, 0 = silent
-
+        Helper function for finding the states of the chunk
+        within the complete time line
         """
-        super().set_running(algo, data_stash, sel, isel, verbosity)
-
-        if sel is not None or isel is not None:
-            data_stash[self.name]["data"] = self.timelines_data
-
-            if isel is not None:
-                self.timelines_data = self.timelines_data.isel(isel)
-            if sel is not None:
-                self.timelines_data = self.timelines_data.sel(sel)
-
-    def unset_running(
-        self,
-        algo,
-        data_stash,
-        sel=None,
-        isel=None,
-        verbosity=0,
-    ):
-        """
-        Sets this model status to not running, recovering large data
-        from stash
-
-        Parameters
-        ----------
-        algo: foxes.core.Algorithm
-            The calculation algorithm
-        data_stash: dict
-            Large data stash, this function adds data here.
-            Key: model name. Value: dict, large model data
-        sel: dict, optional
-            The subset selection dictionary
-        isel: dict, optional
-            The index subset selection dictionary
-        verbosity: int
-            The verbosity level, 0 = silent
-
-        """
-        super().unset_running(algo, data_stash, sel, isel, verbosity)
-
-        data = data_stash[self.name]
-        if "data" in data:
-            self.timelines_data = data.pop("data")
+        inds = mdata.states_i0(counter=True) + np.arange(n_states)
+        if FC.STATE in mdata:
+            # the chunk may stem from a selection of states:
+            times = self.timelines_data[FC.STATE].to_numpy()
+            sts = mdata[FC.STATE]
+            if inds[-1] >= len(times) or np.any(times[inds] != sts):
+                inds = pd.Index(times).get_indexer(sts)
+        return inds
 
     def calc_states_indices(self, algo, mdata, points, hi, ref_xy):
 
@@ -265,10 +207,10 @@ class OnePointFlowStates(States):
         dxy = self.timelines_data["dxy"].to_numpy()[hi]
         n_times = len(dxy)
 
-        i0 = mdata.states_i0(counter=True)
+        times = self._get_times(mdata, n_states)
         trace_p = points[:, :, :2] - ref_xy[:, :, :2]
         trace_si = np.zeros((n_states, n_points), dtype=config.dtype_int)
-        trace_si[:] = i0 + np.arange(n_states)[:, None]
+        trace_si[:] = times[:, None]
         coeffs = np.full((n_states, n_points), np.nan, dtype=config.dtype_double)
 
         # flake8: noqa: F821
@@ -324,7 +266,7 @@ class OnePointFlowStates(States):
             trace_p = np.where(
                 sel[:, :, None], points[:, :, :2] - ref_xy[:, :, :2], trace_p
             )
-            trace_si = np.where(sel, i0 + np.arange(n_states)[:, None] + 1, trace_si)
+            trace_si = np.where(sel, times[:, None] + 1, trace_si)
 
             sel &= trace_si < n_times
             tshift = 1
@@ -339,7 +281,7 @@ class OnePointFlowStates(States):
                 tshift += 1
                 sel0 = np.isnan(coeffs)
                 trace_si[sel0 & sel] += 1
-                sel = sel0 & (trace_si < n_times)
+                sel = sel & sel0 & (trace_si < n_times)
 
                 del trs, sel0, hdxy
 
-- 
2.43.0


From 1c3cefc3950ad9aa1c07e9d58905ced43fb2e647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:37 +0000
Subject: [PATCH 125/150] fix: timelines follow the base states of all types of
 one point flow

---
 foxes/models/wake_frames/timelines.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/foxes/models/wake_frames/timelines.py b/foxes/models/wake_frames/timelines.py
index 29e80e4..0c23eef 100644
--- a/foxes/models/wake_frames/timelines.py
+++ b/foxes/models/wake_frames/timelines.py
@@ -201,9 +201,9 @@ class Timelines(WakeFrame):
         self._hub_heights = t2h
 
         # pre-calc data:
-        from foxes.input.states import OnePointFlowTimeseries
+        from foxes.input.states import OnePointFlowStates
 
-        if isinstance(algo.states, OnePointFlowTimeseries):
+        if isinstance(algo.states, OnePointFlowStates):
             self._precalc_data(algo, algo.states.base_states, heights, verbosity)
         else:
             self._precalc_data(algo, algo.states, heights, verbosity)
-- 
2.43.0


From b74c8ee5e0a9b6c897f20f144622311dbea37863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:54 +0000
Subject: [PATCH 126/150] fix: one point flow states accept the parameters of
 their base states as positional arguments

---
 foxes/input/states/one_point_flow.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/foxes/input/states/one_point_flow.py b/foxes/input/states/one_point_flow.py
index aa328ed..54c7484 100644
--- a/foxes/input/states/one_point_flow.py
+++ b/foxes/input/states/one_point_flow.py
@@ -469,9 +469,9 @@ class OnePointFlowTimeseries(OnePointFlowStates):
             tl_heights = [100.0]
         super().__init__(
             ref_xy,
+            "Timeseries",
             *args,
             tl_heights=tl_heights,
-            states_type="Timeseries",
             **kwargs,
         )
 
@@ -485,19 +485,21 @@ class OnePointFlowMultiHeightTimeseries(OnePointFlowStates):
 
     """
 
-    def __init__(self, *args, **kwargs):
+    def __init__(self, ref_xy, *args, **kwargs):
         """
         Constructor.
 
         Parameters
         ----------
+        ref_xy: list of float
+            The [x, y] or [x, y, z] coordinates of the base states
         args: tuple, optional
             Parameters for the base class
         kwargs: dict, optional
             Parameters for the base class
 
         """
-        super().__init__(*args, states_type="MultiHeightTimeseries", **kwargs)
+        super().__init__(ref_xy, "MultiHeightTimeseries", *args, **kwargs)
 
 
 class OnePointFlowMultiHeightNCTimeseries(OnePointFlowStates):
@@ -509,16 +511,18 @@ class OnePointFlowMultiHeightNCTimeseries(OnePointFlowStates):
 
     """
 
-    def __init__(self, *args, **kwargs):
+    def __init__(self, ref_xy, *args, **kwargs):
         """
         Constructor.
 
         Parameters
         ----------
+        ref_xy: list of float
+            The [x, y] or [x, y, z] coordinates of the base states
         args: tuple, optional
             Parameters for the base class
         kwargs: dict, optional
             Parameters for the base class
 
         """
-        super().__init__(*args, states_type="MultiHeightNCTimeseries", **kwargs)
+        super().__init__(ref_xy, "MultiHeightNCTimeseries", *args, **kwargs)
-- 
2.43.0


From 8252136ebd2c6d59fc8c35c1010ba8446914f634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:26 +0000
Subject: [PATCH 127/150] fix: results at points for selected states with
 unsteady wakes

---
 foxes/algorithms/downwind/downwind.py     | 35 ++++++++++++++++++++++-
 foxes/core/wake_frame.py                  | 14 +++++++++
 foxes/models/wake_frames/dynamic_wakes.py | 14 +++++++++
 foxes/models/wake_frames/timelines.py     | 14 +++++++++
 4 files changed, 76 insertions(+), 1 deletion(-)

diff --git a/foxes/algorithms/downwind/downwind.py b/foxes/algorithms/downwind/downwind.py
index f2d252b..c418c13 100644
--- a/foxes/algorithms/downwind/downwind.py
+++ b/foxes/algorithms/downwind/downwind.py
@@ -765,8 +765,41 @@ class Downwind(Algorithm):
                 f"Cannot calculate point results without farm results for ambient = {ambient}"
             )
 
-        # welcome:
         points = np.asarray(points)
+
+        # unsteady wakes need all states, in that case select results:
+        if (
+            (states_sel is not None or states_isel is not None)
+            and not ambient
+            and self.wake_frame.needs_all_states
+        ):
+            inds = farm_results.assign(
+                inds=((FC.STATE,), np.arange(farm_results.sizes[FC.STATE]))
+            )["inds"]
+            if states_isel is not None:
+                inds = inds.isel({FC.STATE: states_isel})
+            if states_sel is not None:
+                inds = inds.sel({FC.STATE: states_sel})
+            inds = inds.to_numpy()
+            apoints = np.zeros(
+                (farm_results.sizes[FC.STATE],) + points.shape[1:], points.dtype
+            )
+            apoints[:] = points[0]
+            apoints[inds] = points
+            return self.calc_points(
+                farm_results,
+                apoints,
+                point_models=point_models,
+                outputs=outputs,
+                calc_parameters=calc_parameters,
+                persist_mdata=persist_mdata,
+                persist_pdata=persist_pdata,
+                finalize=finalize,
+                chunked_results=chunked_results,
+                **kwargs,
+            ).isel({FC.STATE: inds})
+
+        # welcome:
         self.print_deco("calc_points", n_points=points.shape[1])
 
         # collect models and initialize:
diff --git a/foxes/core/wake_frame.py b/foxes/core/wake_frame.py
index d204c5c..49669a9 100644
--- a/foxes/core/wake_frame.py
+++ b/foxes/core/wake_frame.py
@@ -44,6 +44,20 @@ class WakeFrame(Model):
         super().__init__()
         self.max_length_km = max_length_km
 
+    @property
+    def needs_all_states(self):
+        """
+        Flag for frames for which the wakes in one state depend on
+        other states, such that states cannot be selected
+
+        Returns
+        -------
+        bool:
+            True if the complete states are required
+
+        """
+        return False
+
     @abstractmethod
     def calc_order(self, algo, mdata, fdata):
         """
diff --git a/foxes/models/wake_frames/dynamic_wakes.py b/foxes/models/wake_frames/dynamic_wakes.py
index ade5a91..af22f56 100644
--- a/foxes/models/wake_frames/dynamic_wakes.py
+++ b/foxes/models/wake_frames/dynamic_wakes.py
@@ -66,6 +66,20 @@ class DynamicWakes(WakeFrame):
         self.dt_min = dt_min
         self._mage_ws = max_age_mean_ws
 
+    @property
+    def needs_all_states(self):
+        """
+        Flag for frames for which the wakes in one state depend on
+        other states, such that states cannot be selected
+
+        Returns
+        -------
+        bool:
+            True if the complete states are required
+
+        """
+        return True
+
     def __repr__(self):
         return f"{type(self).__name__}(dt_min={self.dt_min}, max_length_km={self.max_length_km}, max_age={self.max_age})"
 
diff --git a/foxes/models/wake_frames/timelines.py b/foxes/models/wake_frames/timelines.py
index 0c23eef..ed70769 100644
--- a/foxes/models/wake_frames/timelines.py
+++ b/foxes/models/wake_frames/timelines.py
@@ -50,6 +50,20 @@ class Timelines(WakeFrame):
         self.cl_ipars = cl_ipars
         self.dt_min = dt_min
 
+    @property
+    def needs_all_states(self):
+        """
+        Flag for frames for which the wakes in one state depend on
+        other states, such that states cannot be selected
+
+        Returns
+        -------
+        bool:
+            True if the complete states are required
+
+        """
+        return True
+
     def __repr__(self):
         return f"{type(self).__name__}(dt_min={self.dt_min}, max_length_km={self.max_length_km})"
 
-- 
2.43.0


From 7e26fdcdd867165bd5785e5a58435ca04877c885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:01 +0000
Subject: [PATCH 128/150] fix: sequential runs with ambient=True do not
 calculate wakes

---
 foxes/algorithms/sequential/sequential.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/foxes/algorithms/sequential/sequential.py b/foxes/algorithms/sequential/sequential.py
index abcc3df..8e97044 100644
--- a/foxes/algorithms/sequential/sequential.py
+++ b/foxes/algorithms/sequential/sequential.py
@@ -168,6 +168,7 @@ class Sequential(Iterative):
                         ),
                     )
                     for v in self.farm_vars
+                    if not (self.ambient and v in FV.var2amb)
                 },
             )
             self._farm_results[FC.TNAME] = ((FC.TURBINE,), self.farm.turbine_names)
@@ -201,8 +202,11 @@ class Sequential(Iterative):
                 outputs=self.farm_vars,
                 finalize=False,
                 ret_dwnd_order=True,
+                ambient=self.ambient,
                 **self.calc_pars,
             )
+            if fres_dnwnd is None:
+                fres_dnwnd = fres
 
             for v in self._farm_results.data_vars.keys():
                 if FC.STATE in self._farm_results[v].dims:
@@ -219,7 +223,9 @@ class Sequential(Iterative):
                 return fres
 
             else:
-                pres = super().calc_points(fres, points=self.points, finalize=False)
+                pres = super().calc_points(
+                    fres, points=self.points, finalize=False, ambient=self.ambient
+                )
 
                 if self._point_results is None:
                     n_states = self._model_data.sizes[FC.STATE]
-- 
2.43.0


From d30c6e66e014722a1eb004840b655319e39ad790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:01 +0000
Subject: [PATCH 129/150] fix: repeated sequential runs with dynamic wakes
 start without wakes

---
 foxes/models/wake_frames/seq_dynamic_wakes.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/foxes/models/wake_frames/seq_dynamic_wakes.py b/foxes/models/wake_frames/seq_dynamic_wakes.py
index 60533b0..8bfd5b8 100644
--- a/foxes/models/wake_frames/seq_dynamic_wakes.py
+++ b/foxes/models/wake_frames/seq_dynamic_wakes.py
@@ -124,6 +124,12 @@ class SeqDynamicWakes(FarmOrder):
             The turbine order, shape: (n_states, n_turbines)
 
         """
+        # a new run starts without wakes:
+        if algo.states.counter == 0:
+            self._traces_p[:] = 0
+            self._traces_v[:] = 0
+            self._traces_l[:] = np.nan
+
         return super().calc_order(algo, mdata, fdata)
 
     def get_wake_coos(
-- 
2.43.0


From 860ab32cb8b480c31ef9fa41a759013efe4d624a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:30 +0000
Subject: [PATCH 130/150] fix: under-relaxation of the iterative algorithm at
 entry points pre_wake and last

URelax asked for a state counter with an unknown argument and for results of an
attribute that does not exist, and was called with a superfluous argument.
---
 foxes/algorithms/iterative/models/farm_wakes_calc.py | 4 ++--
 foxes/algorithms/iterative/models/urelax.py          | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/foxes/algorithms/iterative/models/farm_wakes_calc.py b/foxes/algorithms/iterative/models/farm_wakes_calc.py
index 1b75231..d3fb075 100644
--- a/foxes/algorithms/iterative/models/farm_wakes_calc.py
+++ b/foxes/algorithms/iterative/models/farm_wakes_calc.py
@@ -169,8 +169,8 @@ class FarmWakesCalculation(FarmDataModel):
         wake_res[FV.WEIGHT] = weights
         rotor.eval_rpoint_results(algo, mdata, fdata, wake_res, rwghts)
         res = algo.farm_controller.calculate(algo, mdata, fdata, pre_rotor=False)
-        if self.urelax is not None:
-            res = self.urelax.calculate(algo, mdata, fdata, res)
         fdata.update(res)
+        if self.urelax is not None:
+            fdata.update(self.urelax.calculate(algo, mdata, fdata))
 
         return {v: fdata[v] for v in self.output_farm_vars(algo)}
diff --git a/foxes/algorithms/iterative/models/urelax.py b/foxes/algorithms/iterative/models/urelax.py
index cb706b2..e4e4fa7 100644
--- a/foxes/algorithms/iterative/models/urelax.py
+++ b/foxes/algorithms/iterative/models/urelax.py
@@ -71,9 +71,9 @@ class URelax(FarmDataModel):
             Values: numpy.ndarray with shape (n_states, n_turbines)
 
         """
-        i0 = fdata.states_i0(counter=True, algo=algo)
+        i0 = fdata.states_i0(counter=True)
         i1 = i0 + fdata.n_states
-        pres = algo.prev_farm_results
+        pres = algo.farm_results_downwind
 
         out = {}
         for v, u in self.urel.items():
-- 
2.43.0


From 861af4f366b0d07d6fbc2f817df397cdd69d0415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:25 +0000
Subject: [PATCH 131/150] fix: centreline integrals for any step size

np.arange with a step that is not exactly representable may return one element
too many, the calculation then ended with a broadcast error.
---
 foxes/core/wake_frame.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/foxes/core/wake_frame.py b/foxes/core/wake_frame.py
index 49669a9..a4b4c96 100644
--- a/foxes/core/wake_frame.py
+++ b/foxes/core/wake_frame.py
@@ -257,7 +257,7 @@ class WakeFrame(Model):
         if xmin + n_steps * dx < xmax:
             n_steps += 1
         n_ix = n_steps + 1
-        xs = np.arange(xmin, xmin + n_ix * dx, dx)
+        xs = xmin + dx * np.arange(n_ix)
         xpts = np.zeros((n_states, n_steps), dtype=config.dtype_double)
         xpts[:] = xs[None, 1:]
         pts = self.get_centreline_points(algo, mdata, fdata, downwind_index, xpts)
-- 
2.43.0


From ebc54030451d5c9b32d942eb0b5803121b08a753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:06 +0000
Subject: [PATCH 132/150] fix: modify_cutin of PCtFile keeps the curve that is
 not to be modified

With modify_ct=True and modify_P=False, as by default in the iterative
algorithm, power data below the first wind speed with thrust was dropped, and
vice versa. Also a ramp was added below the first data point.
---
 foxes/models/turbine_types/PCt_file.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/foxes/models/turbine_types/PCt_file.py b/foxes/models/turbine_types/PCt_file.py
index 0c13a3d..12791bf 100644
--- a/foxes/models/turbine_types/PCt_file.py
+++ b/foxes/models/turbine_types/PCt_file.py
@@ -250,6 +250,7 @@ class PCtFile(TurbineType):
                 )
 
             if ws[i] > 0:
+                ws0, ct0, P0 = ws, ct, P
                 ws = ws[i:]
                 ct = ct[i:]
                 P = P[i:]
@@ -268,6 +269,19 @@ class PCtFile(TurbineType):
                     for it in range(iterations):
                         new_P[1:-1] = b * new_P[:-2] + (1 - b) * new_P[2:]
 
+                # keep the original data of unmodified variables,
+                # including a possible jump at the first data point:
+                if not (modify_ct and modify_P):
+                    hws = np.append(ws0[: i + 1], np.nextafter(ws0[0], 0.0))
+                    hws = np.union1d(new_ws, hws)
+                    new_ct = np.interp(hws, new_ws, new_ct)
+                    new_P = np.interp(hws, new_ws, new_P)
+                    if not modify_ct:
+                        new_ct = np.interp(hws, ws0, ct0, left=0.0)
+                    if not modify_P:
+                        new_P = np.interp(hws, ws0, P0, left=0.0)
+                    new_ws = hws
+
                 self.data_ws = np.concatenate([new_ws[:-1], ws], axis=0)
                 self.data_ct = np.concatenate([new_ct[:-1], ct], axis=0)
                 self.data_P = np.concatenate([new_P[:-1], P], axis=0)
-- 
2.43.0


From a9ba9c9c69b1e0d3019aab19ec5898496d05b0d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:53 +0000
Subject: [PATCH 133/150] fix: new states for an initialized algorithm

Setting algo.states after a calculation with finalize=False kept the data of
models that depend on the old states, such that the next calculation failed or
used stale data.
---
 foxes/algorithms/downwind/downwind.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/foxes/algorithms/downwind/downwind.py b/foxes/algorithms/downwind/downwind.py
index c418c13..c1fc5d4 100644
--- a/foxes/algorithms/downwind/downwind.py
+++ b/foxes/algorithms/downwind/downwind.py
@@ -207,7 +207,10 @@ class Downwind(Algorithm):
         """Resets the states"""
         if self.running:
             raise ValueError(f"{self.name}: Cannot set states while running")
-        if self.states.initialized:
+        if self.initialized:
+            # also reset models that depend on the states:
+            self.finalize()
+        elif self.states.initialized:
             self.states.finalize(self, verbosity=self.verbosity)
         self.__states = value
         self.init_states()
-- 
2.43.0


From fe1897332d9361c5ce16056268d4d88b2e6352fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:15 +0000
Subject: [PATCH 134/150] fix: state-wise rotor diameters and hub heights set
 by SetFarmVars

---
 foxes/algorithms/downwind/models/init_farm_data.py | 6 ++++++
 foxes/models/turbine_models/set_farm_vars.py       | 5 +++--
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/foxes/algorithms/downwind/models/init_farm_data.py b/foxes/algorithms/downwind/models/init_farm_data.py
index 671d163..b40b862 100644
--- a/foxes/algorithms/downwind/models/init_farm_data.py
+++ b/foxes/algorithms/downwind/models/init_farm_data.py
@@ -97,11 +97,17 @@ class InitFarmData(FarmDataModel):
             H = t.H
             if H is None:
                 H = algo.farm_controller.turbine_types[ti].H
+            elif np.ndim(H):
+                i0 = fdata.states_i0(counter=True)
+                H = H[i0 : i0 + n_states]
             fdata[FV.TXYH][:, ti, 2] = H
 
             D = t.D
             if D is None:
                 D = algo.farm_controller.turbine_types[ti].D
+            elif np.ndim(D):
+                i0 = fdata.states_i0(counter=True)
+                D = D[i0 : i0 + n_states]
             fdata[FV.D][:, ti] = D
 
         # calc WD and YAW at rotor centres:
diff --git a/foxes/models/turbine_models/set_farm_vars.py b/foxes/models/turbine_models/set_farm_vars.py
index a611f21..5cc6846 100644
--- a/foxes/models/turbine_models/set_farm_vars.py
+++ b/foxes/models/turbine_models/set_farm_vars.py
@@ -166,12 +166,13 @@ class SetFarmVars(TurbineModel):
             if v in [FV.D, FV.H]:
                 for ti in range(algo.n_turbines):
                     t = algo.farm.turbines[ti]
+                    ttype = algo.farm_controller.turbine_types[ti]
                     x = np.zeros(algo.n_states, dtype=config.dtype_double)
                     if v == FV.D:
-                        x[:] = t.D
+                        x[:] = t.D if t.D is not None else ttype.D
                         t.D = x
                     else:
-                        x[:] = t.H
+                        x[:] = t.H if t.H is not None else ttype.H
                         t.H = x
                     x[:] = np.where(np.isnan(data[:, ti]), x, data[:, ti])
 
-- 
2.43.0


From f4ef37718ae39732c9f2db506bf6a98e9c531a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:22 +0000
Subject: [PATCH 135/150] fix: FieldDataNC states that are used again with
 another farm

---
 foxes/input/states/field_data_nc.py | 45 +++++++++++++++++------------
 1 file changed, 27 insertions(+), 18 deletions(-)

diff --git a/foxes/input/states/field_data_nc.py b/foxes/input/states/field_data_nc.py
index 677502c..dc026ff 100644
--- a/foxes/input/states/field_data_nc.py
+++ b/foxes/input/states/field_data_nc.py
@@ -186,6 +186,10 @@ class FieldDataNC(States):
         self.__data_source = data_source
         self.__inds = None
 
+        # files are read again whenever the farm bounds change:
+        self._files = None if isinstance(data_source, xr.Dataset) else data_source
+        self._read_sel = self.sel
+
     @property
     def data_source(self):
         """
@@ -346,6 +350,27 @@ class FieldDataNC(States):
 
         """
 
+        # find bounds:
+        if (
+            self._files is not None
+            and self.x_coord is not None
+            and self.x_coord not in self.sel
+        ):
+            xy_min, xy_max = algo.farm.get_xy_bounds(
+                extra_space=self.bounds_extra_space, algo=algo
+            )
+            if verbosity > 0:
+                print(
+                    f"States '{self.name}': Restricting to bounds {xy_min} - {xy_max}"
+                )
+            bounds = {
+                self.x_coord: slice(xy_min[0], xy_max[0]),
+                self.y_coord: slice(xy_min[1], xy_max[1]),
+            }
+            if any(self._read_sel.get(c) != b for c, b in bounds.items()):
+                self.__data_source = self._files
+            self._read_sel = {**self.sel, **bounds}
+
         # pre-load file reading:
         coords = [self.states_coord, self.h_coord, self.y_coord, self.x_coord]
         if not isinstance(self.data_source, xr.Dataset):
@@ -373,22 +398,6 @@ class FieldDataNC(States):
                         STATES, fpath.name, check_raw=False
                     )
 
-            # find bounds:
-            if self.x_coord is not None and self.x_coord not in self.sel:
-                xy_min, xy_max = algo.farm.get_xy_bounds(
-                    extra_space=self.bounds_extra_space, algo=algo
-                )
-                if verbosity > 0:
-                    print(
-                        f"States '{self.name}': Restricting to bounds {xy_min} - {xy_max}"
-                    )
-                self.sel.update(
-                    {
-                        self.x_coord: slice(xy_min[0], xy_max[0]),
-                        self.y_coord: slice(xy_min[1], xy_max[1]),
-                    }
-                )
-
             # read files:
             if verbosity > 0:
                 if self.load_mode == "preload":
@@ -414,7 +423,7 @@ class FieldDataNC(States):
                 vars=vars,
                 nc_engine=config.nc_engine,
                 isel=self.isel,
-                sel=self.sel,
+                sel=self._read_sel,
                 minimal=self.load_mode == "fly",
             )
 
@@ -696,7 +705,7 @@ class FieldDataNC(States):
                             vars=vars,
                             nc_engine=config.nc_engine,
                             isel=isel,
-                            sel=self.sel,
+                            sel=self._read_sel,
                             minimal=False,
                         )
                     )
-- 
2.43.0


From 048f65571532ad26297d05f37c7ecf26461a9ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:53 +0000
Subject: [PATCH 136/150] fix: FieldDataNC states from an xarray Dataset

---
 foxes/input/states/field_data_nc.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/foxes/input/states/field_data_nc.py b/foxes/input/states/field_data_nc.py
index dc026ff..9e702c8 100644
--- a/foxes/input/states/field_data_nc.py
+++ b/foxes/input/states/field_data_nc.py
@@ -183,6 +183,16 @@ class FieldDataNC(States):
 
         self._N = None
 
+        if isinstance(data_source, xr.Dataset):
+            if load_mode == "fly":
+                raise KeyError(
+                    f"States '{self.name}': Load mode 'fly' requires data files"
+                )
+            vars = list(self.var2ncvar.values())
+            if weight_ncvar is not None:
+                vars.append(weight_ncvar)
+            data_source = data_source[vars].isel(**self.isel).sel(**self.sel)
+
         self.__data_source = data_source
         self.__inds = None
 
@@ -466,6 +476,14 @@ class FieldDataNC(States):
                     self.__inds, format=self.time_format
                 ).to_numpy()
 
+        elif self._files is None:
+            self.__inds = self.__data_source[self.states_coord].to_numpy()
+            self._N = len(self.__inds)
+            if self.time_format is not None:
+                self.__inds = pd.to_datetime(
+                    self.__inds, format=self.time_format
+                ).to_numpy()
+
         # ensure WD and WS get the first two slots of data:
         self._dkys = {}
         if FV.WS in self.ovars:
-- 
2.43.0


From ff6f943767b47114bdc56c6f8bda8dc4f8642a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:48 +0000
Subject: [PATCH 137/150] fix: MultiHeightNCStates without variables that
 depend on height

---
 foxes/input/states/multi_height.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/foxes/input/states/multi_height.py b/foxes/input/states/multi_height.py
index 9fb4cde..f220a35 100644
--- a/foxes/input/states/multi_height.py
+++ b/foxes/input/states/multi_height.py
@@ -687,12 +687,12 @@ class MultiHeightNCStates(MultiHeightStates):
         idata["coords"][self.VARS] = list(cols.keys())
 
         dims = (FC.STATE, self.VARS, self.H)
-        idata["data_vars"][self.DATA] = (
-            dims,
-            np.stack(
-                [data.data_vars[c].to_numpy() for c in cols.values()], axis=1
-            ).astype(config.dtype_double),
+        hdata = np.zeros(
+            (self._N, len(cols), len(self.heights)), dtype=config.dtype_double
         )
+        for i, c in enumerate(cols.values()):
+            hdata[:, i] = data.data_vars[c].to_numpy()
+        idata["data_vars"][self.DATA] = (dims, hdata)
         if weights is not None:
             idata["data_vars"][self.WEIGHT] = ((FC.STATE,), weights)
         for v, d in self._solo.items():
-- 
2.43.0


From 51edf1e23b45b44f6ecf72b7f895438ade0b9fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:19 +0000
Subject: [PATCH 138/150] fix: chunk processes hang for lazy loaded states

---
 foxes/input/states/field_data_nc.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/foxes/input/states/field_data_nc.py b/foxes/input/states/field_data_nc.py
index 9e702c8..9460a0e 100644
--- a/foxes/input/states/field_data_nc.py
+++ b/foxes/input/states/field_data_nc.py
@@ -695,7 +695,9 @@ class FieldDataNC(States):
 
         # case lazy:
         elif self.load_mode == "lazy":
-            ds = self.data_source.isel({self.states_coord: mdata[self.STATEI]}).load()
+            ds = self.data_source.isel({self.states_coord: mdata[self.STATEI]})
+            # the chunk runs in parallel already, and forked processes have no thread pool:
+            ds = ds.load(scheduler="synchronous")
             __, h, y, x, data, weights = self._get_data(ds, coords, verbosity=0)
             del ds
 
-- 
2.43.0


From b50265e9f4f2fbecb2795b2fc3880fc4963dd79e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:38:58 +0000
Subject: [PATCH 139/150] fix: format_col2var of labelled variables in state
 turbine tables

---
 foxes/output/results_writer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/foxes/output/results_writer.py b/foxes/output/results_writer.py
index 95cd169..879ad4b 100644
--- a/foxes/output/results_writer.py
+++ b/foxes/output/results_writer.py
@@ -129,7 +129,7 @@ class ResultsWriter(Output):
                     odata.index.name = g.index.name
                 cname = cnames[t]
                 odata[cname] = g[v].to_numpy().copy()
-                fc2v[cname] = v
+                fc2v[cname] = fc2v.get(v, v)
             data = odata
         else:
             data.set_index([six, tix], inplace=True)
-- 
2.43.0


From 0925023f68ccc6d797af753561a1714fdf7f7ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:46:23 +0000
Subject: [PATCH 140/150] fix: create and return the axes of turbine type
 curves if not given

---
 foxes/output/turbine_type_curves.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/foxes/output/turbine_type_curves.py b/foxes/output/turbine_type_curves.py
index cd4007c..20a7cd5 100644
--- a/foxes/output/turbine_type_curves.py
+++ b/foxes/output/turbine_type_curves.py
@@ -115,8 +115,11 @@ class TurbineTypeCurves(Output):
             y_labels = [y_labels]
         elif y_labels is None:
             y_labels = [None for v in vars]
-        if not isinstance(axs, (list, tuple, np.ndarray)):
+        if axs is None:
+            axs = [None for v in vars]
+        elif not isinstance(axs, (list, tuple, np.ndarray)):
             axs = [axs]
+        axs = list(axs)
 
         ws = np.arange(ws_min, ws_max + ws_step, ws_step, dtype=config.dtype_double)
         n_states = len(ws)
@@ -164,6 +167,7 @@ class TurbineTypeCurves(Output):
             ax = axs[i]
             if ax is None:
                 __, ax = plt.subplots(figsize=figsize)
+                axs[i] = ax
 
             pargs = {"linewidth": 2.5}
             pargs.update(kwargs)
-- 
2.43.0


From 35f566dfb0e2836564f1a51bc75e51a4ac3024ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:52:26 +0000
Subject: [PATCH 141/150] fix: weighted time series as input of timelines

---
 foxes/input/states/states_table.py    | 2 +-
 foxes/models/wake_frames/timelines.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/foxes/input/states/states_table.py b/foxes/input/states/states_table.py
index 5d2dd6e..223b326 100644
--- a/foxes/input/states/states_table.py
+++ b/foxes/input/states/states_table.py
@@ -264,7 +264,7 @@ class StatesTable(States):
         idata["coords"][self.VARS] = self._tvars
         idata["data_vars"][self.DATA] = ((FC.STATE, self.VARS), data.to_numpy())
         if weights is not None:
-            idata["data_vars"][self.WEIGHT] = (FC.STATE, weights)
+            idata["data_vars"][self.WEIGHT] = ((FC.STATE,), weights)
 
         return idata
 
diff --git a/foxes/models/wake_frames/timelines.py b/foxes/models/wake_frames/timelines.py
index ed70769..f457b11 100644
--- a/foxes/models/wake_frames/timelines.py
+++ b/foxes/models/wake_frames/timelines.py
@@ -136,7 +136,7 @@ class Timelines(WakeFrame):
 
             if weight_data is None:
                 weight_data = ((FC.STATE,), tdata[FV.WEIGHT][:, 0, 0])
-            elif not np.all(tdata[FV.WEIGHT] == weight_data[1]):
+            elif not np.all(tdata[FV.WEIGHT][:, 0, 0] == weight_data[1]):
                 raise AssertionError(
                     f"States '{self.name}': weight data mismatch between heights"
                 )
-- 
2.43.0


From 56e1fd91ff5b1aad2fa6e550cae601eea775a4d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:55:45 +0000
Subject: [PATCH 142/150] fix: centreline points of timelines

---
 foxes/models/wake_frames/timelines.py | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/foxes/models/wake_frames/timelines.py b/foxes/models/wake_frames/timelines.py
index f457b11..dff855b 100644
--- a/foxes/models/wake_frames/timelines.py
+++ b/foxes/models/wake_frames/timelines.py
@@ -486,36 +486,36 @@ class Timelines(WakeFrame):
         trace_dp = np.zeros_like(points[..., :2])
         trace_l = x.copy()
         trace_si = np.zeros((n_states, n_points), dtype=config.dtype_int)
-        trace_si[:] = np.arange(n_states)[:, None]
+        trace_si[:] = mdata.states_i0(counter=True) + np.arange(n_states)[:, None]
 
         for hi, h in enumerate(heights):
             precond = theights == h
             if np.any(precond):
-                sel = precond[:, None] & (trace_l > 0)
+                # step back to wake nodes, as long as they are closer:
+                sel = precond[:, None] & (trace_l > 0) & (trace_si > 0)
                 while np.any(sel):
-                    dxy = data_dxy[hi][trace_si[sel]]
+                    dxy = data_dxy[hi][trace_si[sel] - 1]
 
                     trl = trace_l[sel]
                     trp = trace_dp[sel]
                     dl = np.linalg.norm(dxy, axis=-1)
                     cl = np.abs(trl - dl) < np.abs(trl)
-                    if np.any(cl):
-                        trace_l[sel] = np.where(cl, trl - dl, trl)
-                        trace_dp[sel] = np.where(cl[:, None], trp + dxy, trp)
+                    trace_l[sel] = np.where(cl, trl - dl, trl)
+                    trace_dp[sel] = np.where(cl[:, None], trp + dxy, trp)
+                    trace_si[sel] -= cl
+                    sel[sel] = cl
+                    sel &= (trace_l > 0) & (trace_si > 0)
                     del trl, trp, dl, cl, dxy
 
-                    trace_si[sel] -= 1
-                    sel = precond[:, None] & (trace_l > 0) & (trace_si >= 0)
-
-                si = trace_si[precond] + 1
-                dxy = data_dxy[hi][si]
+                # project along the direction of the closest node:
+                dxy = data_dxy[hi][trace_si[precond]]
                 dl = np.linalg.norm(dxy, axis=-1)[:, :, None]
                 trl = trace_l[precond][:, :, None]
                 trp = trace_dp[precond]
                 sel = np.abs(trl) < 2 * dl
-                trace_dp[precond] = np.where(sel, trp - trl / dl * dxy, np.nan)
+                trace_dp[precond] = np.where(sel, trp + trl / dl * dxy, np.nan)
 
-                del si, dxy, dl, trl, trp, sel
+                del dxy, dl, trl, trp, sel
             del precond
         del trace_si, trace_l
 
-- 
2.43.0


From d13d6c4abcbbe65bceb5fbbdc947ba3590911a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:18:54 +0000
Subject: [PATCH 143/150] fix: centreline integrals end at the last point that
 is reached by the wake

---
 foxes/core/wake_frame.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/foxes/core/wake_frame.py b/foxes/core/wake_frame.py
index a4b4c96..1aac322 100644
--- a/foxes/core/wake_frame.py
+++ b/foxes/core/wake_frame.py
@@ -252,8 +252,9 @@ class WakeFrame(Model):
 
         # calc evaluation points:
         xmin = 0.0
-        xmax = min(np.nanmax(x), self.max_length_km * 1e3)
-        n_steps = int((xmax - xmin) / dx)
+        # points that are not reached by the wake have huge x coordinates
+        xmax = np.max(x, initial=xmin, where=x <= self.max_length_km * 1e3)
+        n_steps = max(int((xmax - xmin) / dx), 1)
         if xmin + n_steps * dx < xmax:
             n_steps += 1
         n_ix = n_steps + 1
-- 
2.43.0


From 99ef917d3662e6020d0258fd0936b8418329283c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:25:23 +0000
Subject: [PATCH 144/150] fix: heights of nested mirrored wake calculations

---
 foxes/models/ground_models/wake_mirror.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/foxes/models/ground_models/wake_mirror.py b/foxes/models/ground_models/wake_mirror.py
index 7a8ea13..f20c7ad 100644
--- a/foxes/models/ground_models/wake_mirror.py
+++ b/foxes/models/ground_models/wake_mirror.py
@@ -68,7 +68,7 @@ class WakeMirror(GroundModel):
 
         """
         # prepare:
-        hh = fdata[FV.H][:, downwind_index].copy()
+        hh = fdata[FV.TXYH][:, downwind_index, 2].copy()
 
         # DEBUG CHECK:
         # import numpy as np
@@ -128,7 +128,7 @@ class WakeMirror(GroundModel):
 
         """
         # prepare:
-        hh = fdata[FV.H][:, downwind_index].copy()
+        hh = fdata[FV.TXYH][:, downwind_index, 2].copy()
 
         # contribution from main wake:
         wcoos = algo.wake_frame.get_wake_coos(algo, mdata, fdata, tdata, downwind_index)
-- 
2.43.0


From 1ebdb355c1f2941cf6de9481511200cd68050dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:37:11 +0000
Subject: [PATCH 145/150] fix: centreline of yawed wakes at a single point

---
 foxes/models/wake_frames/yawed_wakes.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/foxes/models/wake_frames/yawed_wakes.py b/foxes/models/wake_frames/yawed_wakes.py
index f23729f..4571d0c 100644
--- a/foxes/models/wake_frames/yawed_wakes.py
+++ b/foxes/models/wake_frames/yawed_wakes.py
@@ -312,11 +312,19 @@ class YawedWakes(WakeFrame):
         tdata = TData.from_points(points)
 
         nx = np.zeros_like(points)
-        nx[:, 0] = points[:, 1] - points[:, 0]
-        nx[:, -1] = points[:, -1] - points[:, -2]
-        nx[:, 1:-1] = 0.5 * (points[:, 1:-1] - points[:, :-2]) + 0.5 * (
-            points[:, 2:] - points[:, 1:-1]
-        )
+        if points.shape[1] == 1:
+            nx[:] = (
+                self.base_frame.get_centreline_points(
+                    algo, mdata, fdata, downwind_index, x + 1.0
+                )
+                - points
+            )
+        else:
+            nx[:, 0] = points[:, 1] - points[:, 0]
+            nx[:, -1] = points[:, -1] - points[:, -2]
+            nx[:, 1:-1] = 0.5 * (points[:, 1:-1] - points[:, :-2]) + 0.5 * (
+                points[:, 2:] - points[:, 1:-1]
+            )
         nx /= np.linalg.norm(nx, axis=-1)[:, :, None]
 
         nz = np.zeros_like(nx)
-- 
2.43.0


From e53edda01cf04918be73f12315f4406c1779c532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:02:43 +0000
Subject: [PATCH 146/150] fix: create flow animations for xz and yz
 orientations with the matching figures

---
 foxes/output/seq_plugins/seq_flow_ani_plugin.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/foxes/output/seq_plugins/seq_flow_ani_plugin.py b/foxes/output/seq_plugins/seq_flow_ani_plugin.py
index 41c64cf..88524a2 100644
--- a/foxes/output/seq_plugins/seq_flow_ani_plugin.py
+++ b/foxes/output/seq_plugins/seq_flow_ani_plugin.py
@@ -123,9 +123,14 @@ class SeqFlowAnimationPlugin(SequentialPlugin):
                 gdata = d[2]
 
             o = FlowPlots2D(self.algo, fres)
+            gen = {
+                "xy": o.gen_states_fig_xy,
+                "xz": o.gen_states_fig_xz,
+                "yz": o.gen_states_fig_yz,
+            }[self.orientation]
 
             yield next(
-                o.gen_states_fig_xy(
+                gen(
                     **self.pars,
                     ax=ax,
                     fig=fig,
@@ -134,7 +139,7 @@ class SeqFlowAnimationPlugin(SequentialPlugin):
                 )
             )
 
-            del o, fres, d
+            del o, gen, fres, d
 
             if (
                 self.pars.get("vmin", None) is not None
-- 
2.43.0


From 713bbbaff51d409a3a5edcd0cdfeb82bd002c47c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:03:01 +0000
Subject: [PATCH 147/150] fix: keep the titles of the states in flow animations

---
 foxes/output/seq_plugins/seq_flow_ani_plugin.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/foxes/output/seq_plugins/seq_flow_ani_plugin.py b/foxes/output/seq_plugins/seq_flow_ani_plugin.py
index 88524a2..4b44004 100644
--- a/foxes/output/seq_plugins/seq_flow_ani_plugin.py
+++ b/foxes/output/seq_plugins/seq_flow_ani_plugin.py
@@ -97,7 +97,7 @@ class SeqFlowAnimationPlugin(SequentialPlugin):
             else None
         )
 
-        self._data.append((of, od))
+        self._data.append((of, od, self.pars.get("title", None)))
 
     def gen_images(self, ax):
         """
@@ -117,7 +117,7 @@ class SeqFlowAnimationPlugin(SequentialPlugin):
         gdata = None
         while len(self._data):
 
-            fres, d = self._data.pop(0)
+            fres, d, title = self._data.pop(0)
 
             if d[2] is not None:
                 gdata = d[2]
@@ -131,7 +131,7 @@ class SeqFlowAnimationPlugin(SequentialPlugin):
 
             yield next(
                 gen(
-                    **self.pars,
+                    **{**self.pars, "title": title},
                     ax=ax,
                     fig=fig,
                     ret_im=True,
-- 
2.43.0


From 009691d8c5d5e863a6a240c5c66e11850207872d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:04:13 +0000
Subject: [PATCH 148/150] fix: sort power coefficient tables by wind speed
 before interpolation

---
 foxes/models/turbine_types/CpCt_file.py     | 1 +
 foxes/models/turbine_types/CpCt_from_two.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/foxes/models/turbine_types/CpCt_file.py b/foxes/models/turbine_types/CpCt_file.py
index 0cf71c0..6f0784d 100644
--- a/foxes/models/turbine_types/CpCt_file.py
+++ b/foxes/models/turbine_types/CpCt_file.py
@@ -57,6 +57,7 @@ class CpCtFile(PCtFile):
 
         D = pars["D"]
         A = np.pi * (D / 2) ** 2
+        data = data.sort_values(by=col_ws)
         ws = data[col_ws].to_numpy()
         cp = data[col_cp].to_numpy()
         col_ct = pars.pop("col_ct", "ct")
diff --git a/foxes/models/turbine_types/CpCt_from_two.py b/foxes/models/turbine_types/CpCt_from_two.py
index 1b478fc..3aa1d83 100644
--- a/foxes/models/turbine_types/CpCt_from_two.py
+++ b/foxes/models/turbine_types/CpCt_from_two.py
@@ -68,6 +68,7 @@ class CpCtFromTwo(PCtFromTwo):
 
         D = pars["D"]
         A = np.pi * (D / 2) ** 2
+        data_cp = data_cp.sort_values(by=col_ws_cp_file)
         ws = data_cp[col_ws_cp_file].to_numpy()
         cp = data_cp[col_cp].to_numpy()
         P_unit = pars.pop("P_unit", FC.kW)
-- 
2.43.0


From df1766462b6e4ed7e289eb36d974007db6883f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:04:26 +0000
Subject: [PATCH 149/150] fix: assign turbine ids to the rows of a layout table
 by position

---
 foxes/input/farm_layout/from_csv.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/foxes/input/farm_layout/from_csv.py b/foxes/input/farm_layout/from_csv.py
index 91d0a64..1ac7421 100644
--- a/foxes/input/farm_layout/from_csv.py
+++ b/foxes/input/farm_layout/from_csv.py
@@ -83,7 +83,7 @@ def add_from_csv(
     H = turbine_parameters.pop("H", None)
     D = turbine_parameters.pop("D", None)
 
-    for i in data.index:
+    for k, i in enumerate(data.index):
         s = 1 if turbine_base_name_count_shift else 0
         tname = (
             f"{turbine_base_name}{i+s}" if col_name is None else data.loc[i, col_name]
@@ -91,7 +91,7 @@ def add_from_csv(
         txy = data.loc[i, [col_x, col_y]].values
 
         if turbine_ids is not None:
-            tid = turbine_ids[i]
+            tid = turbine_ids[k]
         elif col_id is not None:
             tid = data.loc[i, col_id]
         else:
-- 
2.43.0


From 5adc0294e2499f72a526bb9e666312c98a4e0ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:12:33 +0000
Subject: [PATCH 150/150] fix: give each sequential algorithm its own list of
 plugins

---
 foxes/algorithms/sequential/sequential.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/foxes/algorithms/sequential/sequential.py b/foxes/algorithms/sequential/sequential.py
index 8e97044..2a62457 100644
--- a/foxes/algorithms/sequential/sequential.py
+++ b/foxes/algorithms/sequential/sequential.py
@@ -66,7 +66,7 @@ class Sequential(Iterative):
         points=None,
         ambient=False,
         calc_pars={},
-        plugins=[],
+        plugins=None,
         outputs=None,
         **kwargs,
     ):
@@ -88,7 +88,7 @@ class Sequential(Iterative):
         calc_pars: dict
             Parameters for model calculation.
             Key: model name str, value: parameter dict
-        plugins: list of foxes.algorithm.sequential.SequentialIterPlugin
+        plugins: list of foxes.algorithm.sequential.SequentialIterPlugin, optional
             The plugins, updated with every iteration
         outputs: list of str, optional
             The output variables
@@ -101,7 +101,7 @@ class Sequential(Iterative):
         self.calc_pars = calc_pars
         self.states0 = self.states.states
         self.points = points
-        self.plugins = plugins
+        self.plugins = plugins if plugins is not None else []
         self.outputs = outputs if outputs is not None else self.DEFAULT_FARM_OUTPUTS
 
         self._verbo0 = self.verbosity + 1
-- 
2.43.0

