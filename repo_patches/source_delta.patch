From c70cffdd4a1e9d4af0df4e834492fe356faa08ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:01 +0000
Subject: [PATCH 01/46] fix: the first adaptive step must not exceed
 max_stepsize

---
 multisim/simenv.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/multisim/simenv.py b/multisim/simenv.py
index fc4e648..15abe9a 100644
--- a/multisim/simenv.py
+++ b/multisim/simenv.py
@@ -418,8 +418,9 @@ class SimEnv:
             # last failed step
             self._steps_since_fail = 0
             # also set starting timestep with some value:
-            self._new_step = 1.0  # this is the adaptive step starting step
-            self.timestep = 1.0  # this is the adaptive step final value
+            # (must not exceed the maximum allowed stepsize)
+            self._new_step = min(1.0, self.__max_stepsize)  # starting step
+            self.timestep = self._new_step  # adaptive step final value
         else:
             # else if constant stepsizes are chosen
             err_str = (
@@ -4798,9 +4799,6 @@ class SimEnv:
         # reset dynamic boundary conditions:
         self._initialize_dynamic_BC()
 
-        self._new_step = 1.0  # this is the adaptive step starting step
-        self.timestep = 1.0  # this is the adaptive step final value
-
     def initialize_sim(self, *, build_simenv=True, reset_simenv=False):
         """
         Initialize the simulation environment.
-- 
2.43.0


From 33bf174fa69f4dbebeac880ff6368a28e0c52a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:38 +0000
Subject: [PATCH 02/46] fix: keep all references intact when result arrays grow
 in memory

---
 multisim/simenv.py | 61 +++++++++++++++++++++++-----------------------
 1 file changed, 31 insertions(+), 30 deletions(-)

diff --git a/multisim/simenv.py b/multisim/simenv.py
index 15abe9a..73ed314 100644
--- a/multisim/simenv.py
+++ b/multisim/simenv.py
@@ -5283,38 +5283,39 @@ class SimEnv:
 
         """
         if not self.__save_to_disk:
+            # enlarge all arrays by the number of steps they currently hold:
+            add_rows = self.num_steps
+
+            def enlarge(arr):
+                return np.append(
+                    arr, np.zeros((add_rows,) + arr.shape[1:]), axis=0
+                )
+
             # timevector etc. enlarging:
-            arr_to_append = np.zeros(self.__base_num_steps)
-            self.time_vec = np.append(self.time_vec, arr_to_append, axis=0)
-            self._sys_trnc_err = np.append(
-                self._sys_trnc_err, arr_to_append, axis=0
-            )
-            self._failed_steps = np.append(
-                self._failed_steps, arr_to_append, axis=0
-            )
-            self._solver_state = np.append(
-                self._solver_state, arr_to_append, axis=0
-            )
-            # loop over parts:
-            for part in self.parts:
-                # for all parts:
-                self.parts[part].res_dm = np.append(
-                    self.parts[part].res_dm,
-                    np.zeros(
-                        (
-                            self.__base_num_steps,
-                            self.parts[part].res_dm.shape[1],
+            self.time_vec = enlarge(self.time_vec)
+            self._sys_trnc_err = enlarge(self._sys_trnc_err)
+            self._failed_steps = enlarge(self._failed_steps)
+            self._solver_state = enlarge(self._solver_state)
+            # loop over parts, enlarging the results and (if existing) the
+            # special result arrays:
+            for part in self.parts.values():
+                for arr_name in (
+                    'res',
+                    'res_dm',
+                    'res_dQ',
+                    'res_Pel',
+                    'res_Pgas',
+                    '_chp_state',
+                ):
+                    if hasattr(part, arr_name):
+                        setattr(
+                            part, arr_name, enlarge(getattr(part, arr_name))
                         )
-                    ),
-                    axis=0,
-                )
-                self.parts[part].res = np.append(
-                    self.parts[part].res,
-                    np.zeros(
-                        (self.__base_num_steps, self.parts[part].res.shape[1])
-                    ),
-                    axis=0,
-                )
+            # the port updater and the inputs of the differential functions
+            # refer to the old arrays and thus have to be created again:
+            self._create_port_updater()
+            self._create_diff_inputs()
+            self._prep_inputs_for_njits()
 
             # set numer of needed steps to new amount:
             self.num_steps = self.time_vec.size - 1
-- 
2.43.0


From 672936b8efc2c76d419865199e9fccc884d16e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:57:38 +0000
Subject: [PATCH 03/46] fix: storing to disk when the last step fills the
 result arrays

---
 multisim/simenv.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/multisim/simenv.py b/multisim/simenv.py
index 73ed314..8d579b1 100644
--- a/multisim/simenv.py
+++ b/multisim/simenv.py
@@ -5348,11 +5348,14 @@ class SimEnv:
                     self._solver_state[:array_length],
                     axis=0,
                 )
+                # index of the last row (when finalizing, stepnum may already
+                # point to the row after the last row of the arrays)
+                last = min(self.stepnum[0], self.time_vec.size - 1)
                 # save last state and reset the rest
-                self.time_vec[0] = self.time_vec[self.stepnum[0]]
-                self._sys_trnc_err[0] = self._sys_trnc_err[self.stepnum[0]]
-                self._failed_steps[0] = self._failed_steps[self.stepnum[0]]
-                self._solver_state[0] = self._solver_state[self.stepnum[0]]
+                self.time_vec[0] = self.time_vec[last]
+                self._sys_trnc_err[0] = self._sys_trnc_err[last]
+                self._failed_steps[0] = self._failed_steps[last]
+                self._solver_state[0] = self._solver_state[last]
                 self.time_vec[1:] = 0
                 self._sys_trnc_err[1:] = 0
                 self._failed_steps[1:] = 0
@@ -5399,11 +5402,11 @@ class SimEnv:
                         )
                     # set current result to row 0 of array and clear the rest:
                     self.parts[part].res_dm[0, ...] = self.parts[part].res_dm[
-                        self.stepnum[0], ...
+                        last, ...
                     ]
                     self.parts[part].res_dm[1:, ...] = 0.0
                     self.parts[part].res[0, ...] = self.parts[part].res[
-                        self.stepnum[0], ...
+                        last, ...
                     ]
                     self.parts[part].res[1:, ...] = 0.0
                     # for parts with special arrays, use the special method:
@@ -5413,7 +5416,7 @@ class SimEnv:
                             part=part,
                             array_length=array_length,
                             hdf_idx=hdf_idx,
-                            stepnum=self.stepnum,
+                            stepnum=(last,),
                         )
                 # reset stepnum back to 0 (+1 will be set right after
                 # free_memory method) and bank total stepnum:
-- 
2.43.0


From fe0ada6d876092808d3eb45adca33122b5ea81d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:57:38 +0000
Subject: [PATCH 04/46] fix: set_timeframe refused every check_vN argument

---
 multisim/simenv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/multisim/simenv.py b/multisim/simenv.py
index 8d579b1..bb13211 100644
--- a/multisim/simenv.py
+++ b/multisim/simenv.py
@@ -384,7 +384,7 @@ class SimEnv:
             else:
                 self.__min_factor = 0.2
             if 'check_vN' in kwargs:
-                assert isinstance(kwargs['check_vN'], bool)(
+                assert isinstance(kwargs['check_vN'], bool), (
                     'check_vN not of correct type!\n\n' + err_str
                 )
                 self._check_vN = kwargs['check_vN']
-- 
2.43.0


From e69794fd90153e7c3b1a372b8e6d13ac91054bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:00:05 +0000
Subject: [PATCH 05/46] fix: make constant stepsizes (adaptive_steps=False)
 work again

---
 multisim/simenv.py | 44 ++++++++++++++++++++++++++++----------------
 1 file changed, 28 insertions(+), 16 deletions(-)

diff --git a/multisim/simenv.py b/multisim/simenv.py
index bb13211..35ac079 100644
--- a/multisim/simenv.py
+++ b/multisim/simenv.py
@@ -438,6 +438,7 @@ class SimEnv:
             # smoothly:
             self._max_speed = False
             self._check_vN = False
+            self._max_factor = np.array([1.0])
 
         # set stepnum to 0 for the start:
         self.stepnum[0] = 0
@@ -3860,7 +3861,7 @@ class SimEnv:
 
         return vector_rot
 
-    def _heun(self, solve_num_expl, solve_nonnum, timestep):
+    def _heun(self, solve_num_expl, solve_num_impl, solve_nonnum, timestep):
         """
         Calculate the result of a differential equation using Heun's method.
 
@@ -3880,43 +3881,54 @@ class SimEnv:
         None.
 
         """
+        assert (
+            len(solve_num_impl) == 0
+        ), 'Implicit solving requires `adaptive_steps=True`.'
+        stepnum = self.stepnum[0]
         # solve predictor step for all numeric parts:
         for part in solve_num_expl:
             # get results from last timestep and pass them to
             # current-timestep-temperature-array:
-            self.parts[part].T[:] = self.parts[part].res[self.stepnum[0] - 1]
+            self.parts[part].T[:] = self.parts[part].res[stepnum - 1]
             # calculate differential at result:
-            self.parts[part]._df0 = solve_num_expl[part]()
+            self.parts[part]._df0[:] = solve_num_expl[part](timestep)
             # calculate and save predictor step:
             self.parts[part].T[:] = (
                 self.parts[part].T + timestep * self.parts[part]._df0
             )
         # solve predictor step for all non-numeric parts:
         for part in solve_nonnum:
-            self.solve_nonnum[part]()
+            self.solve_nonnum[part](timestep)
         # update ports with new values:
-        self._update_ports(source='intermediate', all_ports=True, nnum=False)
-        self._update_ports(source='intermediate', all_ports=True, nnum=True)
+        _pf._upddate_ports_interm(
+            ports_all=self.ports_all,
+            trgt_indices=self._ports_trgt_idx,
+            ports_src=self._ports_src_interm,
+            source=0,
+        )
         # solve corrector step for all numeric parts:
         for part in solve_num_expl:
             # calculate differential at predictor step result:
-            self.parts[part]._df1 = solve_num_expl[part]()
+            self.parts[part]._df1[:] = solve_num_expl[part](timestep)
             # solve heun method and save to result:
-            self.parts[part].res[self.stepnum[0]] = self.parts[part].res[
-                self.stepnum[0] - 1
+            self.parts[part].res[stepnum] = self.parts[part].res[
+                stepnum - 1
             ] + (timestep / 2) * (
                 self.parts[part]._df0 + self.parts[part]._df1
             )
             # also save to T arrays to be able to use memoryviews
-            self.parts[part].T[:] = self.parts[part].res[self.stepnum[0]]
+            self.parts[part].T[:] = self.parts[part].res[stepnum]
         # solve corrector step for all non-numeric parts:
         for part in solve_nonnum:
-            self.solve_nonnum[part]()
-        # update numeric parts' ports with results:
-        self._update_ports(source='results', all_ports=True, nnum=False)
-        # update non-numeric ports (they only have intermediate values as they
-        # have no differential method!)
-        self._update_ports(source='intermediate', all_ports=True, nnum=True)
+            self.solve_nonnum[part](timestep)
+        # update all ports with the results:
+        _pf._upddate_ports_result(
+            ports_all=self.ports_all,
+            trgt_indices=self._ports_trgt_idx,
+            ports_src=self._ports_src_result,
+            stepnum=stepnum,
+            src_list=self._ports_src_res_idx,
+        )
 
     def _heun_adaptive(
         self, solve_num_expl, solve_num_impl, solve_nonnum, old_step
-- 
2.43.0


From fba27adc747d82d61a196374a949f2891b088314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:53 +0000
Subject: [PATCH 06/46] fix: per-port pipe specs could not be taken from the
 pipe table

---
 multisim/simenv.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/multisim/simenv.py b/multisim/simenv.py
index 35ac079..da0deb9 100644
--- a/multisim/simenv.py
+++ b/multisim/simenv.py
@@ -3642,12 +3642,12 @@ class SimEnv:
                     if get_from_table:
                         self._A_wll_own_p[
                             trgt_idx
-                        ] = self._models._pipe_specs.loc[pipe_type, DN][
+                        ] = self._models._pipe_specs[pipe_type, DN][
                             'A_wall'
                         ]
                         self._A_fld_own_p[
                             trgt_idx
-                        ] = self._models._pipe_specs.loc[pipe_type, DN]['A_i']
+                        ] = self._models._pipe_specs[pipe_type, DN]['A_i']
                     else:
                         self._A_wll_own_p[trgt_idx] = value['A_wall']
                         self._A_fld_own_p[trgt_idx] = value['A_i']
@@ -3660,7 +3660,7 @@ class SimEnv:
                             'pipe_type': pipe_type,
                             'DN': DN,
                             'pipe_specs': (
-                                self._models._pipe_specs.loc[pipe_type, DN]
+                                self._models._pipe_specs[pipe_type, DN]
                             )
                             if get_from_table
                             else value,
-- 
2.43.0


From b042135ee32046016a074f5824b58cd0c7f2ce7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:14 +0000
Subject: [PATCH 07/46] fix: record the massflows of connectors and heat
 exchangers

---
 multisim/parts/connector_3w.py  | 2 ++
 multisim/parts/heatexchanger.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/multisim/parts/connector_3w.py b/multisim/parts/connector_3w.py
index 8be42a2..845a64b 100644
--- a/multisim/parts/connector_3w.py
+++ b/multisim/parts/connector_3w.py
@@ -435,6 +435,8 @@ class Connector3w(SimEnv):
             res=self.res,
             stepnum=self.stepnum,
         )
+        # save massflows to results:
+        self.res_dm[self.stepnum[0]] = self._dm_io
 
     def draw_part(self, axis, timestep, draw, animate=False):
         """
diff --git a/multisim/parts/heatexchanger.py b/multisim/parts/heatexchanger.py
index 90910b4..b00f34f 100644
--- a/multisim/parts/heatexchanger.py
+++ b/multisim/parts/heatexchanger.py
@@ -1170,6 +1170,8 @@ class HeatExchanger(SimEnv):
             corr_Re=self._corr_Re,
             stepnum=self.stepnum,
         )
+        # save massflows to results:
+        self.res_dm[self.stepnum[0]] = self._dm_io
 
     def draw_part(self, axis, timestep, draw, animate=False):
         return
-- 
2.43.0


From 6a3e1d4a19e65e4f5d9057269b8d492280d3e7ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:00 +0000
Subject: [PATCH 08/46] fix: several time series with sub-second spacing were
 refused

---
 multisim/simenv.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/multisim/simenv.py b/multisim/simenv.py
index da0deb9..1ff0e3f 100644
--- a/multisim/simenv.py
+++ b/multisim/simenv.py
@@ -1465,10 +1465,8 @@ class SimEnv:
                 self._SimEnv__BC_timedelta * time_series.index.size
                 > self.timeframe
             ), err_str
-            # add new timeseries in seconds frequency:
-            self._dyn_BC_timevec = time_series.index.values.astype(
-                'datetime64[s]'
-            )
+            # add new timeseries:
+            self._dyn_BC_timevec = time_series.index.values
             # preallocate last step index counter for interpolation:
             self._SimEnv__last_step_t_idx = 0
 
-- 
2.43.0


From 778262e57cffc1d6acbd932cb6fa12b1fbcabcec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:15:14 +0000
Subject: [PATCH 09/46] fix: adaptive steps grew by more than max_factor once
 factor_recovery steps had passed

---
 multisim/simenv.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/multisim/simenv.py b/multisim/simenv.py
index 1ff0e3f..9a107e2 100644
--- a/multisim/simenv.py
+++ b/multisim/simenv.py
@@ -4173,7 +4173,10 @@ class SimEnv:
                                 * err_rms ** (-1 / (self.__order + 1))
                             ),
                         )
-                        * (self._steps_since_fail / self._fctr_rec_stps) ** 2,
+                        * min(
+                            1.0, self._steps_since_fail / self._fctr_rec_stps
+                        )
+                        ** 2,
                     )
                     # check if step is not above max step:
                     if _h > self.__max_stepsize:
-- 
2.43.0


From de2c147aa80980d04a9d1da63b14116b7f9bbf40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:53:12 +0000
Subject: [PATCH 10/46] fix: a time series for the valve of a PipeWith3wValve
 drove the massflow array instead of the opening

---
 multisim/parts/pipe_with_valve.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/multisim/parts/pipe_with_valve.py b/multisim/parts/pipe_with_valve.py
index 57a12d2..6f341db 100644
--- a/multisim/parts/pipe_with_valve.py
+++ b/multisim/parts/pipe_with_valve.py
@@ -183,10 +183,18 @@ class PipeWith3wValve(Pipe):
         self._pf_arr_init = self.pf_arr.copy()  # bkp for re-initializing
 
         # initialize the actuator
-        self._initialize_actuator(**kwargs)
+        self._initialize_actuator(variable_name='pf_arr', **kwargs)
 
         # expand const var to other ports:
         self._actuator_CV[1] = 1 - self._actuator_CV[0]
+        # expand time series to other ports:
+        if not self.control_req and 'time_series' in kwargs:
+            self._models.assign_boundary_cond(
+                time_series=1 - kwargs['time_series'],
+                part=self.name,
+                variable_name='pf_arr',
+                array_index=1,
+            )
 
         # add massflow grid argument to input args at correct position:
         self._input_arg_names_sorted.insert(6, 'dm')
-- 
2.43.0


From 313adedc1c8451869a00e6aca82612e506a06112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:07:07 +0000
Subject: [PATCH 11/46] fix: store_results was ignored when storing without
 compression

---
 multisim/simenv.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/multisim/simenv.py b/multisim/simenv.py
index 9a107e2..3a92f2d 100644
--- a/multisim/simenv.py
+++ b/multisim/simenv.py
@@ -5448,8 +5448,10 @@ class SimEnv:
         self._disk_store_timevec = self._disk_store['store_tmp'][
             list(self.parts.keys())[0] + '/res'
         ].index.copy()
-        # compress store if set
-        if self._disk_store['compress']:
+        # compress store if set or if only a selection of the cells is stored
+        if self._disk_store['compress'] or any(
+            dsp is not True for dsp in self._disk_store_parts.values()
+        ):
             # create new store with compression set
             self._disk_store['store'] = pd.HDFStore(
                 self._disk_store['path'],
@@ -5522,7 +5524,6 @@ class SimEnv:
                 )
                 # copy reference:
                 self._disk_store['store'] = self._disk_store['store_tmp']
-                print('fehler hier?')
             else:
                 self._disk_store['store'] = pd.HDFStore(
                     self._disk_store['path'],
-- 
2.43.0


From ddd40fea3479e3ad0b0f8730cdcb9e2547ab5b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:18:43 +0000
Subject: [PATCH 12/46] fix: controllers with a reference part asked for an
 undocumented argument

---
 multisim/controls.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/multisim/controls.py b/multisim/controls.py
index 3aeb346..37a0e31 100644
--- a/multisim/controls.py
+++ b/multisim/controls.py
@@ -295,7 +295,7 @@ class Controls:
             assert 'ref_SP_diff' in kwargs and isinstance(
                 kwargs['ref_SP_diff'], (int, float)
             ), err_str
-            self._ref_diff = float(kwargs['difference_to_ref'])
+            self._ref_diff = float(kwargs['ref_SP_diff'])
 
         # ---> CHECK CTRL ALGORITHMS
         # check if actuator definetely needs a special control (all actuators
-- 
2.43.0


From 66a5035fdadbbd8e3b3e5022037350de1f558d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:18:43 +0000
Subject: [PATCH 13/46] fix: PID controllers with terms='I' had no coefficients

---
 multisim/parts/controllers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/multisim/parts/controllers.py b/multisim/parts/controllers.py
index 691996b..0d00950 100644
--- a/multisim/parts/controllers.py
+++ b/multisim/parts/controllers.py
@@ -47,7 +47,7 @@ class PID(Controls):
 
         # GET COEFFICIENTS FOR PID (and loop tuning methods):
         # check if controller is P/I/D
-        if self.terms in ['P', 'PI', 'PD', 'PID']:
+        if self.terms in terms:
             # assert and get loop tuning (coeff. setting) method:
             methods = ('manual', 'tune', 'ziegler-nichols')
             err_str = (
-- 
2.43.0


From ac1e9c7447ee80af526ea5ee00b26150a0759d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:18:43 +0000
Subject: [PATCH 14/46] fix: inverted two-point controllers alternated between
 both directions

---
 multisim/parts/controllers.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/multisim/parts/controllers.py b/multisim/parts/controllers.py
index 0d00950..6d6963e 100644
--- a/multisim/parts/controllers.py
+++ b/multisim/parts/controllers.py
@@ -534,6 +534,8 @@ class BangBang(Controls):
         self.prev_i_term = 0.0
 
     def run_controller(self, timestep):
+        # the CV is kept between the switching points: undo its inversion
+        self._cv_invert()
         if self.pv < (self.sp - self._hysteresis / 2):
             if self._reversed:  # reversed action
                 self.cv = self._off_state  # switch off (to off state)
@@ -636,6 +638,8 @@ class TwoSensors(Controls):
         self.prev_i_term = 0.0
 
     def run_controller(self, timestep):
+        # the CV is kept between the switching points: undo its inversion
+        self._cv_invert()
         # controller activation
         if self._act_sgn == 'le':
             if self.on_sensor_val[0] < self._act_val:
-- 
2.43.0


From 9632053ccffd3724cefd0f83ce63cc4b8a0e9dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:18:43 +0000
Subject: [PATCH 15/46] fix: discrete PID controllers ignored `invert`

---
 multisim/parts/controllers.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/multisim/parts/controllers.py b/multisim/parts/controllers.py
index 6d6963e..2f7730f 100644
--- a/multisim/parts/controllers.py
+++ b/multisim/parts/controllers.py
@@ -422,9 +422,12 @@ class PID(Controls):
                 # calculate new control variable with velocity algorithm:
                 self.cv = (
                     self._prev_cv_lim
-                    + self.kp * (self.error - self.prev_error)
-                    + self.ki * timestep * self.error
-                    + self.kd / timestep * self._deriv
+                    + (
+                        self.kp * (self.error - self.prev_error)
+                        + self.ki * timestep * self.error
+                        + self.kd / timestep * self._deriv
+                    )
+                    * self._invert
                 )
             else:
                 # else if no integral term, use standard P/PD algorithm
@@ -448,7 +451,7 @@ class PID(Controls):
                 # with euler backwards differentiation for derivate term:
                 self.cv = (
                     self.kp * self.error + self.kd / timestep * self._deriv
-                )
+                ) * self._invert
             # clip cv value to saturation:
             self._clip_cv_to_saturation()
         else:  # calculate controller output for a continuous time system
-- 
2.43.0


From f4ef9b37b66e4663e8cf1e36ddb042af2e47e79d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:18:43 +0000
Subject: [PATCH 16/46] fix: the delayed process variable was extrapolated for
 steps longer than the deadtime

---
 multisim/precomp_funs.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/multisim/precomp_funs.py b/multisim/precomp_funs.py
index 84c2197..08d4019 100644
--- a/multisim/precomp_funs.py
+++ b/multisim/precomp_funs.py
@@ -3686,10 +3686,10 @@ def ctrl_deadtime(
     # until next step, thus can be reused if no new value is found)
     # if a new value has reached deadtime delay in only one step:
     if dt_idx == 0:
-        # interpolate delayed pv from previous pv, new pv and
-        # expired time and time between prev. and new pv:
-        delayed_pv = delayed_pv + (pv_arr[0] - delayed_pv) / (deadtime) * (
-            dt_arr[0]
+        # interpolate delayed pv between the pv of the previous call and the
+        # current pv:
+        delayed_pv = pv_arr[0] + (pv[0] - pv_arr[0]) / dt_arr[0] * (
+            dt_arr[0] - deadtime
         )
     # if a new value has reached deadtime delay after more than
     # one step:
-- 
2.43.0


From ca79248f9ab41f39d878ea365073e6dbd00a2532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:19:01 +0000
Subject: [PATCH 17/46] fix: controllers with a deadtime lost their history
 with small timesteps

---
 multisim/controls.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/multisim/controls.py b/multisim/controls.py
index 37a0e31..ff241b7 100644
--- a/multisim/controls.py
+++ b/multisim/controls.py
@@ -865,6 +865,16 @@ class Controls:
                 self.sp = self._ref + self._ref_diff
             # check if deadtime != 0 (also works for np.timedelta64 values)
             if self.deadtime:
+                # enlarge the history if it does not reach back far enough for
+                # the current (small) timesteps:
+                if max(self.dt_idx, self.last_dt_idx) + 3 > self.len_dt_arr:
+                    self.dt_arr = np.pad(
+                        self.dt_arr, (0, self.len_dt_arr + 2), mode='edge'
+                    )
+                    self.pv_arr = np.pad(
+                        self.pv_arr, (0, self.len_dt_arr + 2), mode='edge'
+                    )
+                    self.len_dt_arr = self.dt_arr.shape[0]
                 # before extraction of pv add up timestep (time expired since
                 # last call of controller) to deadtime array:
                 (
-- 
2.43.0


From 66cf7cc7a89e96cb3926d895fa1bb5c7f7f5184e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:19:01 +0000
Subject: [PATCH 18/46] fix: bang-bang controllers ignored the deadtime

---
 multisim/parts/controllers.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/multisim/parts/controllers.py b/multisim/parts/controllers.py
index 2f7730f..08b3d7d 100644
--- a/multisim/parts/controllers.py
+++ b/multisim/parts/controllers.py
@@ -539,12 +539,14 @@ class BangBang(Controls):
     def run_controller(self, timestep):
         # the CV is kept between the switching points: undo its inversion
         self._cv_invert()
-        if self.pv < (self.sp - self._hysteresis / 2):
+        # process variable (delayed, if the controller has a deadtime)
+        pv = self.delayed_pv if self.deadtime else self.pv
+        if pv < (self.sp - self._hysteresis / 2):
             if self._reversed:  # reversed action
                 self.cv = self._off_state  # switch off (to off state)
             else:
                 self.cv = self._cv_sat_max  # switch on (to upper sat lim.)
-        elif self.pv > (self.sp + self._hysteresis / 2):
+        elif pv > (self.sp + self._hysteresis / 2):
             if self._reversed:  # reversed action
                 self.cv = self._cv_sat_max  # switch on (to upper sat lim.)
             else:
-- 
2.43.0


From cc5e8c8a07e3a77cd3c63b3564b5de8b79f859c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:20 +0000
Subject: [PATCH 19/46] fix: numeric heat exchanger read conductivities beyond
 its array at the ports

---
 multisim/precomp_funs.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/multisim/precomp_funs.py b/multisim/precomp_funs.py
index 08d4019..999af65 100644
--- a/multisim/precomp_funs.py
+++ b/multisim/precomp_funs.py
@@ -2725,6 +2725,9 @@ def hexnum_diff(
 
     specific_inner_energy_wll(T_wll=T_ext[1:-1, 2], cp_wll=cp_wll, ui=ui[:, 1])
 
+    # port indices refer to the grid including the wall column:
+    lam_T = np.zeros(ui.shape)
+    lam_T[:, ::2] = lam_fld
     dT_cond_port = _process_ports_collapsed(
         ports_all=ports_all,
         port_link_idx=port_link_idx,
@@ -2736,7 +2739,7 @@ def hexnum_diff(
         A_p_fld_mean=A_p_fld_mean,
         port_gsp=port_gsp,
         grid_spacing=grid_spacing,
-        lam_T=lam_fld,
+        lam_T=lam_T,
         cp_port=cp_port,
         lam_port_fld=lam_port_fld,
         T_port=T_port,
@@ -3120,6 +3123,9 @@ def hexnum_diff_impl(
 
     specific_inner_energy_wll(T_wll=T_ext[1:-1, 2], cp_wll=cp_wll, ui=ui[:, 1])
 
+    # port indices refer to the grid including the wall column:
+    lam_T = np.zeros(ui.shape)
+    lam_T[:, ::2] = lam_fld
     dT_cond_port = _process_ports_collapsed(
         ports_all=ports_all,
         port_link_idx=port_link_idx,
@@ -3131,7 +3137,7 @@ def hexnum_diff_impl(
         A_p_fld_mean=A_p_fld_mean,
         port_gsp=port_gsp,
         grid_spacing=grid_spacing,
-        lam_T=lam_fld,
+        lam_T=lam_T,
         cp_port=cp_port,
         lam_port_fld=lam_port_fld,
         T_port=T_port,
-- 
2.43.0


From d238922338be8d48781eb37d052d9ee1e90f309e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:02 +0000
Subject: [PATCH 20/46] fix: parts connected to a heat exchanger were not
 checked for stability

---
 multisim/precomp_funs.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/multisim/precomp_funs.py b/multisim/precomp_funs.py
index 999af65..693f732 100644
--- a/multisim/precomp_funs.py
+++ b/multisim/precomp_funs.py
@@ -697,8 +697,12 @@ def _vonNeumann_stability_invar(
     )
     # for the next two with non-constant gridspacing, find max of UA/gsp:
     # vN_diff[1] = (UA_port / port_subs_gsp).max() / rhocpmax * timestep
+    # ports without heat conduction (f.i. to a heat exchanger) have a zero area
+    # and a zero UA value and must not yield NaN:
     vN_diff[1] = (
-        np.max(UA_port / (A_port * port_subs_gsp)) * timestep / rhocp.max()
+        np.max(UA_port / np.maximum(A_port * port_subs_gsp, 1e-99))
+        * timestep
+        / rhocp.max()
     )
     # vN_diff[2] = UA_amb_shell.max() / r_total / rhocpmax * timestep
     vN_diff[2] = np.max(UA_amb_shell / rhocp) * timestep / (A_shell * r_total)
@@ -830,7 +834,9 @@ def _vonNeumann_stability_invar_hexnum(
     #     * timestep / (A_plate_eff * grid_spacing))
     # for the next two with non-constant gridspacing, find max of UA/gsp:
     vN_diff[2] = (
-        (UA_port / (A_port * port_subs_gsp)).max() / rhocpmax * timestep
+        (UA_port / np.maximum(A_port * port_subs_gsp, 1e-99)).max()
+        / rhocpmax
+        * timestep
     )
     # vN_diff[2] = (UA_port / port_subs_gsp).max() / rhocpmax * timestep
     # vN_diff[2] = (
@@ -952,8 +958,12 @@ def _vonNeumann_stability_var(
     )
     # for the next two with non-constant gridspacing, find max of UA/gsp:
     # vN_diff[1] = (UA_port / port_subs_gsp).max() / rhocpmax * timestep
+    # ports without heat conduction (f.i. to a heat exchanger) have a zero area
+    # and a zero UA value and must not yield NaN:
     vN_diff[1] = (
-        np.max(UA_port / (A_port * port_subs_gsp)) * timestep / rhocp.max()
+        np.max(UA_port / np.maximum(A_port * port_subs_gsp, 1e-99))
+        * timestep
+        / rhocp.max()
     )
     # vN_diff[2] = UA_amb_shell.max() / r_total / rhocpmax * timestep
     vN_diff[2] = np.max(UA_amb_shell / rhocp) * timestep / (A_shell * r_total)
-- 
2.43.0


From a4f1b44e9420fc1d620f8042e59ad1e7916379eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:11 +0000
Subject: [PATCH 21/46] fix: condensing heat exchangers could not be built with
 scikit-learn >= 1.0

---
 multisim/precomp_funs.py | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/multisim/precomp_funs.py b/multisim/precomp_funs.py
index 693f732..802d1c6 100644
--- a/multisim/precomp_funs.py
+++ b/multisim/precomp_funs.py
@@ -6052,18 +6052,11 @@ def make_poly_transf_combs_for_nb(
         poly_feats = mdl.named_steps[poly_step]
     else:
         poly_feats = mdl
-    if n_features is None:
-        n_features = getattr(poly_feats, 'n_input_features_', None)
-        if n_features is None:
-            raise ValueError
-    # extract combinations as persisten tuple
+    # extract combinations as persisten tuple (from the exponents of the
+    # features, since the private API changed between scikit-learn versions)
     cmbntns = tuple(
-        poly_feats._combinations(
-            n_features,
-            poly_feats.degree,
-            poly_feats.interaction_only,
-            poly_feats.include_bias,
-        )
+        tuple(np.repeat(np.arange(pwrs.size), pwrs))
+        for pwrs in poly_feats.powers_
     )
     # make to integer indexing array and fill with dummy false value
     int_cmb_idx = (
-- 
2.43.0


From 908f8650836bd7a43d0facb2b8a19806fc27af5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:15:59 +0000
Subject: [PATCH 22/46] fix: parallel_circuit_UA added up in the first array it
 was given

---
 multisim/precomp_funs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/multisim/precomp_funs.py b/multisim/precomp_funs.py
index 802d1c6..73853bd 100644
--- a/multisim/precomp_funs.py
+++ b/multisim/precomp_funs.py
@@ -5356,7 +5356,7 @@ def parallel_circuit_UA(*args):
 
     """
 
-    UA_parallel = args[0]  # get first value
+    UA_parallel = 1.0 * args[0]  # get (a copy of) the first value
     arg_iter = iter(args)  # make iterator out of args
     next(arg_iter)  # skip first entry since it is already taken
     for arg in arg_iter:  # iterate over the rest of args
-- 
2.43.0


From 895262ef7e70103878aa2e37dff677bd757168ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:15:59 +0000
Subject: [PATCH 23/46] fix: r_squared of several columns used the variation of
 all columns together

---
 multisim/_utility/stat_error_measures.py | 2 +-
 multisim/utility_functions.py            | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/multisim/_utility/stat_error_measures.py b/multisim/_utility/stat_error_measures.py
index 19d4a3e..4ab81ac 100644
--- a/multisim/_utility/stat_error_measures.py
+++ b/multisim/_utility/stat_error_measures.py
@@ -40,7 +40,7 @@ def r_squared(y, y_hat):
     elif y_hat.ndim > 2:
         raise ValueError
     ss_res = ((y - y_hat) ** 2).sum(axis=0)  # residuals
-    ss_tot = ((y - y.mean(axis=0)) ** 2).sum()  # total sum of squares
+    ss_tot = ((y - y.mean(axis=0)) ** 2).sum(axis=0)  # total sum of squares
     return 1 - ss_res / ss_tot
 
 
diff --git a/multisim/utility_functions.py b/multisim/utility_functions.py
index 047ab30..d341fab 100644
--- a/multisim/utility_functions.py
+++ b/multisim/utility_functions.py
@@ -705,7 +705,7 @@ def r_squared(y, y_hat):
     elif y_hat.ndim > 2:
         raise ValueError
     ss_res = ((y - y_hat) ** 2).sum(axis=0)  # residuals
-    ss_tot = ((y - y.mean(axis=0)) ** 2).sum()  # total sum of squares
+    ss_tot = ((y - y.mean(axis=0)) ** 2).sum(axis=0)  # total sum of squares
     return 1 - ss_res / ss_tot
 
 
-- 
2.43.0


From d87f9af1a75e9cbdc46a6ae8f3c9a33e582dfbc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:15:59 +0000
Subject: [PATCH 24/46] fix: r_squared_adj stopped in the debugger

---
 multisim/_utility/stat_error_measures.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/multisim/_utility/stat_error_measures.py b/multisim/_utility/stat_error_measures.py
index 4ab81ac..78a06d8 100644
--- a/multisim/_utility/stat_error_measures.py
+++ b/multisim/_utility/stat_error_measures.py
@@ -87,9 +87,6 @@ def r_squared_adj(p, r_sqrd=None, n=None, y=None, y_hat=None):
             'If `r_sqrd` is not given, `y` and `y_hat` must be given and'
             '`n` must not be given.'
         )
-        breakpoint()
-        print('false! n must be of the training data set!!!')
-        print('also avoid printing R for p>n! raise error!')
         r_sqrd = r_squared(y, y_hat)  # get R^2
         n = y_hat.shape[0]  # get number of samples
     # set r2 range correctly (-inf -> 1. or -inf ->100.)
-- 
2.43.0


From fcccad1778466870bf3c0cf9814e88ddbff25a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:15:59 +0000
Subject: [PATCH 25/46] fix: ts_performance_indicators dropped samples with one
 zero and scaled R2 by n/(n-1)

---
 multisim/utility_functions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/multisim/utility_functions.py b/multisim/utility_functions.py
index d341fab..a66fb3d 100644
--- a/multisim/utility_functions.py
+++ b/multisim/utility_functions.py
@@ -2956,7 +2956,7 @@ def ts_performance_indicators(
     assert isinstance(exclude_zeros, bool), err_excl
     if exclude_zeros:  # exclude zeros which are in BOTH ts from perf. analysis
         # exclude zeros where both are zero
-        pred_rlz = pred_rlz.loc[(pred_rlz != 0).all(axis=1)]
+        pred_rlz = pred_rlz.loc[(pred_rlz != 0).any(axis=1)]
     if exclude_values is not None:  # exclude values which are in
         assert isinstance(exclude_values, list) and isinstance(
             exclude_values[0], (int, float)
@@ -2982,7 +2982,7 @@ def ts_performance_indicators(
     ss_res = (residuals ** 2).sum()  # sum of squares of residuals
     # total sum of squares (definition: sum((y_i - mean(y))**2))
     ss_total = (
-        rlz_desc['std'] ** 2 * rlz_desc['count']
+        rlz_desc['std'] ** 2 * (rlz_desc['count'] - 1)
     )  # faster than definition
     mean_bias_err = residuals.sum() / n  # mean absolute biased error (MBE)
     mean_abs_err = residuals.abs().sum() / n  # mean absolute error (MAE)
-- 
2.43.0


From 38f954109f8094d7f67d1d77746128c17b1004d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:16:28 +0000
Subject: [PATCH 26/46] fix: r_squared_adj failed for several columns

---
 multisim/_utility/stat_error_measures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/multisim/_utility/stat_error_measures.py b/multisim/_utility/stat_error_measures.py
index 78a06d8..4b0d665 100644
--- a/multisim/_utility/stat_error_measures.py
+++ b/multisim/_utility/stat_error_measures.py
@@ -90,7 +90,7 @@ def r_squared_adj(p, r_sqrd=None, n=None, y=None, y_hat=None):
         r_sqrd = r_squared(y, y_hat)  # get R^2
         n = y_hat.shape[0]  # get number of samples
     # set r2 range correctly (-inf -> 1. or -inf ->100.)
-    max_r2 = 1.0 if r_sqrd <= 1.0 else 100.0
+    max_r2 = 1.0 if np.max(r_sqrd) <= 1.0 else 100.0
     # get adjusted r_sqrd
     r_sqrd_adj = max_r2 - (max_r2 - r_sqrd) * (n - 1) / (n - p - 1)
     return r_sqrd_adj
-- 
2.43.0


From 00b6edc10a65eab29714b2b5a8c99c548629b165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:17:27 +0000
Subject: [PATCH 27/46] fix: pipe specification table was only found on Windows

---
 multisim/utility_functions.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/multisim/utility_functions.py b/multisim/utility_functions.py
index a66fb3d..0a4fe5c 100644
--- a/multisim/utility_functions.py
+++ b/multisim/utility_functions.py
@@ -454,7 +454,7 @@ def interp_pipe_specs(A_i, pipe_type='EN10255_medium', base_pth=None):
     else:
         ps = pd.read_pickle(
             os.path.join(
-                os.path.dirname(__file__), 'data_tables\\pipe_specs.pkl'
+                os.path.dirname(__file__), 'data_tables', 'pipe_specs.pkl'
             )
         )
     ps_tp = ps.loc[:, pipe_type].copy().T
@@ -519,7 +519,9 @@ def adjust_pipes(pspecs, base_path=None):
         assert isinstance(v[1], (float, int)), err_str
     # read pipe specs reference table
     ps_table = pd.read_pickle(
-        os.path.join(os.path.dirname(__file__), 'data_tables\\pipe_specs.pkl')
+        os.path.join(
+            os.path.dirname(__file__), 'data_tables', 'pipe_specs.pkl'
+        )
     )
     # extract A_i from table and multiplicate values by mult factor
     ai_vals = {
-- 
2.43.0


From aa29688e5045ed5f397139669af334a6a4d9716c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:17:27 +0000
Subject: [PATCH 28/46] fix: interp_pipe_specs replaced the pipes of the table
 by interpolated ones

---
 multisim/utility_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/multisim/utility_functions.py b/multisim/utility_functions.py
index 0a4fe5c..4d1d1d2 100644
--- a/multisim/utility_functions.py
+++ b/multisim/utility_functions.py
@@ -478,7 +478,7 @@ def interp_pipe_specs(A_i, pipe_type='EN10255_medium', base_pth=None):
     elif not isinstance(A_i, (list, tuple)):
         raise TypeError
     for ai in A_i:
-        if ai in (new_val_lo, new_val_hi):
+        if ai in ps_tp.index:  # size exists, no interpolation needed
             continue
         ps_tp.loc[ai] = np.nan
     # cubic interp for cubic relation of diameter to area
-- 
2.43.0


From 19a9aec20a5ee02f9fe35ad9b406d2b87675b206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:17:27 +0000
Subject: [PATCH 29/46] fix: adjust_pipes took the dimensions of all pipe types
 from EN10255_medium

---
 multisim/utility_functions.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/multisim/utility_functions.py b/multisim/utility_functions.py
index 4d1d1d2..c2ab4c8 100644
--- a/multisim/utility_functions.py
+++ b/multisim/utility_functions.py
@@ -528,12 +528,17 @@ def adjust_pipes(pspecs, base_path=None):
         k: ps_table.loc['A_i', tuple(v[0]['all'].values())] * v[1]
         for k, v in pspecs.items()
     }
-    pipe_specs = interp_pipe_specs(
-        A_i=list(ai_vals.values()), base_pth=base_path
-    )
     _pspecs = {
-        k: {'all': vals[1].to_dict()}
-        for k, vals in zip(ai_vals.keys(), pipe_specs.iterrows())
+        k: {
+            'all': interp_pipe_specs(
+                A_i=float(ai),
+                pipe_type=pspecs[k][0]['all']['pipe_type'],
+                base_pth=base_path,
+            )
+            .iloc[0]
+            .to_dict()
+        }
+        for k, ai in ai_vals.items()
     }
     for k, v in _pspecs.items():
         v['all']['pipe_type'] = pspecs[k][0]['all']['pipe_type']
-- 
2.43.0


From 53bf2f05f5b9de7845b7dc04d95388e51e9b9309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:18:13 +0000
Subject: [PATCH 30/46] fix: make_boundarycond_timeseries failed with pandas >=
 0.25 and for matching durations

---
 multisim/utility_functions.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/multisim/utility_functions.py b/multisim/utility_functions.py
index c2ab4c8..a596935 100644
--- a/multisim/utility_functions.py
+++ b/multisim/utility_functions.py
@@ -346,8 +346,8 @@ def make_boundarycond_timeseries(
 
     # construct frequency strings (since only integer values are allowed for
     # frequencies, using nanoseconds avoids losing precision):
-    bc_freq_string = str(int(1 / bc_freq * 1e9)) + 'ns'
-    ts_freq_string = str(int(1 / ts_freq * 1e9)) + 'ns'
+    bc_freq_string = str(round(1 / bc_freq * 1e9)) + 'ns'
+    ts_freq_string = str(round(1 / ts_freq * 1e9)) + 'ns'
     # construct time vector for bc_array with ts starting value:
     bc_timevec = pd.date_range(
         start=ts_start, periods=bc_array.shape[0], freq=bc_freq_string
@@ -369,10 +369,10 @@ def make_boundarycond_timeseries(
             # resample with ts_freq:
             # if downsampling has to be done:
             if ts_freq <= bc_freq:
-                bc_ts = bc.resample(ts_freq_string, how=downsample_method)
+                bc_ts = bc.resample(ts_freq_string).agg(downsample_method)
             # if upsampling has to be done:
             else:
-                bc_ts = bc.resample(ts_freq_string, how=upsample_method)
+                bc_ts = bc.resample(ts_freq_string).agg(upsample_method)
         elif bc_duration < ts_timedelta:
             # if shorter than ts_duration, either throw error or stack:
             if bc_too_short == 'error':
@@ -404,10 +404,14 @@ def make_boundarycond_timeseries(
                 # resample with ts_freq:
                 # if downsampling has to be done:
                 if ts_freq <= bc_freq:
-                    bc_ts = bc.resample(ts_freq_string, how=downsample_method)
+                    bc_ts = bc.resample(ts_freq_string).agg(downsample_method)
                 # if upsampling has to be done:
                 else:
-                    bc_ts = bc.resample(ts_freq_string, how=upsample_method)
+                    bc_ts = bc.resample(ts_freq_string).agg(upsample_method)
+    else:  # same duration, only resample with ts_freq:
+        bc_ts = bc.resample(ts_freq_string).agg(
+            downsample_method if ts_freq <= bc_freq else upsample_method
+        )
 
     return bc_ts
 
-- 
2.43.0


From 673c337363af6f1aa152116a98b71ee235e1dc21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:18:13 +0000
Subject: [PATCH 31/46] fix: volume flow sensors were checked for the names of
 massflow sensors

---
 multisim/_utility/meters.py   | 4 ++--
 multisim/utility_functions.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/multisim/_utility/meters.py b/multisim/_utility/meters.py
index 8f1e691..3fddaf3 100644
--- a/multisim/_utility/meters.py
+++ b/multisim/_utility/meters.py
@@ -305,9 +305,9 @@ class Meters:
 
         err_str = (
             '`name=' + str(name) + '` has already been assigned to another '
-            'massflow sensor.'
+            'volumeflow sensor.'
         )
-        assert name not in self.meters['massflow'], err_str
+        assert name not in self.meters['volumeflow'], err_str
 
         df = pd.DataFrame(index=self._time_index)  # make dataframe
         # get volumeflow
diff --git a/multisim/utility_functions.py b/multisim/utility_functions.py
index a596935..cf644ef 100644
--- a/multisim/utility_functions.py
+++ b/multisim/utility_functions.py
@@ -2751,9 +2751,9 @@ class Meters:
 
         err_str = (
             '`name=' + str(name) + '` has already been assigned to another '
-            'massflow sensor.'
+            'volumeflow sensor.'
         )
-        assert name not in self.meters['massflow'], err_str
+        assert name not in self.meters['volumeflow'], err_str
 
         df = pd.DataFrame(index=self._time_index)  # make dataframe
         # get volumeflow
-- 
2.43.0


From 803083569795a1cfcf5751264956a3c8ebf08a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:19:17 +0000
Subject: [PATCH 32/46] fix: massflow meters at the demand side of heat
 exchangers measured the supply side

---
 multisim/simenv.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/multisim/simenv.py b/multisim/simenv.py
index 3a92f2d..f9c7ced 100644
--- a/multisim/simenv.py
+++ b/multisim/simenv.py
@@ -3387,7 +3387,14 @@ class SimEnv:
         )
         # get index to massflow array
         if self.parts[part].dm_invariant:  # if same massflow in flow channel
-            return 0
+            if self.parts[part]._dm_io.size == 1:  # only one flow channel
+                return 0
+            # parts with two flow channels (heat exchangers)
+            T = self.parts[part].T
+            if T.ndim == 1:  # first half of the cells is the first channel
+                return index // (T.size // 2)
+            # first column is the first channel
+            return 0 if index % T.shape[1] == 0 else 1
         else:
             return index
 
-- 
2.43.0


From 706b89b2c3bf56096316a08bc72e11ce3bc9b551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:22:06 +0000
Subject: [PATCH 33/46] fix: meters could not be used without saving results to
 disk

---
 multisim/_utility/meters.py   | 2 +-
 multisim/utility_functions.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/multisim/_utility/meters.py b/multisim/_utility/meters.py
index 3fddaf3..962986d 100644
--- a/multisim/_utility/meters.py
+++ b/multisim/_utility/meters.py
@@ -20,7 +20,7 @@ class Meters:
         self.start_time = pd.to_datetime(start_time)
 
         # get resampling specs:
-        if self._simenv._disk_store['resample']:
+        if self._simenv._disk_store.get('resample'):
             self._resample = True
             self._resample_freq = self._simenv._disk_store['resample_freq']
         else:
diff --git a/multisim/utility_functions.py b/multisim/utility_functions.py
index cf644ef..2e4c9ed 100644
--- a/multisim/utility_functions.py
+++ b/multisim/utility_functions.py
@@ -2466,7 +2466,7 @@ class Meters:
         self.start_time = pd.to_datetime(start_time)
 
         # get resampling specs:
-        if self._simenv._disk_store['resample']:
+        if self._simenv._disk_store.get('resample'):
             self._resample = True
             self._resample_freq = self._simenv._disk_store['resample_freq']
         else:
-- 
2.43.0


From c6d6c0eb1f2498480966b1dbe0052baee3b94a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:13 +0000
Subject: [PATCH 34/46] fix: fit_time_series paired values by their index
 instead of their order

---
 multisim/utility_functions.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/multisim/utility_functions.py b/multisim/utility_functions.py
index 2e4c9ed..fddb1e7 100644
--- a/multisim/utility_functions.py
+++ b/multisim/utility_functions.py
@@ -2925,6 +2925,8 @@ def fit_time_series(
         assert pred.shape == rlz.shape, err_shape  # assert that shapes match
     else:  # if other indices
         assert pred.shape == rlz.shape, err_shape  # assert that shapes match
+        # ignore the index of rlz, compare by the order of the elements
+        rlz = pd.Series(data=rlz.values, index=pred.index, name=rlz.name)
 
     # return results:
     if not return_df:
-- 
2.43.0


From 677c5705a4ecc5986306a8ca343f2ba82659dd0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:05 +0000
Subject: [PATCH 35/46] fix: CHP plants ignored the upper bound of their
 modulation range

---
 multisim/parts/chp_plant.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/multisim/parts/chp_plant.py b/multisim/parts/chp_plant.py
index 6327128..ed0901f 100644
--- a/multisim/parts/chp_plant.py
+++ b/multisim/parts/chp_plant.py
@@ -692,6 +692,9 @@ class CHPPlant(Pipe):
             else:
                 self._bin_pow_fac = 1.0
                 self._chp_on = True  # chp is on
+                # limit to the upper bound of the modulation range
+                if self._power_modulation[0] > self._mod_upper:
+                    self._power_modulation[0] = self._mod_upper
 
             # detect changes in the state to save start/stop times
             if (state_last_step != 0.0) != self._chp_on:
-- 
2.43.0


From 47e3942d67dd4575ce22243aea4bb922671e5e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:05 +0000
Subject: [PATCH 36/46] fix: CHP plants kept the remaining heat of an
 interrupted startup for later cold starts

---
 multisim/parts/chp_plant.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/multisim/parts/chp_plant.py b/multisim/parts/chp_plant.py
index ed0901f..4711cc6 100644
--- a/multisim/parts/chp_plant.py
+++ b/multisim/parts/chp_plant.py
@@ -856,6 +856,7 @@ class CHPPlant(Pipe):
                         # shutdown finished. reset values
                         self._shutdown_in_progress = False
                         self._shutdown_factor_th = 0.0
+                        self._remaining_heat = 0.0
 
         if not self._shutdown_in_progress:
             self._dQ_heating[:] = (
-- 
2.43.0


From ca9565e6f491e3e7c1cbefe9cd93f2cc968ef5bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:58 +0000
Subject: [PATCH 37/46] fix: actuator limits given in reverse order were
 accepted

---
 multisim/simenv.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/multisim/simenv.py b/multisim/simenv.py
index f9c7ced..8631092 100644
--- a/multisim/simenv.py
+++ b/multisim/simenv.py
@@ -1157,6 +1157,7 @@ class SimEnv:
             assert 'lower_limit' in kwargs and 'upper_limit' in kwargs, err_str
             assert isinstance(kwargs['lower_limit'], (int, float)), err_str
             assert isinstance(kwargs['upper_limit'], (int, float)), err_str
+            assert kwargs['lower_limit'] < kwargs['upper_limit'], err_str
             self._lims = np.array(  # set limits to array
                 [kwargs['lower_limit'], kwargs['upper_limit']],
                 dtype=np.float64,
-- 
2.43.0


From 4ec3a5a8b715fc9aac6e37ff532589efb1544455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:58 +0000
Subject: [PATCH 38/46] fix: storages with a volume of zero or less were
 accepted

---
 multisim/parts/tes.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/multisim/parts/tes.py b/multisim/parts/tes.py
index f1709c4..94c7b06 100644
--- a/multisim/parts/tes.py
+++ b/multisim/parts/tes.py
@@ -124,6 +124,9 @@ class Tes(SimEnv):
             'Please check the spelling!'
         )
         # assert that all required arguments have been passed:
+        assert kwargs['volume'] > 0.0, (
+            self._base_err + self._arg_err.format('volume') + self._aae['volume']
+        )
         self.V_tes = float(kwargs['volume'])
         assert isinstance(kwargs['grid_points'], int), (
             self._base_err
-- 
2.43.0


From 1467531095d646e794f07763ad6803967b0d9e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:15:54 +0000
Subject: [PATCH 39/46] fix: load_sim_results only understood Windows paths

---
 multisim/utility_functions.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/multisim/utility_functions.py b/multisim/utility_functions.py
index fddb1e7..5f0101d 100644
--- a/multisim/utility_functions.py
+++ b/multisim/utility_functions.py
@@ -46,9 +46,6 @@ except ModuleNotFoundError:
 def load_sim_results(
     filename, path=r'.\results\\', keys='all', multiindex=True
 ):
-    # check for correct path layout:
-    if (path is not None) and (len(path) > 0) and (path[-1] != '\\'):
-        path = path + '\\'
     # check for correct key structuring:
     if keys != 'all':
         keys = list(keys) if isinstance(keys, tuple) else keys
@@ -60,7 +57,7 @@ def load_sim_results(
         _keys = keys
 
     # open store in read only mode:
-    with pd.HDFStore(path + filename, mode='r') as store:
+    with pd.HDFStore(os.path.join(path or '', filename), mode='r') as store:
         # iterate over all groups and save them to a dict of dfs
         dfs = {}
         for p, g, lvs in store.walk():  # iterate over paths
-- 
2.43.0


From b3e37fd9ee46f450fd73633aa5cf52b3a960bb24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:13 +0000
Subject: [PATCH 40/46] fix: connecting a part named p_gasb1_ff stopped in the
 debugger

---
 multisim/simenv.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/multisim/simenv.py b/multisim/simenv.py
index 8631092..95994d2 100644
--- a/multisim/simenv.py
+++ b/multisim/simenv.py
@@ -1993,8 +1993,6 @@ class SimEnv:
             self.parts[first_part]._ports_unconnected = self.parts[
                 first_part
             ].port_names
-        if scnd_part == 'p_gasb1_ff':
-            breakpoint()
         if (scnd_part != 'BoundaryCondition') and hasattr(
             self.parts[scnd_part], '_ports_connected'
         ):
-- 
2.43.0


From 53a15e15e9ec5840790705094d75b64f20bab6b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:55 +0000
Subject: [PATCH 41/46] fix: runs with invalid values were not stopped and
 reported as a success

---
 multisim/simenv.py | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/multisim/simenv.py b/multisim/simenv.py
index 95994d2..e8c22ef 100644
--- a/multisim/simenv.py
+++ b/multisim/simenv.py
@@ -5076,6 +5076,8 @@ class SimEnv:
 
         # set initial stepnum
         self.stepnum[0] = 1
+        # last step and time at which all values were valid
+        last_checked = (0, 0.0)
 
         while self.time_sim < self.timeframe:
             # update all massflows:
@@ -5117,12 +5119,13 @@ class SimEnv:
                 )
                 sys.stdout.flush()
 
-            # check for nan values every 5k steps:
-            if self._total_stepnum % 5000 == 0:
+            # check for nan values every 5k steps and at the end:
+            total_steps = self._total_stepnum + self.stepnum[0]
+            if total_steps % 5000 == 0 or self.time_sim >= self.timeframe:
                 for name, prt in self.parts.items():
                     # loop over all parts and assert that none of the arrays
                     # contains any nan
-                    isanynan = np.any(np.isnan(prt.T)) and np.any(
+                    isanynan = np.any(np.isnan(prt.T)) or np.any(
                         np.isnan(prt.dm)
                     )
                     if isanynan:
@@ -5131,17 +5134,20 @@ class SimEnv:
                             'WARNING: Invalid value found between step {0} '
                             'at time {1}s and step {2} at time {3}s!\n'
                             'Stopping simulation.\n\n'.format(
-                                self._total_stepnum - 5000,
-                                self.time_vec[self._total_stepnum - 5000],
-                                self._total_stepnum,
+                                last_checked[0],
+                                last_checked[1],
+                                total_steps - 1,
                                 self.time_sim,
                             )
                         )
                         # stop simulation by setting timeframe to almost zero
                         self.timeframe = 1e-9
-                        # set solver state to failed:
-                        self._solver_state[self._total_stepnum] = 98
+                        # set solver state to failed (stepnum has already
+                        # been increased):
+                        self._solver_state[self.stepnum[0] - 1] = 98
                         break  # break loop for nan checking
+                # remember where all values were still valid:
+                last_checked = (total_steps - 1, self.time_sim)
 
         # measure time taken purely for simulation
         self._sim_end_time = _time_.time()
@@ -5583,7 +5589,7 @@ class SimEnv:
 
         info = {
             'MultiSim version': __version__,
-            'Simulation success': True if states[99] == 0 else False,
+            'Simulation success': not failure,
         }
         info.update(fail_info)
         info.update(
-- 
2.43.0


From 65bb6ee985e205d49aa6c12e5e274c4b8732fa1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:55 +0000
Subject: [PATCH 42/46] fix: adjust_pipes depended on the order of the keys of
 the pipe specs

---
 multisim/utility_functions.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/multisim/utility_functions.py b/multisim/utility_functions.py
index 5f0101d..182427e 100644
--- a/multisim/utility_functions.py
+++ b/multisim/utility_functions.py
@@ -526,7 +526,10 @@ def adjust_pipes(pspecs, base_path=None):
     )
     # extract A_i from table and multiplicate values by mult factor
     ai_vals = {
-        k: ps_table.loc['A_i', tuple(v[0]['all'].values())] * v[1]
+        k: ps_table.loc[
+            'A_i', (v[0]['all']['pipe_type'], v[0]['all']['DN'])
+        ]
+        * v[1]
         for k, v in pspecs.items()
     }
     _pspecs = {
-- 
2.43.0


From cbe7125fdf407c4de57b372d924ae1e47a1224db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:33 +0000
Subject: [PATCH 43/46] fix: database_import only found the databases on
 Windows and never single ones

---
 multisim/utility_functions.py | 35 +++++++++++------------------------
 1 file changed, 11 insertions(+), 24 deletions(-)

diff --git a/multisim/utility_functions.py b/multisim/utility_functions.py
index 182427e..714cda4 100644
--- a/multisim/utility_functions.py
+++ b/multisim/utility_functions.py
@@ -564,35 +564,22 @@ def database_import(*, standard_db=True, path=None, which='all'):
             pth = os.path.dirname(os.path.realpath(__file__))
         except NameError:  # if frozen as executable
             pth = os.path.dirname(os.path.realpath(sys.argv[0]))
-        pth = pth + r'\data_tables'  # append datatables path
-        # find path to all pickled databases
-        files = _glob.glob(os.path.join(pth, '*.pkl'))
-        if which == 'all':  # import all databases
-            for file in files:
-                #  get name by splitting strings:
-                db_name = file.split('\\')[-1].split('.')[0]
-                dbs[db_name] = pd.read_pickle(file)
-        else:  # else if not all shall be imported:
-            for db in which:
-                pth = pth + db + '.pkl'
-                db_name = pth.split('\\')[-1].split('.')[0]
-                dbs[db_name] = pd.read_pickle(file)
+        pth = os.path.join(pth, 'data_tables')  # append datatables path
     else:  # else if not standard databases
         if not path:  # if path not given, get it from dialog
             from tkinter.filedialog import askdirectory
 
             pth = askdirectory(initialdir="D:/LRZ-SnS/Objekte")
-        if which == 'all':  # if all databases should be loaded from path
-            files = _glob.glob(os.path.join(pth, '*.pkl'))  # get all pickles
-            for file in files:
-                #  get name by splitting strings:
-                db_name = file.split('\\')[-1].split('.')[0]
-                dbs[db_name] = pd.read_pickle(file)
-        else:  # else if not all shall be imported:
-            for db in which:
-                pth = pth + db + '.pkl'
-                db_name = pth.split('\\')[-1].split('.')[0]
-                dbs[db_name] = pd.read_pickle(file)
+        else:
+            pth = path
+    if which == 'all':  # if all databases should be loaded from path
+        files = _glob.glob(os.path.join(pth, '*.pkl'))  # get all pickles
+    else:  # else if not all shall be imported:
+        files = [os.path.join(pth, db + '.pkl') for db in which]
+    for file in files:
+        # get name from the file name:
+        db_name = os.path.splitext(os.path.basename(file))[0]
+        dbs[db_name] = pd.read_pickle(file)
 
     return dbs  # return database dict
 
-- 
2.43.0


From d5898e3180397d622bf985df407f8952e406a6d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:18 +0000
Subject: [PATCH 44/46] fix: chp_with_fghex removed the pipe specs from the
 given CHP arguments

---
 multisim/parts/part_modules/suppliers.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/multisim/parts/part_modules/suppliers.py b/multisim/parts/part_modules/suppliers.py
index e33489e..70a8836 100644
--- a/multisim/parts/part_modules/suppliers.py
+++ b/multisim/parts/part_modules/suppliers.py
@@ -118,6 +118,7 @@ def chp_with_fghex(
         'hex_fg': (ps_dn40, chp_power_factor),
     }
 
+    chp_kwds = dict(chp_kwds)  # do not alter the given dict
     if 'pipe_specs' in chp_kwds:
         pspecs['chp'] = (chp_kwds['pipe_specs'], chp_power_factor)
         del chp_kwds['pipe_specs']
-- 
2.43.0


From a709eb10644c156606353df6af4f9dc2b4c5f03a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:18 +0000
Subject: [PATCH 45/46] fix: the default ports of the storage charging system
 were refused

---
 multisim/parts/part_modules/consumers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/multisim/parts/part_modules/consumers.py b/multisim/parts/part_modules/consumers.py
index 8075ef2..be18308 100644
--- a/multisim/parts/part_modules/consumers.py
+++ b/multisim/parts/part_modules/consumers.py
@@ -615,7 +615,7 @@ def speicherladesys(
     store_ports={
         'ff_tes': [0.0, 'volume'],
         'rc': [round(0.4 * 40), 'index'],
-        'cw': [-2, 'index'],
+        'cw': [40 - 2, 'index'],
     },
     segment_name='1',
     adjust_pipes=True,
-- 
2.43.0


From ad0a88604df9f1efb54d07f7eb343a3d961a79bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:50 +0000
Subject: [PATCH 46/46] fix: compiled simulations with pumps failed where the
 default integer has 64 bits

---
 multisim/simenv.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/multisim/simenv.py b/multisim/simenv.py
index e8c22ef..ef61377 100644
--- a/multisim/simenv.py
+++ b/multisim/simenv.py
@@ -853,7 +853,7 @@ class SimEnv:
                 ]
             )
             # enlarge plinks_arr:
-            self.plinks_arr = np.append(self.plinks_arr, 0)
+            self.plinks_arr = np.append(self.plinks_arr, np.int32(0))
         """ports_all version, remaining for backwards compatibility"""
         # delete first row which is only filled with random numbers
         if self.num_parts == 1:
@@ -1303,7 +1303,7 @@ class SimEnv:
         self.ports_all = np.append(self.ports_all, 0.0)
         self.num_ports += 1
         # also enlarge plinks_arr:
-        self.plinks_arr = np.append(self.plinks_arr, 0)
+        self.plinks_arr = np.append(self.plinks_arr, np.int32(0))
         # add to boundary conditions dictionary:
         self.boundary_conditions[name] = {
             'type': 'open_port',
-- 
2.43.0

