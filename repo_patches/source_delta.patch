From 9f1e62acfcd86c067444ea1f6f783f112c7e107e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:25 +0000
Subject: [PATCH 01/97] fix: convert seconds to the nearest nanosecond instead
 of truncating

---
 specula/base_time_obj.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specula/base_time_obj.py b/specula/base_time_obj.py
index f96c255..77e3373 100644
--- a/specula/base_time_obj.py
+++ b/specula/base_time_obj.py
@@ -73,7 +73,7 @@ class BaseTimeObj:
         return float(t) / float(self._time_resolution)
 
     def seconds_to_t(self, seconds):
-        return int(round(seconds, ndigits=9) * self._time_resolution)
+        return int(round(float(seconds) * self._time_resolution))
 
     def startMemUsageCount(self):
         if hasattr(self, 'target_device_idx') and self.target_device_idx >= 0:
-- 
2.43.0


From a0ae3e3f6b86a0072460abe37d9b868b854f056f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:25 +0000
Subject: [PATCH 02/97] fix: count the iterations of a run from its own start
 time, rounding up

---
 specula/loop_control.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/specula/loop_control.py b/specula/loop_control.py
index 4aa0ba1..7ffbc1a 100644
--- a/specula/loop_control.py
+++ b/specula/loop_control.py
@@ -39,7 +39,7 @@ class LoopControl(BaseTimeObj):
         Returns:
             int: The number of iterations.
         """
-        return int((self.run_time + self.t0) / self.dt) if self.dt != 0 else 0
+        return -(-self.run_time // self.dt) if self.dt != 0 else 0
 
     def run(self, run_time, dt, t0=0, speed_report=False):
         """
@@ -114,6 +114,7 @@ class LoopControl(BaseTimeObj):
             process_comm.barrier()
         
         self.t = self.t0
+        self.iter_counter = 0
         self.last_reported_time = time.time()
         self.last_reported_counter = 0
         self.report_interval = 10
-- 
2.43.0


From 0aa98c7e08c4cddaaec40b1e7d699ab824ea7202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:14 +0000
Subject: [PATCH 03/97] fix: keep lists, delays and prefixes of inputs and the
 original configuration in replays

---
 specula/simul.py | 40 ++++++++++++++++++++++++++++------------
 1 file changed, 28 insertions(+), 12 deletions(-)

diff --git a/specula/simul.py b/specula/simul.py
index cdc8039..271ec68 100644
--- a/specula/simul.py
+++ b/specula/simul.py
@@ -742,6 +742,28 @@ class Simul():
 
         return data_source_pars, objnames, data_source_outputs
 
+    def replay_input(self, output_name, data_source_outputs):
+        '''
+        Return the output name (or list of output names) to use in a replay
+        for an input connected to *output_name*: outputs found in *data_source_outputs*
+        are read from the data source, all others are unchanged.
+        Delays and input name prefixes are preserved.
+        '''
+        if isinstance(output_name, list):
+            return [self.replay_input(x, data_source_outputs) for x in output_name]
+
+        output = self.split_output(output_name)
+        key = f'{output.obj_name}.{output.output_key}'
+        if key not in data_source_outputs:
+            return output_name
+
+        replay_name = 'data_source.' + data_source_outputs[key]
+        if output.input_name is not None:
+            replay_name = f'{output.input_name}-{replay_name}'
+        if output.delay != 0:
+            replay_name = f'{replay_name}:{output.delay}'
+        return replay_name
+
     def build_replay(self, params):
         replay_params = deepcopy(params)
         obj_to_remove = []
@@ -766,12 +788,7 @@ class Simul():
             if not key=='data_source':
                 if 'inputs' in pars.keys():
                     for input_name, output_name_full in pars['inputs'].items():
-                        if type(output_name_full) is list:
-                            print('TODO: list of inputs is not handled in output replay')
-                            continue
-                        print('output_name_full', output_name_full)
-                        if output_name_full in data_source_outputs.keys():
-                            replay_params[key]['inputs'][input_name] = 'data_source.' + data_source_outputs[output_name_full]
+                        pars['inputs'][input_name] = self.replay_input(output_name_full, data_source_outputs)
 
         return replay_params
 
@@ -795,7 +812,7 @@ class Simul():
         else:
             raise ValueError('Parameter file does not contain a SimulParams class')
 
-        replay_params[key] = main_pars.copy()
+        replay_params[key] = deepcopy(main_pars)
 
         # Copy DataStore params and convert it to DataSource
         for key, pars in params.items():
@@ -810,17 +827,16 @@ class Simul():
             if key in replay_params:
                 return
 
-            replay_params[key] = params[key].copy()
+            replay_params[key] = deepcopy(params[key])
 
             # Add all inputs
+            for k, _input in params[key].get('inputs', {}).items():
+                replay_params[key]['inputs'][k] = self.replay_input(_input, datastore_outputs)
             for k, _input in self.iterate_inputs(params[key]):
                 desc = self.split_output(_input)
                 # Use the complete key for lookup
                 complete_key = f"{desc.obj_name}.{desc.output_key}"
-                if complete_key in datastore_outputs:
-                    replay_params[key]['inputs'][k] = 'data_source.' + datastore_outputs[complete_key]
-                    continue
-                else:
+                if complete_key not in datastore_outputs:
                     add_key(desc.obj_name)
             # Add all references to other objects
             for k, v in params[key].items():
-- 
2.43.0


From 6ccc1dfa03b5d3511b4658b3685a5caaae66d7d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:31 +0000
Subject: [PATCH 04/97] fix: keep in a replay the objects whose unrecorded
 outputs or references are still needed

---
 specula/simul.py | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/specula/simul.py b/specula/simul.py
index 271ec68..55917ba 100644
--- a/specula/simul.py
+++ b/specula/simul.py
@@ -781,7 +781,29 @@ class Simul():
                 data_source_objname = key
                 obj_to_remove.append(data_source_objname)
 
-        for obj_name in set(obj_to_remove):
+        obj_to_remove = set(obj_to_remove)
+
+        # Do not remove objects that the remaining ones still need,
+        # either by reference or for an output that has not been recorded.
+        def needed_objects():
+            for key, pars in replay_params.items():
+                if key == 'data_source' or key in obj_to_remove:
+                    continue
+                for _, fullname in self.iterate_inputs(pars):
+                    output = self.split_output(fullname)
+                    if f'{output.obj_name}.{output.output_key}' not in data_source_outputs:
+                        yield output.obj_name
+                for name, value in pars.items():
+                    if name.endswith('_ref'):
+                        yield from [value] if isinstance(value, str) else value
+
+        while True:
+            still_needed = obj_to_remove.intersection(needed_objects())
+            if not still_needed:
+                break
+            obj_to_remove -= still_needed
+
+        for obj_name in obj_to_remove:
             del replay_params[obj_name]
 
         for key, pars in replay_params.items():
-- 
2.43.0


From 2cac9e3c860170266fdb8e1a5bf9cdd7f1896db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:52 +0000
Subject: [PATCH 05/97] fix: refuse trigger without refreshed inputs in objects
 that overrode trigger()

---
 specula/processing_objects/data_print.py                | 2 +-
 specula/processing_objects/electric_field_combinator.py | 2 +-
 specula/processing_objects/electric_field_reflection.py | 2 +-
 specula/processing_objects/extended_source.py           | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/specula/processing_objects/data_print.py b/specula/processing_objects/data_print.py
index ccbafa9..aafe66b 100644
--- a/specula/processing_objects/data_print.py
+++ b/specula/processing_objects/data_print.py
@@ -45,7 +45,7 @@ class DataPrint(BaseProcessingObj):
     def output_names(cls):
         return {}
 
-    def trigger(self):
+    def trigger_code(self):
         # Check if it's time to print
         if (self.current_time - self.last_print_time) >= self.print_dt:
             value = self.local_inputs['in_value'].value
diff --git a/specula/processing_objects/electric_field_combinator.py b/specula/processing_objects/electric_field_combinator.py
index e1bcbad..bc1ed0f 100644
--- a/specula/processing_objects/electric_field_combinator.py
+++ b/specula/processing_objects/electric_field_combinator.py
@@ -81,7 +81,7 @@ class ElectricFieldCombinator(BaseProcessingObj):
         )
         self.has_list = has_list
 
-    def trigger(self):
+    def trigger_code(self):
         if self.has_list:
             in_ef_list = self.local_inputs.get('in_ef_list')
         else:
diff --git a/specula/processing_objects/electric_field_reflection.py b/specula/processing_objects/electric_field_reflection.py
index 285c34d..5ca92fa 100644
--- a/specula/processing_objects/electric_field_reflection.py
+++ b/specula/processing_objects/electric_field_reflection.py
@@ -34,7 +34,7 @@ class ElectricFieldReflection(BaseProcessingObj):
             pitch=in_ef.pixel_pitch,
         )
 
-    def trigger(self):
+    def trigger_code(self):
         in_ef = self.local_inputs['in_ef']
         # Copy amplitude
         self._out_ef.A[:] = in_ef.A
diff --git a/specula/processing_objects/extended_source.py b/specula/processing_objects/extended_source.py
index 2ed3591..e1872f5 100644
--- a/specula/processing_objects/extended_source.py
+++ b/specula/processing_objects/extended_source.py
@@ -706,7 +706,7 @@ class ExtendedSource(BaseProcessingObj):
     def output_names(cls):
         return {'coeff': OutputDesc(BaseValue, 'Extended source coefficients as a column-stacked array')}
 
-    def trigger(self):
+    def trigger_code(self):
         """Update PSF if new data is available and recompute if needed"""
         if self.source_type == 'FROM_PSF':
             psf = self.local_inputs.get('psf')
-- 
2.43.0


From 9377b2a671e35ab8eacf3561c32a184c07d5cc64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:52 +0000
Subject: [PATCH 06/97] fix: reject input_list entries that use the same input
 name twice

---
 specula/simul.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/specula/simul.py b/specula/simul.py
index 55917ba..0e1f0be 100644
--- a/specula/simul.py
+++ b/specula/simul.py
@@ -323,6 +323,8 @@ class Simul():
 
                 for single_output_name in pars['inputs']['input_list']:
                     output = self.split_output(single_output_name, get_ref=True)
+                    if output.input_name in params[key]['inputs']:
+                        raise ValueError(f'Object {key}: input name {output.input_name} is used more than once')
                     if key in self.objs:
                         if type(output.ref) is list:
                             self.objs[key].inputs[output.input_name] = InputList(type=type(output.ref[0]))
-- 
2.43.0


From c7a02941eb86d1d3d99502218feadb9ffd524737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:45 +0000
Subject: [PATCH 07/97] fix: trigger suppliers of delayed inputs in a later
 group than their consumers

---
 specula/simul.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/specula/simul.py b/specula/simul.py
index 0e1f0be..ec49e62 100644
--- a/specula/simul.py
+++ b/specula/simul.py
@@ -261,9 +261,10 @@ class Simul():
             if len(leaves) == 0:
                 break
             start = len(params)
+            # Objects read with a delay must stay in a later group than their consumers,
+            # otherwise the consumers could see values being generated in this iteration
+            leaves = [leaf for leaf in leaves if not self.has_delayed_output(leaf, params)]
             for leaf in leaves:
-                if self.has_delayed_output(leaf, params):
-                    continue
                 order.append(leaf)
                 order_index.append(index)
                 del params[leaf]
-- 
2.43.0


From 52483983b644d84028d219f176efd92a2a224094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:34 +0000
Subject: [PATCH 08/97] fix: slice outputs are copies, not views of the sliced
 input

---
 specula/processing_objects/base_slicer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/specula/processing_objects/base_slicer.py b/specula/processing_objects/base_slicer.py
index 2910cd6..5d86d81 100644
--- a/specula/processing_objects/base_slicer.py
+++ b/specula/processing_objects/base_slicer.py
@@ -57,7 +57,8 @@ class BaseSlicer(BaseProcessingObj):
             self.out_value.value = value[self.indices]
         elif self.slice_obj is not None:
             # Use slice object to extract the desired values
-            self.out_value.value = value[self.slice_obj]
+            # (copied: a view would change together with the input)
+            self.out_value.value = value[self.slice_obj].copy()
         else:
             # No slicing, copy the whole value
             self.out_value.value = value.copy()
-- 
2.43.0


From dd65c288c336a2035bd98c01a2680ef67b884206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:37 +0000
Subject: [PATCH 09/97] fix: give replayed values their shape before their
 first sample

---
 specula/processing_objects/data_source.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/specula/processing_objects/data_source.py b/specula/processing_objects/data_source.py
index fe46053..5233dc7 100644
--- a/specula/processing_objects/data_source.py
+++ b/specula/processing_objects/data_source.py
@@ -35,7 +35,9 @@ class DataSource(BaseProcessingObj):
             if self.obj_type[k] not in ['BaseValue', 'BaseDataObj']:
                 self.outputs[k] = import_class(self.obj_type[k]).from_header(self.headers[k])
             else:
-                self.outputs[k] = BaseValue(target_device_idx=self.target_device_idx)
+                # Start from zeros of the stored shape: other objects need it for their own setup
+                value = next((self.to_xp(x) * 0 for x in self.storage[k].values()), None)
+                self.outputs[k] = BaseValue(value=value, target_device_idx=self.target_device_idx)
 
     @classmethod
     def input_names(cls):
-- 
2.43.0


From f0a6a93693b02bd08cf123272ec1871bc399afee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:02 +0000
Subject: [PATCH 10/97] fix: keep recorded times exact in pickle files

---
 specula/processing_objects/data_store.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specula/processing_objects/data_store.py b/specula/processing_objects/data_store.py
index 9f7cdff..72fb976 100644
--- a/specula/processing_objects/data_store.py
+++ b/specula/processing_objects/data_store.py
@@ -123,7 +123,7 @@ class DataStore(BaseProcessingObj):
         self.replay_params = replay_params
 
     def save_pickle(self):
-        times = {k: np.array(list(v.keys()), dtype=self.dtype)
+        times = {k: np.array(list(v.keys()), dtype=np.uint64)
             for k, v in self.storage.items() if isinstance(v, OrderedDict) and k is not None}
         data = {k: np.array(list(v.values()), dtype=self.dtype)
             for k, v in self.storage.items() if isinstance(v, OrderedDict) and k is not None}
-- 
2.43.0


From 45426ed070071addd1c2b69c90cfb382b03d7677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:02 +0000
Subject: [PATCH 11/97] fix: do not count or store again the last sample at the
 end of a recording, and save its last partial chunk

---
 specula/processing_objects/data_store.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/specula/processing_objects/data_store.py b/specula/processing_objects/data_store.py
index 72fb976..13f82fe 100644
--- a/specula/processing_objects/data_store.py
+++ b/specula/processing_objects/data_store.py
@@ -82,6 +82,7 @@ class DataStore(BaseProcessingObj):
             for key, value in (downsample_factor_by_input or {}).items()
         }
         self.input_sample_counters = defaultdict(int)
+        self.last_sample_times = {}
         self.init_storage()
 
     @classmethod
@@ -100,6 +101,11 @@ class DataStore(BaseProcessingObj):
         return value
 
     def _should_store_input(self, input_name):
+        # finalize() looks again at the last sample of each input:
+        # it must not be counted, or stored in another chunk, a second time
+        if self.last_sample_times.get(input_name) == self.current_time:
+            return self.current_time in self.storage.get(input_name, {})
+        self.last_sample_times[input_name] = self.current_time
         every = self.downsample_factor_by_input.get(input_name, self.downsample_factor)
         sample_idx = self.input_sample_counters[input_name]
         self.input_sample_counters[input_name] += 1
@@ -259,6 +265,12 @@ class DataStore(BaseProcessingObj):
             else:
                 os.makedirs(self.tn_dir_orig,exist_ok=True)
             self.save()
+        elif self.storage:
+            # Last chunk, shorter than split_size
+            first_iter = self.iter_counter // self.split_size * self.split_size
+            self.create_TN_folder(suffix=f'_{first_iter + self.first_suffix}')
+            self.save()
+            self.init_storage()
 
     def check_input_names(self):
         # DataStore inputs are added dynamically via input_list;
-- 
2.43.0


From 8820e8716d3a2701676ab1a28f68a210cf9ea18d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:17:41 +0000
Subject: [PATCH 12/97] fix: accept one-element and per-mode arrays as dynamic
 integrator gains, and name the exception when an update fails

---
 specula/processing_objects/dynamic_dark_calibrator.py      | 4 ++--
 specula/processing_objects/dynamic_iir_filter.py           | 2 +-
 specula/processing_objects/dynamic_integrator.py           | 7 +++++--
 .../processing_objects/dynamic_pyr_pupdata_calibrator.py   | 6 +++---
 4 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/specula/processing_objects/dynamic_dark_calibrator.py b/specula/processing_objects/dynamic_dark_calibrator.py
index 2c72a1b..44bb5c4 100644
--- a/specula/processing_objects/dynamic_dark_calibrator.py
+++ b/specula/processing_objects/dynamic_dark_calibrator.py
@@ -193,7 +193,7 @@ class DynamicDarkCalibrator(BaseProcessingObj):
                     raise ValueError(f'Number of frames is {nframes} and must be greater than zero')
                 self.nframes = nframes
         except Exception as e:
-            print(f'Exception: {e.__name__}: {e}')
+            print(f'Exception: {type(e).__name__}: {e}')
 
         try:
             input_load = self.local_inputs['in_load']
@@ -205,7 +205,7 @@ class DynamicDarkCalibrator(BaseProcessingObj):
                 self.darkframe.restore(fullpath)
                 self.darkframe.generation_time = self.current_time
         except Exception as e:
-            print(f'Exception: {e.__name__}: {e}')
+            print(f'Exception: {type(e).__name__}: {e}')
 
     def post_trigger(self):
         super().post_trigger()
diff --git a/specula/processing_objects/dynamic_iir_filter.py b/specula/processing_objects/dynamic_iir_filter.py
index 9e91587..758a1cb 100644
--- a/specula/processing_objects/dynamic_iir_filter.py
+++ b/specula/processing_objects/dynamic_iir_filter.py
@@ -82,4 +82,4 @@ class DynamicIirFilter(IirFilter):
                 int_gain = cpuArray(gain_input.get_value())
                 self.iir_filter_data.set_gain(int_gain)
         except Exception as e:
-            print(f'Exception: {e.__name__}: {e}')
+            print(f'Exception: {type(e).__name__}: {e}')
diff --git a/specula/processing_objects/dynamic_integrator.py b/specula/processing_objects/dynamic_integrator.py
index d8c2b68..27c6814 100644
--- a/specula/processing_objects/dynamic_integrator.py
+++ b/specula/processing_objects/dynamic_integrator.py
@@ -4,6 +4,7 @@ from specula.base_processing_obj import InputDesc, OutputDesc
 from specula.data_objects.simul_params import SimulParams
 from specula.connections import InputValue
 from specula.base_value import BaseValue
+from specula import cpuArray
 
 
 class DynamicIntegrator(Integrator):
@@ -88,7 +89,9 @@ class DynamicIntegrator(Integrator):
         try:
             gain_input = self.local_inputs['int_gain']
             if gain_input is not None and gain_input.generation_time == self.current_time:
-                int_gain = float(gain_input.value)
+                int_gain = cpuArray(gain_input.get_value())
+                if int_gain.size == 1:
+                    int_gain = int_gain.item()
                 self.iir_filter_data.set_gain(int_gain)
         except Exception as e:
-            print(f'Exception: {e.__name__}: {e}')
+            print(f'Exception: {type(e).__name__}: {e}')
diff --git a/specula/processing_objects/dynamic_pyr_pupdata_calibrator.py b/specula/processing_objects/dynamic_pyr_pupdata_calibrator.py
index cb6df5a..2bb117e 100644
--- a/specula/processing_objects/dynamic_pyr_pupdata_calibrator.py
+++ b/specula/processing_objects/dynamic_pyr_pupdata_calibrator.py
@@ -129,21 +129,21 @@ class DynamicPyrPupdataCalibrator(PyrPupdataCalibrator):
             if input_dt is not None and input_dt.generation_time == self.current_time:
                 self.dt = self.seconds_to_t(float(input_dt.value))
         except Exception as e:
-            print(f'Exception: {e.__name__}: {e}')
+            print(f'Exception: {type(e).__name__}: {e}')
 
         try:
             input_thr1 = self.local_inputs['in_thr1']
             if input_thr1 is not None and input_thr1.generation_time == self.current_time:
                 self.thr1 = float(input_thr1.value)
         except Exception as e:
-            print(f'Exception: {e.__name__}: {e}')
+            print(f'Exception: {type(e).__name__}: {e}')
 
         try:
             input_thr2 = self.local_inputs['in_thr2']
             if input_thr2 is not None and input_thr2.generation_time == self.current_time:
                 self.thr2 = float(input_thr2.value)
         except Exception as e:
-            print(f'Exception: {e.__name__}: {e}')
+            print(f'Exception: {type(e).__name__}: {e}')
 
     def trigger_code(self):
 
-- 
2.43.0


From 7803f9bb1d1576d0089a6e095c5f53ffebe1c1c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:20:43 +0000
Subject: [PATCH 13/97] fix: let a filter built with zero gain be given a gain
 later

---
 specula/data_objects/iir_filter_data.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/specula/data_objects/iir_filter_data.py b/specula/data_objects/iir_filter_data.py
index 1b7b19f..dbc63db 100644
--- a/specula/data_objects/iir_filter_data.py
+++ b/specula/data_objects/iir_filter_data.py
@@ -115,6 +115,8 @@ class IirFilterData(BaseDataObj):
         nonzero_gain = np.abs(gain) > 0
         safe_gain = np.where(nonzero_gain, gain, 1.0)
         num_normalized = mynum / safe_gain[:, None]
+        # a filter built with zero gain can still be given a gain later
+        num_normalized[~np.any(mynum, axis=1), -1] = 1.0
         self.gain = self.to_xp(gain, dtype=self.dtype)
         self._num_normalized = self.to_xp(num_normalized, dtype=self.dtype)
         self.zeros = None
-- 
2.43.0


From d5a8b20ef5d281ddc2a880e79371194cb4b9bdc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:22:02 +0000
Subject: [PATCH 14/97] fix: build low-pass filters of second order when no
 order is given

---
 specula/processing_objects/low_pass_filter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/specula/processing_objects/low_pass_filter.py b/specula/processing_objects/low_pass_filter.py
index c733405..f6a280c 100644
--- a/specula/processing_objects/low_pass_filter.py
+++ b/specula/processing_objects/low_pass_filter.py
@@ -28,6 +28,8 @@ class LowPassFilter(IirFilter):
             iir_filter_data = IirFilterData.lpf_from_fc_and_ampl(cutoff_freq, amplif_fact,
                                                samp_freq, target_device_idx=target_device_idx)
         else:
+            if n_ord is None:
+                n_ord = 2
             iir_filter_data = IirFilterData.lpf_from_fc(cutoff_freq, samp_freq, n_ord=n_ord,
                                                         target_device_idx=target_device_idx)
 
-- 
2.43.0


From 9132b4d8aa8eceb271d099d49d928f5a32bd7efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:00 +0000
Subject: [PATCH 15/97] fix: keep the delay of strictly proper transfer
 functions imported from the control library

---
 specula/data_objects/iir_filter_data.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/specula/data_objects/iir_filter_data.py b/specula/data_objects/iir_filter_data.py
index dbc63db..088db80 100644
--- a/specula/data_objects/iir_filter_data.py
+++ b/specula/data_objects/iir_filter_data.py
@@ -1084,13 +1084,18 @@ class IirFilterData(BaseDataObj):
             num_coeffs = tf.num[0][0]
             den_coeffs = tf.den[0][0]
 
-            # Store actual orders (length of coefficient arrays)
-            ord_num[i] = len(num_coeffs)
+            if len(num_coeffs) > len(den_coeffs):
+                raise ValueError("A transfer function with more zeros than poles is not causal")
+
+            # Store actual orders (the numerator is padded to the length of the denominator
+            # with its zero high order coefficients)
+            ord_num[i] = max_len
             ord_den[i] = len(den_coeffs)
 
-            # Pad with zeros at the beginning (highest order terms first)
-            num[i, max_len - len(num_coeffs):] = num_coeffs[::-1]
-            den[i, max_len - len(den_coeffs):] = den_coeffs[::-1]
+            # Pad with zeros at the beginning (lowest order terms first)
+            start = max_len - len(den_coeffs)
+            num[i, start:start + len(num_coeffs)] = num_coeffs[::-1]
+            den[i, start:] = den_coeffs[::-1]
 
         return IirFilterData(ord_num, ord_den, num, den, target_device_idx=target_device_idx)
 
-- 
2.43.0


From 0c4a403397fd6f8a93e09e2a3757ba78d3feedda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:33 +0000
Subject: [PATCH 16/97] fix: accept a single gain or forgetting factor for
 integrators

---
 specula/data_objects/iir_filter_data.py  | 8 ++++----
 specula/processing_objects/integrator.py | 5 +++--
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/specula/data_objects/iir_filter_data.py b/specula/data_objects/iir_filter_data.py
index 088db80..fabd23f 100644
--- a/specula/data_objects/iir_filter_data.py
+++ b/specula/data_objects/iir_filter_data.py
@@ -822,15 +822,15 @@ class IirFilterData(BaseDataObj):
         '''Build an IirFilterData object from a gain value/vector
         and an optional forgetting factor value/vector'''
 
-        gain = np.array(gain)
+        gain = np.atleast_1d(gain)
         n = len(gain)
 
         if ff is None:
             ff = np.ones(n)
-        elif len(ff) != n:
-            ff = np.full(n, ff)
         else:
-            ff = np.array(ff)
+            ff = np.atleast_1d(ff)
+            if len(ff) != n:
+                ff = np.full(n, ff)
 
         # Filter initialization
         num = np.zeros((n, 2))
diff --git a/specula/processing_objects/integrator.py b/specula/processing_objects/integrator.py
index 52eebbe..e1ff77c 100644
--- a/specula/processing_objects/integrator.py
+++ b/specula/processing_objects/integrator.py
@@ -1,4 +1,5 @@
 
+from specula import np
 from specula.processing_objects.iir_filter import IirFilter
 from specula.base_processing_obj import InputDesc, OutputDesc
 from specula.base_value import BaseValue
@@ -36,13 +37,13 @@ class Integrator(IirFilter):
         if n_modes is not None:
             if isinstance(n_modes, int):
                 n_modes = [n_modes]
+            int_gain = np.atleast_1d(int_gain)
             if len(n_modes) != len(int_gain):
                 raise ValueError(f"When n_modes is a list, length of n_modes {len(n_modes)} must"
                                  f" match length of int_gain {len(int_gain)}")
             int_gain = [val for i, val in enumerate(int_gain) for _ in range(n_modes[i])]
             if ff is not None:
-                if isinstance(ff, int):
-                    ff = [ff]
+                ff = np.atleast_1d(ff)
                 if len(n_modes) != len(ff):
                     raise ValueError(f"When n_modes is a list, length of n_modes {len(n_modes)}"
                                      f" must match length of ff {len(ff)}")
-- 
2.43.0


From 4d106d3a63dd577cd8b9feb673736739cbd2b18b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:01 +0000
Subject: [PATCH 17/97] fix: add up the counts of binned detector pixels
 instead of averaging them

---
 specula/processing_objects/ccd.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/specula/processing_objects/ccd.py b/specula/processing_objects/ccd.py
index fa7217f..cfe60c9 100644
--- a/specula/processing_objects/ccd.py
+++ b/specula/processing_objects/ccd.py
@@ -318,7 +318,8 @@ class CCD(BaseProcessingObj):
 
         if self._binning > 1:
             newshape = (intensity.shape[0] // self._binning, intensity.shape[1] // self._binning)
-            self._pixels.pixels[:] = rebin2d(intensity, newshape, xp=self.xp)
+            # rebin2d() averages the pixels of each block, while binning adds up their counts
+            self._pixels.pixels[:] = rebin2d(intensity, newshape, xp=self.xp) * self._binning**2
         else:
             self._pixels.pixels[:] = intensity
 
-- 
2.43.0


From cb0a7553a4e95566b03090b296ee9599d93ff666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:01 +0000
Subject: [PATCH 18/97] fix: add the background and dark current levels only
 when each is enabled

---
 specula/processing_objects/ccd.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/specula/processing_objects/ccd.py b/specula/processing_objects/ccd.py
index cfe60c9..34417b0 100644
--- a/specula/processing_objects/ccd.py
+++ b/specula/processing_objects/ccd.py
@@ -265,8 +265,11 @@ class CCD(BaseProcessingObj):
     def apply_noise(self):
         pixels = self._pixels.pixels  # Name change, same reference
 
-        if self._background_noise or self._darkcurrent_noise:
-            pixels += (self._background_level + self._darkcurrent_level)
+        if self._background_noise:
+            pixels += self._background_level
+
+        if self._darkcurrent_noise:
+            pixels += self._darkcurrent_level
 
         if self._cte_noise:
             pixels[:] = self.xp.dot(self.xp.dot(self._cte_mat[:, :, 0], pixels), self._cte_mat[:, :, 1])
-- 
2.43.0


From ea2dcc69d92e44ed7336ce2ee4be94fc646e65f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:15 +0000
Subject: [PATCH 19/97] fix: conserve the total of faint, dark, signed and
 complex arrays in toccd()

---
 specula/lib/toccd.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/specula/lib/toccd.py b/specula/lib/toccd.py
index 9ce29e3..f5bde44 100644
--- a/specula/lib/toccd.py
+++ b/specula/lib/toccd.py
@@ -68,9 +68,6 @@ def toccd(a, newshape, set_total=None, xp=None):
     if len(newshape) != 2:
         raise ValueError('Output shape is %s, cannot continue' % str(newshape))
 
-    if set_total is None:
-        set_total = a.sum()
-
     mcmx = lcm(a.shape[0], newshape[0])
     mcmy = lcm(a.shape[1], newshape[1])
 
@@ -79,6 +76,11 @@ def toccd(a, newshape, set_total=None, xp=None):
     temp = rebin2d(temp, (newshape[0], mcmy), sample=True, xp=xp)
     rebinned = rebin2d(temp, newshape, xp=xp)
 
+    if set_total is None:
+        # rebin2d() keeps the mean value: keeping the total only takes the ratio between
+        # the number of pixels, which is valid for faint, dark, signed and complex arrays as well.
+        return rebinned * (a.size / rebinned.size)
+
     eps = xp.finfo(rebinned.dtype).eps
     rebinned_sum = xp.maximum(rebinned.sum(), eps)
 
-- 
2.43.0


From f1933e1143066e0778a093ac83c0fe231ccb60a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:15 +0000
Subject: [PATCH 20/97] fix: apply the requested total in toccd() when the
 shape does not change

---
 specula/lib/toccd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specula/lib/toccd.py b/specula/lib/toccd.py
index f5bde44..de03f89 100644
--- a/specula/lib/toccd.py
+++ b/specula/lib/toccd.py
@@ -56,7 +56,7 @@ def toccd(a, newshape, set_total=None, xp=None):
     '''
     newshape = tuple(cpuArray(newshape))  # Works for lists, tuples and any cupy/numpy array
 
-    if a.shape == newshape:
+    if a.shape == newshape and set_total is None:
         return a
 
     if xp == cp:
-- 
2.43.0


From 4b877b206741c97688ed60601c7c8e007d2a2510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:15 +0000
Subject: [PATCH 21/97] fix: compare each axis with its own size in rebin2d()

---
 specula/lib/rebin.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/specula/lib/rebin.py b/specula/lib/rebin.py
index b1435f0..9efd4be 100644
--- a/specula/lib/rebin.py
+++ b/specula/lib/rebin.py
@@ -48,11 +48,11 @@ def rebin2d(a, shape, sample=False, xp=None):
         M, N = a.shape
         m, n = shape
 
-        if m<=M and n<=M:
+        if m<=M and n<=N:
             if (M//m != M/m) or (N//n != N/n):
                 raise ValueError('Resampling by non-integer factors is not supported')
             return a.reshape((m,M//m,n,N//n)).mean(3).mean(1)
-        elif m>=M and n>=M:
+        elif m>=M and n>=N:
             raise ValueError('Upsampling with sample=False is not supported')
         else:
             raise ValueError('Upsampling and downsampling in different axes it not supported')
-- 
2.43.0


From 2b7860fe02738d8510fb008cf5d1f51857956693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:32 +0000
Subject: [PATCH 22/97] fix: give zero Shack-Hartmann slopes instead of NaN on
 a dark frame

---
 specula/processing_objects/sh_slopec.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/specula/processing_objects/sh_slopec.py b/specula/processing_objects/sh_slopec.py
index e685a03..b356938 100644
--- a/specula/processing_objects/sh_slopec.py
+++ b/specula/processing_objects/sh_slopec.py
@@ -281,6 +281,9 @@ class ShSlopec(Slopec):
 #            factor[idx_le_0] = 0.0
         clamp_generic_more( 1.0 / (mean_subap_tot * 1e-3), 0, factor, xp=self.xp)
 
+        # A frame without any light has no slopes
+        factor = self.xp.where(subap_tot > 0, factor, 0)
+
         # Compute slopes
         sx = self.xp.sum(pixels * self.xweights_flat * factor[self.xp.newaxis, :], axis=0)
         sy = self.xp.sum(pixels * self.yweights_flat * factor[self.xp.newaxis, :], axis=0)
-- 
2.43.0


From a3f8b2a2adf41b0d8ef82f3b37641465394ecdb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:32 +0000
Subject: [PATCH 23/97] fix: use the last due radius of a list of weighting
 radii in ShSlopec

---
 specula/processing_objects/sh_slopec.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/specula/processing_objects/sh_slopec.py b/specula/processing_objects/sh_slopec.py
index b356938..63ec4d4 100644
--- a/specula/processing_objects/sh_slopec.py
+++ b/specula/processing_objects/sh_slopec.py
@@ -64,7 +64,7 @@ class ShSlopec(Slopec):
         self.ycweights = None
         self.mask_weighted = None
         self.weighted_pix_rad = weightedPixRad
-        self.vec_wei_pix_rad_t = vecWeiPixRadT
+        self.vec_wei_pix_rad_t = np.array(vecWeiPixRadT) if vecWeiPixRadT is not None else None
         self.windowing = windowing
         self.thr_ratio_value = 0.0
         self.thr_pedestal = False
@@ -167,9 +167,9 @@ class ShSlopec(Slopec):
 
     def trigger_code(self):
         if self.vec_wei_pix_rad_t is not None:
-            idxW = self.xp.where(self.current_time_seconds > self.vec_wei_pix_rad_t[:, 1])[-1]
+            idxW = np.where(self.current_time_seconds > self.vec_wei_pix_rad_t[:, 1])[0]
             if len(idxW) > 0:
-                self.weighted_pix_rad = self.vec_wei_pix_rad_t[idxW, 0]
+                self.weighted_pix_rad = self.vec_wei_pix_rad_t[idxW[-1], 0]
                 if self.verbose:
                     print(f'self.weighted_pix_rad: {self.weighted_pix_rad}')
                 self.set_xy_weights()
-- 
2.43.0


From cc380802bb98779f0e0e9981d1edd82389705d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:32 +0000
Subject: [PATCH 24/97] fix: give zero pyramid slopes instead of NaN on a dark
 frame

---
 specula/processing_objects/pyr_slopec.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/specula/processing_objects/pyr_slopec.py b/specula/processing_objects/pyr_slopec.py
index f32bd3c..5633445 100644
--- a/specula/processing_objects/pyr_slopec.py
+++ b/specula/processing_objects/pyr_slopec.py
@@ -136,9 +136,9 @@ class PyrSlopec(Slopec):
 
             self.sx, self.sy = self._compute_pyr_slopes(A, B, C, D, factor)
 
-        clamp_generic_more(0, 1, inv_factor, xp=self.xp)
-        self.sx *= inv_factor[0]
-        self.sy *= inv_factor[0]
+        # No signal without light to normalize it
+        self.sx = self.xp.where(inv_factor == 0, 0, self.sx)
+        self.sy = self.xp.where(inv_factor == 0, 0, self.sy)
 
         self.slopes.xslopes = self.sx
         self.slopes.yslopes = self.sy
-- 
2.43.0


From e869cf54d7a0b7faa344f74b79ec802654000d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:32 +0000
Subject: [PATCH 25/97] fix: make the shlike normalization of pyramid slopes
 usable

---
 specula/processing_objects/pyr_slopec.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/specula/processing_objects/pyr_slopec.py b/specula/processing_objects/pyr_slopec.py
index 5633445..0fffd45 100644
--- a/specula/processing_objects/pyr_slopec.py
+++ b/specula/processing_objects/pyr_slopec.py
@@ -44,7 +44,7 @@ class PyrSlopec(Slopec):
         if shlike and slopes_from_intensity:
             raise ValueError('Both SHLIKE and SLOPES_FROM_INTENSITY parameters are set. Only one of these should be used.')
 
-        if shlike and norm_factor != 0:
+        if shlike and norm_factor:
             raise ValueError('Both SHLIKE and NORM_FACTOR parameters are set. Only one of these should be used.')
 
         self.shlike = shlike
@@ -124,7 +124,7 @@ class PyrSlopec(Slopec):
             self.sx = factor * self.xp.concatenate([A, B])
             self.sy = factor * self.xp.concatenate([C, D])
         else:
-            if self.norm_factor is not None:
+            if self.norm_factor is not None and not self.shlike:
                 inv_factor[0] = self.norm_factor
                 factor = 1.0 / inv_factor[0]
             elif not self.shlike:
-- 
2.43.0


From 735152c66c3d1e2bd8f7321615b1d4e770eaa6fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:32 +0000
Subject: [PATCH 26/97] fix: keep the last slope when resizing to an odd size,
 as when building

---
 specula/data_objects/slopes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specula/data_objects/slopes.py b/specula/data_objects/slopes.py
index 1ee20ef..3c16716 100644
--- a/specula/data_objects/slopes.py
+++ b/specula/data_objects/slopes.py
@@ -73,7 +73,7 @@ class Slopes(BaseDataObj):
             self.indices_y = self.indices_x + 1
         else:
             self.indices_x = self.xp.arange(0, self.size // 2)
-            self.indices_y = self.indices_x + self.size // 2
+            self.indices_y = self.xp.arange(self.size//2, self.size)
 
     @property
     def size(self):
-- 
2.43.0


From caff8bed27016a7223f8aa47b59c74751bd53ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:45 +0000
Subject: [PATCH 27/97] fix: do not count one photon for each dark pixel of the
 curvature sensor

---
 specula/processing_objects/cur_wfs_slopec.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/specula/processing_objects/cur_wfs_slopec.py b/specula/processing_objects/cur_wfs_slopec.py
index 7c4f16a..71786f8 100644
--- a/specula/processing_objects/cur_wfs_slopec.py
+++ b/specula/processing_objects/cur_wfs_slopec.py
@@ -118,9 +118,9 @@ class CurWfsSlopec(Slopec):
         sum_i = i1 + i2
 
         # Avoid division by zero
-        sum_i = self.xp.where(sum_i < 1e-9, 1.0, sum_i)
+        norm_i = self.xp.where(sum_i < 1e-9, 1.0, sum_i)
 
-        signal = (i1 - i2) / sum_i
+        signal = (i1 - i2) / norm_i
 
         # Store results
         self.slopes.slopes[:] = signal
-- 
2.43.0


From 9e4fa43dc265b56ea9b61434d65848f64ffa87ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:29 +0000
Subject: [PATCH 28/97] fix: give zero Zernike sensor signals instead of NaN on
 a dark frame

---
 specula/processing_objects/zwfs_slopec.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/specula/processing_objects/zwfs_slopec.py b/specula/processing_objects/zwfs_slopec.py
index 9f1dfbd..9d16d75 100644
--- a/specula/processing_objects/zwfs_slopec.py
+++ b/specula/processing_objects/zwfs_slopec.py
@@ -91,7 +91,8 @@ class ZwfsSlopec(Slopec):
         self.subap_counts.value[0] = self.total_intensity / self.nsubaps()
 
         norm_factor = self.xp.sum(metaintensity) / self.nsubaps()
-        self.slopes.slopes = metaintensity / norm_factor
+        # No signal without light to normalize it
+        self.slopes.slopes = self.xp.where(norm_factor == 0, 0, metaintensity / norm_factor)
 
     def post_trigger(self):
         super().post_trigger()
-- 
2.43.0


From bfbb7fa41377cfa159fe0b841c66e710bc2dcdc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:10 +0000
Subject: [PATCH 29/97] fix: read the values of a list of command inputs in
 Modalrec

---
 specula/processing_objects/modalrec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specula/processing_objects/modalrec.py b/specula/processing_objects/modalrec.py
index 9ae7e68..90f355d 100644
--- a/specula/processing_objects/modalrec.py
+++ b/specula/processing_objects/modalrec.py
@@ -143,7 +143,7 @@ class Modalrec(BaseProcessingObj):
             commands = self.local_inputs['in_commands']
             commands_list = self.local_inputs['in_commands_list']
             if commands is None:
-                self.commands[:] = self.xp.hstack([x.commands for x in commands_list])
+                self.commands[:] = self.xp.hstack([x.value for x in commands_list])
             else:
                 if commands.value is None:
                     # value will be None in the first iteration
-- 
2.43.0


From 8c24c2209415cad26835eba4575ce25985ff5a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:10 +0000
Subject: [PATCH 30/97] fix: allow pseudo open loop control without a
 projection matrix in Modalrec

---
 specula/processing_objects/modalrec.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/specula/processing_objects/modalrec.py b/specula/processing_objects/modalrec.py
index 90f355d..3494cf6 100644
--- a/specula/processing_objects/modalrec.py
+++ b/specula/processing_objects/modalrec.py
@@ -85,7 +85,7 @@ class Modalrec(BaseProcessingObj):
         self.in_commands_size = in_commands_size
 
         if polc:
-            nmodes = self.projmat.nmodes
+            nmodes = self.recmat.nmodes if self.projmat is None else self.projmat.nmodes
         else:
             nmodes = self.recmat.nmodes
 
@@ -106,7 +106,7 @@ class Modalrec(BaseProcessingObj):
 
         # TODO static allocation but polc not supported (should use projmat)
         self.modes.value = self.xp.zeros(nmodes, dtype=self.dtype)
-        self.pseudo_ol_modes.value = self.xp.zeros(nmodes, dtype=self.dtype)
+        self.pseudo_ol_modes.value = self.xp.zeros(self.recmat.nmodes, dtype=self.dtype)
 
         if self.polc:
             self.out_comm = BaseValue('output commands from modal reconstructor',
@@ -199,7 +199,7 @@ class Modalrec(BaseProcessingObj):
                 output_modes = self.projmat.recmat @ self.pseudo_ol_modes.value
 
             # (3) remove the effect of the commands
-            output_modes -= self.commands
+            output_modes = output_modes - self.commands
 
         else:
             output_modes = self.recmat.recmat @ self.slopes
-- 
2.43.0


From 9a81e423af8d55ad2455400c3c6fb5a05aa2e124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:10 +0000
Subject: [PATCH 31/97] fix: run pseudo open loop reconstruction when any
 slopes of the list are refreshed

---
 specula/processing_objects/modalrec.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/specula/processing_objects/modalrec.py b/specula/processing_objects/modalrec.py
index 3494cf6..f6b341f 100644
--- a/specula/processing_objects/modalrec.py
+++ b/specula/processing_objects/modalrec.py
@@ -173,11 +173,9 @@ class Modalrec(BaseProcessingObj):
             slopes_list = self.local_inputs['in_slopes_list']
 
             if slopes is not None:
-                slopes_time = slopes.generation_time
-            else:
-                slopes_time = slopes_list[0].generation_time
+                slopes_list = [slopes]
 
-            if slopes_time != self.current_time:
+            if all(x.generation_time != self.current_time for x in slopes_list):
                 return
 
 
-- 
2.43.0


From 0add362426cbe98ca538c0884764e60b49b8f1de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:10 +0000
Subject: [PATCH 32/97] fix: invert the interaction matrix given to Modalrec
 without a reconstruction matrix

---
 specula/processing_objects/modalrec.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/specula/processing_objects/modalrec.py b/specula/processing_objects/modalrec.py
index f6b341f..5e169c9 100644
--- a/specula/processing_objects/modalrec.py
+++ b/specula/processing_objects/modalrec.py
@@ -43,13 +43,11 @@ class Modalrec(BaseProcessingObj):
                     recmat = Recmat(self.xp.identity(nmodes),
                                     target_device_idx=target_device_idx, precision=precision)
                 elif intmat:
-                    if nmodes:
-                        nmodesintmat = intmat.size[0]
-                        intmat.reduce_size(nmodesintmat - nmodes)
+                    intmat = Intmat(intmat.intmat,
+                                    target_device_idx=target_device_idx, precision=precision)
                     if nSlopesToBeDiscarded:
                         intmat.reduce_slopes(nSlopesToBeDiscarded)
-                    recmat = Recmat(intmat.intmat,
-                                    target_device_idx=target_device_idx, precision=precision)
+                    recmat = intmat.generate_rec(nmodes)
 
             if ncutmodes:
                 if recmat is not None:
-- 
2.43.0


From 6c195b2326f94bf5463252b79b858a6b3ec4475b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:10 +0000
Subject: [PATCH 33/97] fix: do not alter the reconstruction matrix given to
 Modalrec

---
 specula/processing_objects/modalrec.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/specula/processing_objects/modalrec.py b/specula/processing_objects/modalrec.py
index 5e169c9..aefe539 100644
--- a/specula/processing_objects/modalrec.py
+++ b/specula/processing_objects/modalrec.py
@@ -1,3 +1,5 @@
+from copy import copy
+
 from specula.base_processing_obj import BaseProcessingObj, InputDesc, OutputDesc
 from specula.base_value import BaseValue
 from specula.connections import InputList, InputValue
@@ -51,6 +53,7 @@ class Modalrec(BaseProcessingObj):
 
             if ncutmodes:
                 if recmat is not None:
+                    recmat = copy(recmat)
                     recmat.reduce_size(ncutmodes)
                 else:
                     print('recmat cannot be reduced because it is null.')
@@ -67,6 +70,7 @@ class Modalrec(BaseProcessingObj):
                     raise ValueError('dmNumber (>0) must be defined if projmat_tag is not defined!')
 
         if filtmat is not None and recmat is not None:
+            recmat = copy(recmat)
             recmat.recmat = recmat.recmat @ filtmat
             print('recmat updated with filmat!')
 
-- 
2.43.0


From 26c85f21a11c17b6ba328dc2ec0adf5eb0f9405b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:28 +0000
Subject: [PATCH 34/97] fix: keep the size of unset reconstruction matrices out
 of Modalrec

---
 specula/processing_objects/modalrec.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/specula/processing_objects/modalrec.py b/specula/processing_objects/modalrec.py
index aefe539..2429804 100644
--- a/specula/processing_objects/modalrec.py
+++ b/specula/processing_objects/modalrec.py
@@ -108,7 +108,8 @@ class Modalrec(BaseProcessingObj):
 
         # TODO static allocation but polc not supported (should use projmat)
         self.modes.value = self.xp.zeros(nmodes, dtype=self.dtype)
-        self.pseudo_ol_modes.value = self.xp.zeros(self.recmat.nmodes, dtype=self.dtype)
+        n_pol_modes = nmodes if self.recmat is None else self.recmat.nmodes
+        self.pseudo_ol_modes.value = self.xp.zeros(n_pol_modes, dtype=self.dtype)
 
         if self.polc:
             self.out_comm = BaseValue('output commands from modal reconstructor',
-- 
2.43.0


From e67c2cd8e1c88dac33b6f6b760a04299c9ff5072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:28 +0000
Subject: [PATCH 35/97] fix: run implicit pseudo open loop reconstruction only
 on refreshed slopes, as the explicit one

---
 specula/processing_objects/modalrec_implicit_polc.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/specula/processing_objects/modalrec_implicit_polc.py b/specula/processing_objects/modalrec_implicit_polc.py
index a2f37fc..df759aa 100644
--- a/specula/processing_objects/modalrec_implicit_polc.py
+++ b/specula/processing_objects/modalrec_implicit_polc.py
@@ -107,6 +107,12 @@ class ModalrecImplicitPolc(Modalrec):
 
     def trigger_code(self):
 
+        # As in the explicit form, commands alone do not start a reconstruction
+        slopes = self.local_inputs['in_slopes']
+        slopes_list = self.local_inputs['in_slopes_list'] if slopes is None else [slopes]
+        if all(x.generation_time != self.current_time for x in slopes_list):
+            return
+
         output_modes = self.comm_mat.recmat @ self.slopes - self.h_mat.recmat @ self.commands
         self.modes.value = output_modes
         self.modes.generation_time = self.current_time
-- 
2.43.0


From d3dff536e9284c08d48b3a25eacb9cb2e957d5f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:12 +0000
Subject: [PATCH 36/97] fix: accept slices counted from the end or backwards in
 BaseSlicer

---
 specula/processing_objects/base_slicer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/specula/processing_objects/base_slicer.py b/specula/processing_objects/base_slicer.py
index 5d86d81..c36075e 100644
--- a/specula/processing_objects/base_slicer.py
+++ b/specula/processing_objects/base_slicer.py
@@ -33,8 +33,9 @@ class BaseSlicer(BaseProcessingObj):
             start = self.slice_obj.start
             stop = self.slice_obj.stop
             step = self.slice_obj.step if self.slice_obj.step is not None else 1
-            if start is not None and stop is not None:
-                n_elements = (stop - start + step - 1) // step
+            # The length is known here only if both ends are counted from the same side
+            if start is not None and stop is not None and (start < 0) == (stop < 0):
+                n_elements = len(range(start, stop, step))
         value = self.xp.zeros(n_elements, dtype=self.dtype) \
             if n_elements is not None else self.xp.array([], dtype=self.dtype)
         # ----------------------------------
-- 
2.43.0


From 7f158f4da9b25c61a59ef1d05e165baa412bbfa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:26 +0000
Subject: [PATCH 37/97] fix: give the layer of a deformable mirror the rows and
 columns of its mask

---
 specula/processing_objects/dm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specula/processing_objects/dm.py b/specula/processing_objects/dm.py
index 2c932b1..0891e99 100644
--- a/specula/processing_objects/dm.py
+++ b/specula/processing_objects/dm.py
@@ -140,7 +140,7 @@ class DM(BaseProcessingObj):
 
         self.if_commands_selector = slice(0, self.n_valid_modes)
 
-        self.layer = Layer(s[0], s[1], self.pixel_pitch, height, target_device_idx=target_device_idx, precision=precision)
+        self.layer = Layer(s[1], s[0], self.pixel_pitch, height, target_device_idx=target_device_idx, precision=precision)
         self.layer.A = self._ifunc.mask_inf_func
 
         self.nmodes = nmodes - start_mode   # Input command vector is not supposed to include the modes before "start_mode"
-- 
2.43.0


From 4c9be18bfd40e5fb26c9202888f7819ec753b8bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:20 +0000
Subject: [PATCH 38/97] fix: give combined electric fields the rows and columns
 of their inputs

---
 specula/processing_objects/electric_field_combinator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/specula/processing_objects/electric_field_combinator.py b/specula/processing_objects/electric_field_combinator.py
index bc1ed0f..7c39fc1 100644
--- a/specula/processing_objects/electric_field_combinator.py
+++ b/specula/processing_objects/electric_field_combinator.py
@@ -75,8 +75,8 @@ class ElectricFieldCombinator(BaseProcessingObj):
             first_ef = in_ef1
 
         self._out_ef.resize(
-            dimx=first_ef.A.shape[0],
-            dimy=first_ef.A.shape[1],
+            dimx=first_ef.A.shape[1],
+            dimy=first_ef.A.shape[0],
             pitch=first_ef.pixel_pitch,
         )
         self.has_list = has_list
-- 
2.43.0


From e76ed87e5d7584a2e6cecba42e75aacfcde20f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:20 +0000
Subject: [PATCH 39/97] fix: multiply electric fields entirely when no
 subrectangle is given

---
 specula/data_objects/electric_field.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/specula/data_objects/electric_field.py b/specula/data_objects/electric_field.py
index 553d72e..237853b 100644
--- a/specula/data_objects/electric_field.py
+++ b/specula/data_objects/electric_field.py
@@ -200,6 +200,8 @@ class ElectricField(BaseDataObj):
             The subrectangle to multiply (top-left coordinate into ef2. Default: None, which means all of ef2).
         """
 #        subrect = self.checkOther(ef2, subrect=subrect)    # TODO check subrect from atmo_propagation, even in PASSATA it does not seem right
+        if subrect is None:
+            subrect = [0, 0]
         x2 = subrect[0] + self.size[0]
         y2 = subrect[1] + self.size[1]
         self.field[0] *= ef2.field[0, subrect[0] : x2, subrect[1] : y2]
-- 
2.43.0


From 8a62db63cc5b43a3bb2bf0996eaeb583fba07711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:20 +0000
Subject: [PATCH 40/97] fix: extract non-square parts of electric fields

---
 specula/data_objects/electric_field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specula/data_objects/electric_field.py b/specula/data_objects/electric_field.py
index 237853b..8db9272 100644
--- a/specula/data_objects/electric_field.py
+++ b/specula/data_objects/electric_field.py
@@ -260,7 +260,7 @@ class ElectricField(BaseDataObj):
             idx = self.xp.unravel_index(idx, self.field[0].shape)
             xfrom, xto = self.xp.min(idx[0]), self.xp.max(idx[0])
             yfrom, yto = self.xp.min(idx[1]), self.xp.max(idx[1])
-        sub_ef = ElectricField(xto - xfrom, yto - yfrom, self.pixel_pitch, target_device_idx=self.target_device_idx)
+        sub_ef = ElectricField(yto - yfrom, xto - xfrom, self.pixel_pitch, target_device_idx=self.target_device_idx)
         sub_ef.field[0, :] = self.field[0, xfrom:xto, yfrom:yto]
         sub_ef.field[1, :] = self.field[1, xfrom:xto, yfrom:yto]
         sub_ef.S0 = self.S0
-- 
2.43.0


From 2a731eaeec4d8472e221dd158ae72dc87684c336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:20 +0000
Subject: [PATCH 41/97] fix: subtract the mean phase of the lit pixels only
 when displaying a field

---
 specula/data_objects/electric_field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specula/data_objects/electric_field.py b/specula/data_objects/electric_field.py
index 8db9272..5699b42 100644
--- a/specula/data_objects/electric_field.py
+++ b/specula/data_objects/electric_field.py
@@ -337,7 +337,7 @@ class ElectricField(BaseDataObj):
             2D array of phase values (in nm), mean-subtracted over nonzero amplitude pixels.
         """
         frame = self.field[1] * (self.field[0] > 0).astype(float)
-        idx = self.xp.where(self.field[0] > 0)[0]
+        idx = self.xp.where(self.field[0] > 0)
         # Remove average phase
         frame[idx] -= self.xp.mean(frame[idx])
         return frame
-- 
2.43.0


From 38e5bc82443a2b5224b88f4b63e06501036be3b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:20 +0000
Subject: [PATCH 42/97] fix: give one field per layer, marked as of this step,
 when layer contributions are not merged

---
 specula/processing_objects/atmo_propagation.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/specula/processing_objects/atmo_propagation.py b/specula/processing_objects/atmo_propagation.py
index 7d53b20..f513ce6 100644
--- a/specula/processing_objects/atmo_propagation.py
+++ b/specula/processing_objects/atmo_propagation.py
@@ -312,7 +312,9 @@ class AtmoPropagation(BaseProcessingObj):
         super().post_trigger()
 
         for source_name in self.source_dict.keys():
-            self.outputs['out_'+source_name+'_ef'].generation_time = self.current_time
+            output = self.outputs['out_'+source_name+'_ef']
+            for ef in output if isinstance(output, list) else [output]:
+                ef.generation_time = self.current_time
 
     @staticmethod
     def _pressure_nasa(h_asl):
@@ -491,7 +493,7 @@ class AtmoPropagation(BaseProcessingObj):
         if not self.mergeLayersContrib:
             for name, source in self.source_dict.items():
                 self.outputs['out_'+name+'_ef'] = []
-                for _ in range(self.nAtmoLayers):
+                for _ in range(self.nAtmoLayers + len(self.common_layer_list)):
                     ef = ElectricField(self.pixel_pupil_size, self.pixel_pupil_size, self.pixel_pitch, target_device_idx=self.target_device_idx)
                     ef.S0 = source.phot_density()
                     self.outputs['out_'+name+'_ef'].append(ef)
-- 
2.43.0


From 7799fe26a070cd731ff214928a1ef815fc49347f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:20 +0000
Subject: [PATCH 43/97] fix: size turbulence layers by the distance of the
 pupil, not the sum of its coordinates

---
 specula/processing_objects/atmo_evolution.py          | 2 +-
 specula/processing_objects/atmo_infinite_evolution.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/specula/processing_objects/atmo_evolution.py b/specula/processing_objects/atmo_evolution.py
index 6be78cc..76e0cf5 100644
--- a/specula/processing_objects/atmo_evolution.py
+++ b/specula/processing_objects/atmo_evolution.py
@@ -107,7 +107,7 @@ class AtmoEvolution(BaseProcessingObj):
         fov_rad = fov * ASEC2RAD
         self.pixel_layer = np.ceil(
             (self.pixel_pupil \
-                + 2 * np.sqrt(np.sum(np.array(pupil_position, dtype=self.dtype) * 2)) \
+                + 2 * np.sqrt(np.sum(np.array(pupil_position, dtype=self.dtype) ** 2)) \
                 / self.pixel_pitch \
                 + abs(self.pupil_distances) / self.pixel_pitch * fov_rad) / 2.0
         ) * 2.0
diff --git a/specula/processing_objects/atmo_infinite_evolution.py b/specula/processing_objects/atmo_infinite_evolution.py
index e78b4eb..3745efa 100644
--- a/specula/processing_objects/atmo_infinite_evolution.py
+++ b/specula/processing_objects/atmo_infinite_evolution.py
@@ -117,7 +117,7 @@ class AtmoInfiniteEvolution(BaseProcessingObj):
         # Compute layers dimension in pixels
         self.pixel_layer_size = np.ceil(
             (self.pixel_pupil \
-                + 2 * np.sqrt(np.sum(np.array(pupil_position, dtype=self.dtype) * 2)) \
+                + 2 * np.sqrt(np.sum(np.array(pupil_position, dtype=self.dtype) ** 2)) \
                 / self.pixel_pitch \
                 + 2.0 * abs(self.pupil_distances) / self.pixel_pitch * rad_alpha_fov) / 2.0
         ) * 2.0
-- 
2.43.0


From 8aeaa57a859aff52c85c987d847babb1c631aafc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:20 +0000
Subject: [PATCH 44/97] fix: keep the parameters of an EFInterpolator that are
 not updated

---
 specula/lib/extrapolation_2d.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/specula/lib/extrapolation_2d.py b/specula/lib/extrapolation_2d.py
index 2fb0240..a7c85a4 100644
--- a/specula/lib/extrapolation_2d.py
+++ b/specula/lib/extrapolation_2d.py
@@ -347,14 +347,15 @@ class EFInterpolator():
                           rotAnglePhInDeg=None, magnification=None):
         """Re-initialize the internal Interp2D object with new misalignment parameters."""
 
-        if magnification < 1e-6:
+        if magnification is not None and magnification < 1e-6:
             raise ValueError("Magnification must be greater than 1e-6 to avoid numerical issues.")
 
         # Retrieve current parameters if not provided
         current_rot = -self.interp.rot_angle * 180.0 / np.pi
 
-        new_x = xShiftPhInPixel if xShiftPhInPixel is not None else float(self.interp.shift_x)
-        new_y = yShiftPhInPixel if yShiftPhInPixel is not None else float(self.interp.shift_y)
+        # x and y are swapped in Interp2D
+        new_x = xShiftPhInPixel if xShiftPhInPixel is not None else float(self.interp.shift_y)
+        new_y = yShiftPhInPixel if yShiftPhInPixel is not None else float(self.interp.shift_x)
         new_rot = rotAnglePhInDeg if rotAnglePhInDeg is not None else current_rot
         new_mag = magnification if magnification is not None else float(self.interp.magnification)
 
-- 
2.43.0


From 2ac0b465babe4c9d131d6b892d33e14555a0cbf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:44 +0000
Subject: [PATCH 45/97] fix: give the interpolated field of a non-square field
 its rows and columns

---
 specula/lib/extrapolation_2d.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/specula/lib/extrapolation_2d.py b/specula/lib/extrapolation_2d.py
index a7c85a4..e171ab7 100644
--- a/specula/lib/extrapolation_2d.py
+++ b/specula/lib/extrapolation_2d.py
@@ -302,8 +302,8 @@ class EFInterpolator():
                       target_device_idx, precision)
             if ef_key not in self.__ef_cache:
                 self.__ef_cache[ef_key] = ElectricField(
-                    out_shape[0],
                     out_shape[1],
+                    out_shape[0],
                     in_ef.pixel_pitch / oversampling_factor,
                     target_device_idx=target_device_idx,
                     precision=precision
@@ -312,8 +312,8 @@ class EFInterpolator():
         else:
             # Create a new ElectricField without caching
             self.out_ef = ElectricField(
-                out_shape[0],
                 out_shape[1],
+                out_shape[0],
                 in_ef.pixel_pitch / oversampling_factor,
                 target_device_idx=target_device_idx,
                 precision=precision
-- 
2.43.0


From 6c4b918efac05ebe529fefb8a87b3fae0d5fbbaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:14 +0000
Subject: [PATCH 46/97] fix: ignore pokes of modes before the first calibrated
 one

---
 specula/processing_objects/im_calibrator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specula/processing_objects/im_calibrator.py b/specula/processing_objects/im_calibrator.py
index 95ab6a4..91a00ee 100644
--- a/specula/processing_objects/im_calibrator.py
+++ b/specula/processing_objects/im_calibrator.py
@@ -179,7 +179,7 @@ class ImCalibrator(BaseProcessingObj):
 
         if len(idx)>0:
             mode = int(idx[0]) - self.first_mode
-            if mode < self.nmodes:
+            if 0 <= mode < self.nmodes:
                 self.intmat.modes[mode] += slopes / commands[idx]
                 self.count_commands[mode] += 1
 
-- 
2.43.0


From c0fbe52864fb611452acdf9072d226cc9befe6d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:14 +0000
Subject: [PATCH 47/97] fix: print the shape of the interaction matrix in
 verbose calibrations

---
 specula/processing_objects/im_calibrator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specula/processing_objects/im_calibrator.py b/specula/processing_objects/im_calibrator.py
index 91a00ee..1da4ec4 100644
--- a/specula/processing_objects/im_calibrator.py
+++ b/specula/processing_objects/im_calibrator.py
@@ -171,7 +171,7 @@ class ImCalibrator(BaseProcessingObj):
         if self.intmat.nslopes == 0:
             self.intmat.set_nslopes(len(slopes))
             if self.verbose:
-                print(f"Initialized interaction matrix: {self.im.value.shape}")
+                print(f"Initialized interaction matrix: {self.intmat.intmat.shape}")
             for i in range(self.nmodes):
                 self.single_im[i].set_nslopes(len(slopes))
 
-- 
2.43.0


From 0b81b46a49b5a1f1087a0da08aae67d3836be676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:02 +0000
Subject: [PATCH 48/97] fix: create the data directory before saving the
 reconstructors of each sensor

---
 specula/processing_objects/multi_rec_calibrator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/specula/processing_objects/multi_rec_calibrator.py b/specula/processing_objects/multi_rec_calibrator.py
index e06a9a2..db0225e 100644
--- a/specula/processing_objects/multi_rec_calibrator.py
+++ b/specula/processing_objects/multi_rec_calibrator.py
@@ -73,6 +73,8 @@ class MultiRecCalibrator(BaseProcessingObj):
     def finalize(self):
         ims = self.local_inputs['intmat_list']
 
+        os.makedirs(self._data_dir, exist_ok=True)
+
         for i, intmat in enumerate(ims):
             if self.rec_path(i):
                 rec = intmat.generate_rec(self._nmodes)
@@ -80,8 +82,6 @@ class MultiRecCalibrator(BaseProcessingObj):
 
         full_intmat = self.local_inputs['full_intmat']
 
-        os.makedirs(self._data_dir, exist_ok=True)
-
         full_rec_path = self.full_rec_path()
         if full_rec_path:
             fullrec = full_intmat.generate_rec(self._nmodes)
-- 
2.43.0


From 8e12853e5bef9c7a2c0fd0e75a9550b714f8205a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:19 +0000
Subject: [PATCH 49/97] fix: give the default noise of the MMSE reconstructor
 one row per slope

---
 specula/lib/mmse_reconstructor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/specula/lib/mmse_reconstructor.py b/specula/lib/mmse_reconstructor.py
index f425b63..ad7019c 100644
--- a/specula/lib/mmse_reconstructor.py
+++ b/specula/lib/mmse_reconstructor.py
@@ -76,7 +76,7 @@ def compute_mmse_reconstructor(interaction_matrix, c_atm, xp, dtype,
             # Default: identity matrix (no noise)
             if verbose:  # pragma: no cover
                 print("No c_noise provided, using identity matrix")
-            c_noise_inv = xp.eye(A.shape[1], dtype=dtype)
+            c_noise_inv = xp.eye(A.shape[0], dtype=dtype)
 
         is_diag_atm = xp.all(xp.abs(xp.diag(xp.diag(c_atm)) - c_atm) < 1e-10)
 
@@ -96,7 +96,7 @@ def compute_mmse_reconstructor(interaction_matrix, c_atm, xp, dtype,
     else:
         # Matrices are already inverted
         c_atm_inv = c_atm
-        c_noise_inv = c_noise if c_noise is not None else xp.eye(A.shape[1], dtype=dtype)
+        c_noise_inv = c_noise if c_noise is not None else xp.eye(A.shape[0], dtype=dtype)
 
     # Compute H = A' Cz^(-1) A + Cx^(-1)
     if verbose:  # pragma: no cover
-- 
2.43.0


From 1a1355234cb561daec80563cff8bb43d95e2243b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:19 +0000
Subject: [PATCH 50/97] fix: reject noise variances that leave slopes of the
 MMSE reconstructor without noise

---
 specula/lib/mmse_reconstructor.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/specula/lib/mmse_reconstructor.py b/specula/lib/mmse_reconstructor.py
index ad7019c..5d0cb44 100644
--- a/specula/lib/mmse_reconstructor.py
+++ b/specula/lib/mmse_reconstructor.py
@@ -30,6 +30,8 @@ def compute_mmse_reconstructor(interaction_matrix, c_atm, xp, dtype,
     # Handle noise covariance matrix
     if c_noise is None and noise_variance is not None:
         n_wfs = len(noise_variance)
+        if n_slopes % n_wfs != 0:
+            raise ValueError(f"{n_slopes} slopes cannot be shared equally by {n_wfs} WFSs")
         n_slopes_per_wfs = n_slopes // n_wfs
 
         if verbose:  # pragma: no cover
-- 
2.43.0


From f24bf15cee041650cbb7835f7119d8283290d7ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:19 +0000
Subject: [PATCH 51/97] fix: keep small covariances in the MMSE reconstructor

---
 specula/lib/mmse_reconstructor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/specula/lib/mmse_reconstructor.py b/specula/lib/mmse_reconstructor.py
index 5d0cb44..29184b4 100644
--- a/specula/lib/mmse_reconstructor.py
+++ b/specula/lib/mmse_reconstructor.py
@@ -59,7 +59,7 @@ def compute_mmse_reconstructor(interaction_matrix, c_atm, xp, dtype,
     if not c_inverse:
         # Check if matrices are diagonal
         if c_noise is not None:
-            is_diag_noise = xp.all(xp.abs(xp.diag(xp.diag(c_noise)) - c_noise) < 1e-10)
+            is_diag_noise = xp.all(xp.diag(xp.diag(c_noise)) == c_noise)
 
             if is_diag_noise:
                 if verbose:  # pragma: no cover
@@ -80,7 +80,7 @@ def compute_mmse_reconstructor(interaction_matrix, c_atm, xp, dtype,
                 print("No c_noise provided, using identity matrix")
             c_noise_inv = xp.eye(A.shape[0], dtype=dtype)
 
-        is_diag_atm = xp.all(xp.abs(xp.diag(xp.diag(c_atm)) - c_atm) < 1e-10)
+        is_diag_atm = xp.all(xp.diag(xp.diag(c_atm)) == c_atm)
 
         if is_diag_atm:
             if verbose:  # pragma: no cover
-- 
2.43.0


From 4cb1a66564c2a49bd94b4943605d6724119aa0ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:19 +0000
Subject: [PATCH 52/97] fix: take a vector of noise variances as the diagonal
 of the noise covariance

---
 specula/data_objects/intmat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specula/data_objects/intmat.py b/specula/data_objects/intmat.py
index 34a42e5..bbe1c80 100644
--- a/specula/data_objects/intmat.py
+++ b/specula/data_objects/intmat.py
@@ -235,7 +235,7 @@ class Intmat(BaseDataObj):
                              f'intmat shape {intmat.shape}')
         else:
             noise_variance = None
-            c_noise_mat = c_noise
+            c_noise_mat = self.xp.diag(c_noise) if c_noise.ndim == 1 else c_noise
         # compute MMSE reconstructor
         recmat = compute_mmse_reconstructor(self.to_xp(intmat), c_atm, self.xp,
                                             self.dtype, noise_variance=noise_variance,
-- 
2.43.0


From 7870f8cc895dba312752c1dd801852624c3f9bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:22 +0000
Subject: [PATCH 53/97] fix: restore the tags, normalization and slope
 statistics of an interaction matrix

---
 specula/data_objects/intmat.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/specula/data_objects/intmat.py b/specula/data_objects/intmat.py
index bbe1c80..65d2322 100644
--- a/specula/data_objects/intmat.py
+++ b/specula/data_objects/intmat.py
@@ -165,12 +165,11 @@ class Intmat(BaseDataObj):
             pupdata_tag = hdr.get('PUP_TAG', '')
             subapdata_tag = hdr.get('SA_TAG', '')
             # Reading additional fits extensions
-            if len(hdul) >= 4:
-                slope_mm = hdul[2].data.copy()
-                slope_rms = hdul[3].data.copy()
-            else:
-                slope_mm = slope_rms = None
-        return Intmat(intmat, slope_mm, slope_rms, pupdata_tag, subapdata_tag, norm_factor, target_device_idx=target_device_idx)
+            slope_mm = hdul['SLOPEMM'].data.copy() if 'SLOPEMM' in hdul else None
+            slope_rms = hdul['SLOPERMS'].data.copy() if 'SLOPERMS' in hdul else None
+        return Intmat(intmat, slope_mm=slope_mm, slope_rms=slope_rms,
+                      pupdata_tag=pupdata_tag, subapdata_tag=subapdata_tag,
+                      norm_factor=norm_factor, target_device_idx=target_device_idx)
 
     def generate_rec(self, nmodes=None, cut_modes=0, w_vec=None, interactive=False):
         if nmodes is not None:
-- 
2.43.0


From 38027352dc085c5da1a271e7dc7cb0e04babff11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:22 +0000
Subject: [PATCH 54/97] fix: save sources at infinity

---
 specula/data_objects/source.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/specula/data_objects/source.py b/specula/data_objects/source.py
index bd96520..fe989c4 100644
--- a/specula/data_objects/source.py
+++ b/specula/data_objects/source.py
@@ -78,7 +78,8 @@ class Source(BaseDataObj):
         hdr['PCOORD1'] = self.orig_polar_coordinates[1]
         hdr['MAGNITUD'] = self.magnitude
         hdr['WAVELENG'] = self.wavelengthInNm
-        hdr['HEIGHT'] = self.height
+        # FITS headers cannot hold an infinite value, it is stored as a string
+        hdr['HEIGHT'] = self.height if np.isfinite(self.height) else str(self.height)
         hdr['BAND'] = self.band
         hdr['ZEROPNT'] = self.zero_point
         hdr['ERR_CRD0'] = self.error_coord[0]
@@ -176,7 +177,7 @@ class Source(BaseDataObj):
         return Source(polar_coordinates=[ hdr['PCOORD0'], hdr['PCOORD1']],
                  magnitude=hdr['MAGNITUD'],
                  wavelengthInNm=hdr['WAVELENG'],
-                 height=hdr['HEIGHT'],
+                 height=float(hdr['HEIGHT']),
                  band=hdr['BAND'],
                  zero_point=hdr['ZEROPNT'],
                  error_coord=[ hdr['ERR_CRD0'], hdr['ERR_CRD1']],
-- 
2.43.0


From ac8b6f063e9a1234b21bf8a70d6e4f2a009b0099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:22 +0000
Subject: [PATCH 55/97] fix: keep the normalization factor of saved M2C
 matrices

---
 specula/data_objects/m2c.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/specula/data_objects/m2c.py b/specula/data_objects/m2c.py
index 9856c57..8fee615 100644
--- a/specula/data_objects/m2c.py
+++ b/specula/data_objects/m2c.py
@@ -59,6 +59,8 @@ class M2C(BaseDataObj):
     def get_fits_header(self):
         hdr = fits.Header()
         hdr['VERSION'] = 1
+        if self.norm_factor is not None:
+            hdr['NORMFACT'] = self.norm_factor
         return hdr
 
     def save(self, filename, overwrite:bool=False):
@@ -80,4 +82,5 @@ class M2C(BaseDataObj):
             if version != 1:
                 raise ValueError(f"Unknown version {version} in file {filename}")
             m2c = hdul[1].data
-        return M2C(m2c=m2c, target_device_idx=target_device_idx)
+            norm_factor = hdr.get('NORMFACT')
+        return M2C(m2c=m2c, norm_factor=norm_factor, target_device_idx=target_device_idx)
-- 
2.43.0


From 3397f1780659a0f2b4ee0ababadf1c185238373c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:22 +0000
Subject: [PATCH 56/97] fix: keep the slopes from intensity flag of saved pupil
 data

---
 specula/data_objects/pupdata.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/specula/data_objects/pupdata.py b/specula/data_objects/pupdata.py
index e3b3b3d..9c3be1b 100644
--- a/specula/data_objects/pupdata.py
+++ b/specula/data_objects/pupdata.py
@@ -115,6 +115,7 @@ class PupData(BaseDataObj):
         hdr['VERSION'] = 2
         hdr['FSIZEX'] = self.framesize[0]
         hdr['FSIZEY'] = self.framesize[1]
+        hdr['SLFROMI'] = int(self.slopes_from_intensity)
         return hdr
 
     def save(self, filename, overwrite=False):
@@ -139,6 +140,7 @@ class PupData(BaseDataObj):
                 raise ValueError(f"Unknown version {version} in file {filename}")
 
             framesize = [int(hdr.get('FSIZEX')), int(hdr.get('FSIZEY'))]
+            slopes_from_intensity = bool(hdr.get('SLFROMI', False))
             ind_pup = hdul[1].data
             radius = hdul[2].data
             cx = hdul[3].data
@@ -148,8 +150,10 @@ class PupData(BaseDataObj):
             else:
                 cy = None
 
-        return PupData(ind_pup=ind_pup, radius=radius, cx=cx, cy=cy, framesize=framesize,
+        pupdata = PupData(ind_pup=ind_pup, radius=radius, cx=cx, cy=cy, framesize=framesize,
                 target_device_idx=target_device_idx)
+        pupdata.set_slopes_from_intensity(slopes_from_intensity)
+        return pupdata
 
     @staticmethod
     def from_header(filename, target_device_idx=None):
-- 
2.43.0


From 1e44cc37e2079aa851cdeede9b981a9a96a18581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:22 +0000
Subject: [PATCH 57/97] fix: keep the diameters of saved pupil stops

---
 specula/data_objects/pupilstop.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/specula/data_objects/pupilstop.py b/specula/data_objects/pupilstop.py
index 3ea9ff2..508b889 100644
--- a/specula/data_objects/pupilstop.py
+++ b/specula/data_objects/pupilstop.py
@@ -82,6 +82,10 @@ class Pupilstop(Layer):
         hdr['SHIFTY'] = float(self.shiftXYinPixel[1])
         hdr['ROTATION'] = self.rotInDeg
         hdr['MAGNIFIC'] = self.magnification
+        if self.mask_diam is not None:
+            hdr['MASKDIAM'] = self.mask_diam
+        if self.obs_diam is not None:
+            hdr['OBSDIAM'] = self.obs_diam
         return hdr
 
     def save(self, filename, overwrite=True):
@@ -104,8 +108,11 @@ class Pupilstop(Layer):
         shiftY = float(hdr['SHIFTY'])
         rotInDeg = float(hdr['ROTATION'])
         magnification = float(hdr['MAGNIFIC'])
+        mask_diam = hdr.get('MASKDIAM', 1.0)
+        obs_diam = hdr.get('OBSDIAM')
         simul_params = SimulParams(pixel_pupil, pixel_pitch)
-        pupilstop = Pupilstop(simul_params, shiftXYinPixel=(shiftX, shiftY), rotInDeg=rotInDeg, \
+        pupilstop = Pupilstop(simul_params, mask_diam=mask_diam, obs_diam=obs_diam, \
+                              shiftXYinPixel=(shiftX, shiftY), rotInDeg=rotInDeg, \
                               magnification=magnification, target_device_idx=target_device_idx)
         return pupilstop
 
-- 
2.43.0


From 92f32432908de27a0a76fdf98ae1756295fe4931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:22 +0000
Subject: [PATCH 58/97] fix: keep the zenith angle and the missing position of
 saved laser launch telescopes

---
 .../data_objects/laser_launch_telescope.py    | 27 ++++++++++++-------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/specula/data_objects/laser_launch_telescope.py b/specula/data_objects/laser_launch_telescope.py
index 359e602..872e991 100644
--- a/specula/data_objects/laser_launch_telescope.py
+++ b/specula/data_objects/laser_launch_telescope.py
@@ -35,10 +35,8 @@ class LaserLaunchTelescope(BaseDataObj):
         beacon_tt : list
             The tilt and tip of the beacon in arcsec.
 
-        TODO the empty tel_position array is actually significant, because
-            it is checked in the SH code to manage the kernels,
-            but gives some problems for the FITS header (when reading from disk,
-            it won't be empty anymore)
+        The empty tel_position array is significant, because
+            it is checked in the SH code to manage the kernels.
         """
         super().__init__(target_device_idx=target_device_idx, precision=precision)
 
@@ -75,10 +73,12 @@ class LaserLaunchTelescope(BaseDataObj):
         hdr['VERSION'] = 1
         hdr['SPOTSIZE'] = self.spot_size
 
-        tel_pos = [0.0, 0.0, 0.0] if self.tel_pos == [] else self.tel_pos
-        hdr['TELPOS_X'] = tel_pos[0]
-        hdr['TELPOS_Y'] = tel_pos[1]
-        hdr['TELPOS_Z'] = tel_pos[2]
+        if self.zenithAngleInDeg is not None:
+            hdr['ZENITH'] = self.zenithAngleInDeg
+        if len(self.tel_pos) != 0:
+            hdr['TELPOS_X'] = self.tel_pos[0]
+            hdr['TELPOS_Y'] = self.tel_pos[1]
+            hdr['TELPOS_Z'] = self.tel_pos[2]
         hdr['BEAC_FOC'] = self.beacon_focus
         hdr['BEAC_TT0'] = self.beacon_tt[0]
         hdr['BEAC_TT1'] = self.beacon_tt[1]
@@ -97,13 +97,20 @@ class LaserLaunchTelescope(BaseDataObj):
         if version != 1:
             raise ValueError(f'Error: unknown version {version} in header')
 
+        if 'TELPOS_X' in hdr:
+            tel_position = [hdr['TELPOS_X'], hdr['TELPOS_Y'], hdr['TELPOS_Z']]
+        else:
+            tel_position = []
+
         llt = LaserLaunchTelescope(
-            simul_params=SimulParams(zenithAngleInDeg=0.0),
+            simul_params=SimulParams(zenithAngleInDeg=hdr.get('ZENITH', 0.0)),
             spot_size = hdr['SPOTSIZE'],
-            tel_position = [hdr['TELPOS_X'], hdr['TELPOS_Y'], hdr['TELPOS_Z']],
+            tel_position = tel_position,
             beacon_focus = hdr['BEAC_FOC'],
             beacon_tt = [hdr['BEAC_TT0'], hdr['BEAC_TT1']],
             target_device_idx=target_device_idx)
+        # The saved focus already includes the airmass
+        llt.beacon_focus = hdr['BEAC_FOC']
         return llt
 
     @staticmethod
-- 
2.43.0


From 84eb2e333d413791503edf8cb008d713becd0ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:22 +0000
Subject: [PATCH 59/97] fix: save scalars set as arrays and restore values in
 their own type

---
 specula/base_value.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/specula/base_value.py b/specula/base_value.py
index 2704de3..e7a01f4 100644
--- a/specula/base_value.py
+++ b/specula/base_value.py
@@ -39,7 +39,7 @@ class BaseValue(BaseDataObj):
     def save(self, filename, overwrite=False):
         hdr = self.get_fits_header()
 
-        if type(self.value) in array_types:
+        if type(self.value) in array_types and self.value.ndim > 0:
             data = cpuArray(self.value)
             hdr['NDARRAY'] = 1
         else:
@@ -56,11 +56,13 @@ class BaseValue(BaseDataObj):
         v = BaseValue(target_device_idx=target_device_idx)
 
         if hdr['NDARRAY']:
-            v.value = data
+            v.value = v.to_xp(data, dtype=v.dtype)
         else:
             value_str = hdr.get('VALUE', None)
             if value_str is not None:
-                v.value = eval(value_str)  # Convert back from string to original type
+                # Convert back from string to original type
+                value = eval(value_str, {'nan': np.nan, 'inf': np.inf})
+                v.value = v.dtype(value) if isinstance(value, float) else value
         return v
 
     def array_for_display(self):
-- 
2.43.0


From 431777965c11d29ad87b908036ad8682e064bf74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:22 +0000
Subject: [PATCH 60/97] fix: restore slopes without tags as saved

---
 specula/data_objects/slopes.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/specula/data_objects/slopes.py b/specula/data_objects/slopes.py
index 3c16716..1596f52 100644
--- a/specula/data_objects/slopes.py
+++ b/specula/data_objects/slopes.py
@@ -223,8 +223,10 @@ class Slopes(BaseDataObj):
         hdr['OBJ_TYPE'] = 'Slopes'
         hdr['INTRLVD'] = int(self.interleave)
         hdr['LENGTH'] = self.size
-        hdr['PUPDTAG'] = self.pupdata_tag if self.pupdata_tag is not None else ''
-        hdr['SUBAPTAG'] = self.subapdata_tag if self.subapdata_tag is not None else ''
+        if self.pupdata_tag is not None:
+            hdr['PUPDTAG'] = self.pupdata_tag
+        if self.subapdata_tag is not None:
+            hdr['SUBAPTAG'] = self.subapdata_tag
         return hdr
 
     def save(self, filename, overwrite=True):
-- 
2.43.0


From 55a6ac9458504cfddc01affb1f76a666858f697b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:22 +0000
Subject: [PATCH 61/97] fix: keep the type of saved influence functions

---
 specula/data_objects/ifunc.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/specula/data_objects/ifunc.py b/specula/data_objects/ifunc.py
index 0923b7a..28914f9 100644
--- a/specula/data_objects/ifunc.py
+++ b/specula/data_objects/ifunc.py
@@ -176,6 +176,8 @@ class IFunc(BaseDataObj):
     def get_fits_header(self):
         hdr = fits.Header()
         hdr['VERSION'] = 1
+        if self.type_str is not None:
+            hdr['TYPE_STR'] = self.type_str
         return hdr
 
     def save(self, filename, overwrite=False):
@@ -190,6 +192,7 @@ class IFunc(BaseDataObj):
     @staticmethod
     def restore(filename, target_device_idx=None, exten=1):
         with fits.open(filename) as hdul:
+            type_str = hdul[0].header.get('TYPE_STR')
             ifunc = hdul[exten].data.T
             mask = hdul[exten+1].data
-        return IFunc(ifunc, mask=mask, target_device_idx=target_device_idx)
+        return IFunc(ifunc, type_str=type_str, mask=mask, target_device_idx=target_device_idx)
-- 
2.43.0


From ced82073d9d4aa20b7128453788240ca4dce8e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:29 +0000
Subject: [PATCH 62/97] fix: copy the arrays reallocated by a data transfer

---
 specula/base_data_obj.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/specula/base_data_obj.py b/specula/base_data_obj.py
index fcca3ce..8be9107 100644
--- a/specula/base_data_obj.py
+++ b/specula/base_data_obj.py
@@ -103,7 +103,7 @@ class BaseDataObj(BaseTimeObj):
                     with warnings.catch_warnings():
                         if self.PerformanceWarning:
                             warnings.simplefilter("ignore", category=self.PerformanceWarning)
-                        setattr(destobj, attr, cp.asarray(self_attr))
+                        setattr(destobj, attr, cp.array(self_attr))
                 if DtH:
                     # Do not set blocking=True for cupy 12.x compatibility.
                     # Blocking is True by default in later versions anyway
@@ -111,7 +111,7 @@ class BaseDataObj(BaseTimeObj):
                 if HtD:
                     setattr(destobj, attr, cp.asarray(self_attr))
                 if HtH:
-                    setattr(destobj, attr, np.asarray(self_attr))
+                    setattr(destobj, attr, np.array(self_attr))
 
         destobj.generation_time = self.generation_time
 
-- 
2.43.0


From 78dba0e4c8bd229330a1096b9cc78d1ed19803b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:29 +0000
Subject: [PATCH 63/97] fix: reallocate only the arrays that need it in a data
 transfer

---
 specula/base_data_obj.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/specula/base_data_obj.py b/specula/base_data_obj.py
index 8be9107..3f149f3 100644
--- a/specula/base_data_obj.py
+++ b/specula/base_data_obj.py
@@ -53,14 +53,15 @@ class BaseDataObj(BaseTimeObj):
                 continue
 
             dest_attr = getattr(destobj, attr)
+            reallocate = force_reallocation
             dest_type = type(dest_attr)
 
             if dest_type not in array_types:
                 print(f'Warning: destination attribute is not a cupy/numpy array, forcing reallocation ({destobj}.{attr})')
-                force_reallocation = True
+                reallocate = True
 
             # Destination array had the correct type: perform in-place data copy
-            if not force_reallocation:
+            if not reallocate:
                 # Detect whether the array types are correct for all four cases:
                 # Device to CPU, CPU to device, device-to-device, and CPU-CPU. Also check whether
                 # the target_device_idx is set correctly for the destination object.
@@ -88,10 +89,10 @@ class BaseDataObj(BaseTimeObj):
                     dest_attr[:] = self_attr
                 else:
                     print(f'Warning: mismatch between target_device_idx and array allocation, forcing reallocation ({destobj}.{attr})')
-                    force_reallocation = True
+                    reallocate = True
 
             # Otherwise, reallocate
-            if force_reallocation:
+            if reallocate:
                 DtD = cp is not None and (self_type == cp.ndarray) and destobj.target_device_idx >= 0
                 DtH = cp is not None and (self_type == cp.ndarray) and destobj.target_device_idx == -1
                 HtD = (self_type == np.ndarray) and destobj.target_device_idx >= 0
-- 
2.43.0


From 8913de13ee2243df72d5bc0679239117d6dedbce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:29 +0000
Subject: [PATCH 64/97] fix: transfer scalar values too

---
 specula/base_value.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/specula/base_value.py b/specula/base_value.py
index e7a01f4..24f494e 100644
--- a/specula/base_value.py
+++ b/specula/base_value.py
@@ -36,6 +36,12 @@ class BaseValue(BaseDataObj):
         else:
             self.value = self.to_xp(val, force_copy=True, dtype=self.dtype)
 
+    def transferDataTo(self, destobj, force_reallocation=False):
+        super().transferDataTo(destobj, force_reallocation=force_reallocation)
+        # Scalars are not arrays, and are not handled by the base class
+        if type(self.value) not in array_types:
+            destobj.value = self.value
+
     def save(self, filename, overwrite=False):
         hdr = self.get_fits_header()
 
-- 
2.43.0


From f0c2398a790453c7a5860eeb5c45f00a52b5dfc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:56 +0000
Subject: [PATCH 65/97] fix: transfer zero-dimensional arrays

---
 specula/base_data_obj.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/specula/base_data_obj.py b/specula/base_data_obj.py
index 3f149f3..c1cae0b 100644
--- a/specula/base_data_obj.py
+++ b/specula/base_data_obj.py
@@ -76,7 +76,7 @@ class BaseDataObj(BaseTimeObj):
                         if self.PerformanceWarning:
                             warnings.simplefilter("ignore", category=self.PerformanceWarning)
                         try:
-                            dest_attr[:] = self_attr
+                            dest_attr[...] = self_attr
                         except:
                             dest_attr = self_attr
                 elif DtH:
@@ -86,7 +86,7 @@ class BaseDataObj(BaseTimeObj):
                 elif HtD:
                     dest_attr.set(self_attr)
                 elif HtH:
-                    dest_attr[:] = self_attr
+                    dest_attr[...] = self_attr
                 else:
                     print(f'Warning: mismatch between target_device_idx and array allocation, forcing reallocation ({destobj}.{attr})')
                     reallocate = True
-- 
2.43.0


From 50d6a44ebb1876a7059a3a6a06af56e8dfdd8dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:31 +0000
Subject: [PATCH 66/97] fix: do not use phase screens with a different outer
 scale

---
 specula/lib/phasescreen_manager.py | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/specula/lib/phasescreen_manager.py b/specula/lib/phasescreen_manager.py
index 715694b..83c0f44 100644
--- a/specula/lib/phasescreen_manager.py
+++ b/specula/lib/phasescreen_manager.py
@@ -28,19 +28,13 @@ def phasescreens_manager(L0, dimension, pixel_pitch, directory, xp, precision, s
 
         # Construct the file names
         phasescreen_name = f'ps_seed{xp.around(element)}_dim{xp.around(dimension)}_pixpit{pixel_pitch:.3f}_L0{float(L0i):.4f}_{precision_str}.fits'
-        phasescreen_name1 = f'ps_seed{xp.around(element)}_dim{xp.around(dimension)}_pixpit{pixel_pitch:.3f}_L0{xp.around(L0i):.4f}_{precision_str}.fits'
         phasescreen_name2 = f'ps_seed{float(element)}_dim{xp.around(dimension)}_pixpit{pixel_pitch:.3f}_L0{float(L0i):.4f}_{precision_str}.fits'
-        phasescreen_name3 = f'ps_seed{float(element)}_dim{xp.around(dimension)}_pixpit{pixel_pitch:.3f}_L0{xp.around(L0i):.4f}_{precision_str}.fits'
 
         # Check if the phase screen file exists in the directory
         if os.path.exists(os.path.join(directory, phasescreen_name)):
             phasescreen = fits.getdata(os.path.join(directory, phasescreen_name), memmap=True)
-        elif os.path.exists(os.path.join(directory, phasescreen_name1)):
-            phasescreen = fits.getdata(os.path.join(directory, phasescreen_name1), memmap=True)
         elif os.path.exists(os.path.join(directory, phasescreen_name2)):
             phasescreen = fits.getdata(os.path.join(directory, phasescreen_name2), memmap=True)
-        elif os.path.exists(os.path.join(directory, phasescreen_name3)):
-            phasescreen = fits.getdata(os.path.join(directory, phasescreen_name3), memmap=True)
         else:
             # Calculate the phase screen if it does not exist
             print('Calculating phasescreen...')
-- 
2.43.0


From 1f3e05a557431cd9448bcc1881190e5b6889f0dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:31 +0000
Subject: [PATCH 67/97] fix: do not share phase screens between close pixel
 pitches or outer scales

---
 specula/lib/phasescreen_manager.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/specula/lib/phasescreen_manager.py b/specula/lib/phasescreen_manager.py
index 83c0f44..2bbacc3 100644
--- a/specula/lib/phasescreen_manager.py
+++ b/specula/lib/phasescreen_manager.py
@@ -5,6 +5,11 @@ from astropy.io import fits
 
 from specula.lib.calc_phasescreen import calc_phasescreen
 
+def _exact(value, decimals):
+    '''Format *value* with a fixed number of decimals, or all of them when they would be lost'''
+    value = float(value)
+    return f'{value:.{decimals}f}' if round(value, decimals) == value else f'{value}'
+
 def phasescreens_manager(L0, dimension, pixel_pitch, directory, xp, precision, seed=None, verbose=False):
     if seed is None:
         seed = [0]
@@ -27,8 +32,10 @@ def phasescreens_manager(L0, dimension, pixel_pitch, directory, xp, precision, s
             raise ValueError("The number of elements in L0 must be 1 or the same as the number of seeds!")
 
         # Construct the file names
-        phasescreen_name = f'ps_seed{xp.around(element)}_dim{xp.around(dimension)}_pixpit{pixel_pitch:.3f}_L0{float(L0i):.4f}_{precision_str}.fits'
-        phasescreen_name2 = f'ps_seed{float(element)}_dim{xp.around(dimension)}_pixpit{pixel_pitch:.3f}_L0{float(L0i):.4f}_{precision_str}.fits'
+        pitch_str = _exact(pixel_pitch, 3)
+        L0_str = _exact(L0i, 4)
+        phasescreen_name = f'ps_seed{xp.around(element)}_dim{xp.around(dimension)}_pixpit{pitch_str}_L0{L0_str}_{precision_str}.fits'
+        phasescreen_name2 = f'ps_seed{float(element)}_dim{xp.around(dimension)}_pixpit{pitch_str}_L0{L0_str}_{precision_str}.fits'
 
         # Check if the phase screen file exists in the directory
         if os.path.exists(os.path.join(directory, phasescreen_name)):
-- 
2.43.0


From 58d3d6b52c75f5d9fdf0bb18073af96bbb287c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:31 +0000
Subject: [PATCH 68/97] fix: do not round the parameters in automatic
 interaction matrix tags

---
 specula/processing_objects/im_calibrator.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/specula/processing_objects/im_calibrator.py b/specula/processing_objects/im_calibrator.py
index 1da4ec4..910a55c 100644
--- a/specula/processing_objects/im_calibrator.py
+++ b/specula/processing_objects/im_calibrator.py
@@ -89,6 +89,10 @@ class ImCalibrator(BaseProcessingObj):
         if slopec is None:
             raise ValueError('SLOPEC must be provided if im_tag is not set')
 
+        def num(value):
+            '''One decimal, or all of them when they would be lost'''
+            return f'{value:.1f}' if np.round(value, 1) == value else f'{value}'
+
         im_tag = 'im'
 
         # WFS related
@@ -122,9 +126,9 @@ class ImCalibrator(BaseProcessingObj):
 
         # SOURCE coordinates
         if source.polar_coordinates[0] != 0:
-            im_tag += f'_coor{source.polar_coordinates[0]:.1f}a{source.polar_coordinates[1]:.1f}d'
+            im_tag += f'_coor{num(source.polar_coordinates[0])}a{num(source.polar_coordinates[1])}d'
         if source.height != float('inf'):
-            im_tag += f'_h{source.height:.1f}m'
+            im_tag += f'_h{num(source.height)}m'
 
         # DM related keys
         im_tag += '_dm'
@@ -145,15 +149,15 @@ class ImCalibrator(BaseProcessingObj):
             im_tag += f'_{pupilstop.tag}'
         else:
             if pupilstop.mask_diam is not None and pupilstop.mask_diam != 1.0:
-                im_tag += f'd{pupilstop.mask_diam:.1f}'
+                im_tag += f'd{num(pupilstop.mask_diam)}'
             if pupilstop.obs_diam is not None and pupilstop.obs_diam != 0.0:
-                im_tag += f'o{pupilstop.obs_diam:.1f}'
+                im_tag += f'o{num(pupilstop.obs_diam)}'
         if pupilstop.shiftXYinPixel.any() != 0.0:
-            im_tag += f'_s{pupilstop.shiftXYinPixel[0]:.1f}x{pupilstop.shiftXYinPixel[1]:.1f}pix'
+            im_tag += f'_s{num(pupilstop.shiftXYinPixel[0])}x{num(pupilstop.shiftXYinPixel[1])}pix'
         if pupilstop.rotInDeg is not None and pupilstop.rotInDeg != 0.0:
-            im_tag += f'_r{pupilstop.rotInDeg:.1f}deg'
+            im_tag += f'_r{num(pupilstop.rotInDeg)}deg'
         if pupilstop.magnification is not None and pupilstop.magnification != 1.0:
-            im_tag += f'_m{pupilstop.magnification:.1f}'
+            im_tag += f'_m{num(pupilstop.magnification)}'
 
         return im_tag
 
-- 
2.43.0


From 3afe28a255877908329f42940a0090612eb48477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:39 +0000
Subject: [PATCH 69/97] fix: load cached kernels in the requested domain

---
 specula/data_objects/convolution_kernel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specula/data_objects/convolution_kernel.py b/specula/data_objects/convolution_kernel.py
index 334571b..5047386 100644
--- a/specula/data_objects/convolution_kernel.py
+++ b/specula/data_objects/convolution_kernel.py
@@ -362,7 +362,7 @@ class ConvolutionKernel(BaseDataObj):
             if os.path.exists(full_path):
                 print(f"Loading kernel from {full_path}")
                 self.restore(full_path, kernel_obj=self, target_device_idx=self.target_device_idx,
-                             return_fft=True)
+                             return_fft=self.return_fft)
             else:
                 print('Calculating kernel...')
                 self.calculate_lgs_map()
-- 
2.43.0


From 929299584b7d0e54fbb32d02b9e5a0ca5d9241bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:39 +0000
Subject: [PATCH 70/97] fix: reload cached Gaussian kernels

---
 specula/data_objects/gaussian_convolution_kernel.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/specula/data_objects/gaussian_convolution_kernel.py b/specula/data_objects/gaussian_convolution_kernel.py
index 8a41d35..cc93276 100644
--- a/specula/data_objects/gaussian_convolution_kernel.py
+++ b/specula/data_objects/gaussian_convolution_kernel.py
@@ -103,6 +103,13 @@ class GaussianConvolutionKernel(ConvolutionKernel):
             kernel_obj.oversampling = hdr['OVERSAMP']
             kernel_obj.positive_shift_tt = hdr['POSTT']
 
+        # Reallocate real_kernels if it was deallocated
+        if kernel_obj.real_kernels is None:
+            kernel_obj.real_kernels = kernel_obj.xp.zeros(
+                (kernel_obj.dimx * kernel_obj.dimy, kernel_obj.dimension, kernel_obj.dimension),
+                dtype=kernel_obj.dtype
+            )
+
         # This code uses an intermediate array to make sure that endianess is correct (FITS is big-endian)
         data = kernel_obj.xp.array(fits.getdata(filename, ext=1), dtype=kernel_obj.dtype)
         kernel_obj.real_kernels[:] = data
-- 
2.43.0


From 2fea8183f8a8c5ec1f892b62be3183b6da56f4af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:21 +0000
Subject: [PATCH 71/97] fix: demodulate the selected modes of one-dimensional
 data

---
 specula/processing_objects/demodulator.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/specula/processing_objects/demodulator.py b/specula/processing_objects/demodulator.py
index aaa07d3..5910f50 100644
--- a/specula/processing_objects/demodulator.py
+++ b/specula/processing_objects/demodulator.py
@@ -56,12 +56,7 @@ class Demodulator(BaseProcessingObj):
         data = self.local_inputs['in_data'].get_value()
 
         # Extract data for the specified modes
-        if data.ndim > 1:
-            # Multi-dimensional data - extract modes
-            mode_data = data[self.mode_numbers]
-        else:
-            # 1D data
-            mode_data = data
+        mode_data = data[self.mode_numbers]
 
         self.data_history.append(mode_data.copy())
         self.time_history.append(t)
-- 
2.43.0


From c111ce4235d99bb3b730536d8d003a1b8d5341ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:21 +0000
Subject: [PATCH 72/97] fix: store the optical gain as a floating point value
 of its own

---
 specula/processing_objects/optical_gain_estimator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/specula/processing_objects/optical_gain_estimator.py b/specula/processing_objects/optical_gain_estimator.py
index 9e3df4a..145c52d 100644
--- a/specula/processing_objects/optical_gain_estimator.py
+++ b/specula/processing_objects/optical_gain_estimator.py
@@ -35,14 +35,14 @@ class OpticalGainEstimator(BaseProcessingObj):
 
         # Internal optical gain storage
         self.optical_gain = BaseValue(
-            value=self.xp.atleast_1d(initial_optical_gain),
+            value=self.xp.atleast_1d(initial_optical_gain).astype(self.dtype),
             target_device_idx=target_device_idx,
             precision=precision
         )
 
         # Output value (can be different from internal optical_gain if using expressions)
         self.output = BaseValue(
-            value=self.xp.atleast_1d(initial_optical_gain),
+            value=self.xp.atleast_1d(initial_optical_gain).astype(self.dtype),
             target_device_idx=target_device_idx,
             precision=precision
         )
-- 
2.43.0


From eba1e71e3f3b1817d81437d9b38ea50e6bb21167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:18 +0000
Subject: [PATCH 73/97] fix: do not share the padding of SH subapertures of
 different size

---
 specula/processing_objects/sh.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/specula/processing_objects/sh.py b/specula/processing_objects/sh.py
index e154f70..2a1814e 100644
--- a/specula/processing_objects/sh.py
+++ b/specula/processing_objects/sh.py
@@ -72,7 +72,7 @@ class SH(BaseProcessingObj):
 
     __zeros_cache = {}
 
-    def _zeros_common(self, shape, dtype):
+    def _zeros_common(self, shape, dtype, used=None):
         """
         Wrapper around self.xp.zeros to enable reuse cache.
         None of the arrays allocated here should be used in 
@@ -84,13 +84,16 @@ class SH(BaseProcessingObj):
             Array shape
         dtype : dtype
             Data type
+        used : tuple, optional
+            Part of the array that is written at each trigger, if not all of it: the rest is
+            expected to stay zero, so that only users of the same part can share the array.
             
         Returns
         -------
         array : ndarray
             Array from cache
         """
-        key = (self.target_device_idx, shape, dtype)
+        key = (self.target_device_idx, shape, dtype, used)
         if key not in self.__zeros_cache:
             self.__zeros_cache[key] = self.xp.zeros(shape, dtype=dtype)
         return self.__zeros_cache[key]
@@ -353,7 +356,8 @@ class SH(BaseProcessingObj):
 
         # Padded subaperture cube extracted from full pupil
         self._wf3 = self._zeros_common((self._lenslet.dimy, fft_size, fft_size),
-                                       dtype=self.complex_dtype)
+                                       dtype=self.complex_dtype,
+                                       used=(self._ovs_np_sub, self._ovs_np_sub))
 
         # Focal plane result from FFT
         fp4_pixel_pitch = self.wavelength_in_nm / 1e9 / (ovs_pixel_pitch * fft_size)
-- 
2.43.0


From ddaa1a241ff2c15a8eddcd2a18b6782f6f6077cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:18 +0000
Subject: [PATCH 74/97] fix: distribute all the rows of a Shack-Hartmann

---
 specula/processing_objects/distributed_sh.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/specula/processing_objects/distributed_sh.py b/specula/processing_objects/distributed_sh.py
index 289678e..773f9ed 100644
--- a/specula/processing_objects/distributed_sh.py
+++ b/specula/processing_objects/distributed_sh.py
@@ -38,8 +38,9 @@ class DistributedSH(SH):
         del args['self']
         del args['__class__']
 
-        # Calculate slices for each SH
-        subaps_per_sh = subap_on_diameter // n_slices
+        # Calculate the first row of each SH: when rows cannot be
+        # divided evenly, some slices have one more than the others
+        first_row = [i * subap_on_diameter // n_slices for i in range(n_slices + 1)]
         del args['n_slices']
 
         # Initialize base class - we do not use the calculation routines,
@@ -48,7 +49,7 @@ class DistributedSH(SH):
 
         self.slices = []
         for i in range(n_slices):
-            self.slices.append(slice( i * subaps_per_sh, (i+1) * subaps_per_sh))
+            self.slices.append(slice(first_row[i], first_row[i+1]))
 
         # Initialize internal SH with the other slices.
         # If using GPUs, each one targets a different device.
-- 
2.43.0


From 5b98bdf5d12061bba18325dc4be0dc2515608709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:27 +0000
Subject: [PATCH 75/97] fix: a linear pyramid modulation can have a single step

---
 specula/processing_objects/modulated_pyramid.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/specula/processing_objects/modulated_pyramid.py b/specula/processing_objects/modulated_pyramid.py
index 35c73e5..6d1a449 100644
--- a/specula/processing_objects/modulated_pyramid.py
+++ b/specula/processing_objects/modulated_pyramid.py
@@ -488,7 +488,11 @@ class ModulatedPyramid(BaseProcessingObj):
             for rotation_idx in range(n_rotations):
                 for tt in range(self.mod_steps):
                     # Linear modulation from -mod_amp to +mod_amp
-                    tilt_value = self.mod_amp * (2 * tt / (self.mod_steps - 1) - 1)
+                    # (a single step stays in the middle)
+                    if self.mod_steps > 1:
+                        tilt_value = self.mod_amp * (2 * tt / (self.mod_steps - 1) - 1)
+                    else:
+                        tilt_value = 0.0
 
                     if self.mod_type == 'horizontal' or (self.mod_type == 'alternating' and rotation_idx == 1):
                         # Horizontal modulation uses tilt_x
-- 
2.43.0


From 2e0eb5f85c5e180a5dbe60d62ed127d87f23199b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:27 +0000
Subject: [PATCH 76/97] fix: pyramids with imperfect edges or tip can be built

---
 specula/processing_objects/modulated_pyramid.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/specula/processing_objects/modulated_pyramid.py b/specula/processing_objects/modulated_pyramid.py
index 6d1a449..4256117 100644
--- a/specula/processing_objects/modulated_pyramid.py
+++ b/specula/processing_objects/modulated_pyramid.py
@@ -404,21 +404,21 @@ class ModulatedPyramid(BaseProcessingObj):
         dx = self.xp.sqrt(xx ** 2)
         dy = self.xp.sqrt(yy ** 2)
         idx_edge = self.xp.where((dx <= self.pyr_edge_def_ld * self.fft_res / 2) | 
-                            (dy <= self.pyr_edge_def_ld * self.fft_res / 2))[0]
-        if len(idx_edge) > 0:
+                            (dy <= self.pyr_edge_def_ld * self.fft_res / 2))
+        if len(idx_edge[0]) > 0:
             pyr_tlt[idx_edge] = self.xp.max(pyr_tlt) * self.xp.random.rand(len(idx_edge[0]))
             print(f'get_pyr_tlt: {len(idx_edge[0])} pixels set to 0 to consider pyramid imperfect edges')
 
         # distance from tip
         d = self.xp.sqrt(xx ** 2 + yy ** 2)
-        idx_tip = self.xp.where(d <= self.pyr_tip_def_ld * self.fft_res / 2)[0]
-        if len(idx_tip) > 0:
+        idx_tip = self.xp.where(d <= self.pyr_tip_def_ld * self.fft_res / 2)
+        if len(idx_tip[0]) > 0:
             pyr_tlt[idx_tip] = self.xp.max(pyr_tlt) * self.xp.random.rand(len(idx_tip[0]))
             print(f'get_pyr_tlt: {len(idx_tip[0])} pixels set to 0 to consider pyramid imperfect tip')
 
         # distance from tip
-        idx_tip_m = self.xp.where(d <= self.pyr_tip_maya_ld * self.fft_res / 2)[0]
-        if len(idx_tip_m) > 0:
+        idx_tip_m = self.xp.where(d <= self.pyr_tip_maya_ld * self.fft_res / 2)
+        if len(idx_tip_m[0]) > 0:
             pyr_tlt[idx_tip_m] = self.xp.min(pyr_tlt[idx_tip_m])
             print(f'get_pyr_tlt: {len(idx_tip_m[0])} pixels set to 0 to consider pyramid imperfect tip')
 
-- 
2.43.0


From 44c60d7d80f7cffc0a1d476b9a55eaf448a82de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:25 +0000
Subject: [PATCH 77/97] fix: polychromatic tilts are measured over the whole
 pupil

---
 specula/processing_objects/poly_chrom_wfs.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/specula/processing_objects/poly_chrom_wfs.py b/specula/processing_objects/poly_chrom_wfs.py
index e7a4ba0..7146185 100644
--- a/specula/processing_objects/poly_chrom_wfs.py
+++ b/specula/processing_objects/poly_chrom_wfs.py
@@ -71,9 +71,10 @@ class PolyChromWFS(BaseProcessingObj):
         unit_tilt_nm = 1 / nm_to_arcsec
 
         # Create linear tilt phase across pupil
-        # Normalize coordinates to [-2, 2] range
-        xx_norm = 2 * xx / max(abs(xx.max()), abs(xx.min()))
-        yy_norm = 2 * yy / max(abs(yy.max()), abs(yy.min()))
+        # Normalize coordinates to [-2, 2] range at the pupil edges
+        # (make_xy() returns pixel centers, half a pixel inside)
+        xx_norm = 2 * xx / in_ef_pixel_pitch
+        yy_norm = 2 * yy / in_ef_pixel_pitch
 
         # Create unit tilt phases in nm (peak to valley of 4*rms)
         # For linear tilt: peak-valley = 4*rms, so we use 2*rms for amplitude
-- 
2.43.0


From 7ad7c859c0320bed5641428aa33068dd0c29287d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:31 +0000
Subject: [PATCH 78/97] fix: masks centred on a pixel stay near the requested
 centre

---
 specula/lib/make_mask.py | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/specula/lib/make_mask.py b/specula/lib/make_mask.py
index d7988e0..66961fa 100644
--- a/specula/lib/make_mask.py
+++ b/specula/lib/make_mask.py
@@ -42,17 +42,14 @@ def make_mask(np_size, obsratio=0.0, diaratio=1.0, xc=0.0, yc=0.0,
 
     # Adjust center if centeronpixel is set
     if centeronpixel:
-        idx_x = closest(xc, x[:, 0], xp=xp)
-        neighbours_x = [abs(x[idx_x-1, 0] - xc), abs(x[idx_x+1, 0] - xc)]
-        idxneigh_x = xp.argmin(xp.array(neighbours_x))
-        kx = -0.5 if idxneigh_x == 0 else 0.5
-        xc = x[idx_x, 0] + kx * (x[1, 0] - x[0, 0])
-
-        idx_y = closest(yc, y[0, :], xp=xp)
-        neighbours_y = [abs(y[0, idx_y-1] - yc), abs(y[0, idx_y+1] - yc)]
-        idxneigh_y = xp.argmin(xp.array(neighbours_y))
-        ky = -0.5 if idxneigh_y == 0 else 0.5
-        yc = y[0, idx_y] + ky * (y[0, 1] - y[0, 0])
+        # x changes along columns and y along rows
+        idx_x = closest(xc, x[0, :], xp=xp)
+        kx = 0.5 if xc > x[0, idx_x] else -0.5
+        xc = x[0, idx_x] + kx * (x[0, 1] - x[0, 0])
+
+        idx_y = closest(yc, y[:, 0], xp=xp)
+        ky = 0.5 if yc > y[idx_y, 0] else -0.5
+        yc = y[idx_y, 0] + ky * (y[1, 0] - y[0, 0])
 
     ir = obsratio
 
-- 
2.43.0


From 08c7bf2750973ee95b9e79ed0e922513efe0ffd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:53 +0000
Subject: [PATCH 79/97] fix: effective wind direction from both wind components

---
 specula/lib/fsoc_lib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specula/lib/fsoc_lib.py b/specula/lib/fsoc_lib.py
index 7f8e039..1997518 100644
--- a/specula/lib/fsoc_lib.py
+++ b/specula/lib/fsoc_lib.py
@@ -44,7 +44,7 @@ def calc_effective_wind_speed(atmo_heights, wind_speed, wind_dir, object_height,
     effective_wind_1 = wind_speed * xp.sin(wind_dir_rad) + speed_at_layer * xp.sin(object_dir_rad)
     effective_wind_2 = wind_speed * xp.cos(wind_dir_rad) + speed_at_layer * xp.cos(object_dir_rad)
     effective_wind_speed = xp.sqrt(effective_wind_1 ** 2 + effective_wind_2 ** 2)
-    effective_wind_dir = xp.arctan(effective_wind_1, effective_wind_2) * 180. / xp.pi
+    effective_wind_dir = xp.arctan2(effective_wind_1, effective_wind_2) * 180. / xp.pi
 
     return effective_wind_speed, effective_wind_dir
 
-- 
2.43.0


From 4c0837f2edb4fa8227fa6be535c1d03e7b00595f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:53 +0000
Subject: [PATCH 80/97] fix: apply the chromatic shift to on-axis sources too

---
 specula/processing_objects/atmo_propagation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/specula/processing_objects/atmo_propagation.py b/specula/processing_objects/atmo_propagation.py
index f513ce6..1c0c3e1 100644
--- a/specula/processing_objects/atmo_propagation.py
+++ b/specula/processing_objects/atmo_propagation.py
@@ -407,6 +407,7 @@ class AtmoPropagation(BaseProcessingObj):
                 if (layer.height == 0 or (np.isinf(source.height) and source.r == 0)) and \
                                 not self.shiftXY_cond[layer] and \
                                 self.pupil_position is None and \
+                                source.chromatic_shifts_m.get(layer, 0.0) == 0 and \
                                 layer.rotInDeg == 0 and \
                                 self.magnification_list[layer] == 1:
                     self.interpolators[source][layer] = None
-- 
2.43.0


From 16ec8774f764be7da8e283693858ec7529895f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:24 +0000
Subject: [PATCH 81/97] fix: the outer working angle of the Lyot coronagraph is
 a radius, like the inner one

---
 specula/processing_objects/lyot_coronagraph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specula/processing_objects/lyot_coronagraph.py b/specula/processing_objects/lyot_coronagraph.py
index 6073f3b..f1a2d4c 100644
--- a/specula/processing_objects/lyot_coronagraph.py
+++ b/specula/processing_objects/lyot_coronagraph.py
@@ -66,7 +66,7 @@ class LyotCoronagraph(Coronagraph):
         if self._knife_edge:
             fp_mask = make_mask(self.fft_totsize, diaratio=1.0, xc=1.0, xp=self.xp, square=True)
         else:
-            owa_oversampled = self._owa * self.fft_res * self.fov_res \
+            owa_oversampled = self._owa * self.fft_res * self.fov_res * 2 \
                               if self._owa is not None else self.fft_totsize
             fp_obsratio = self._iwa * self.fft_res * self.fov_res / owa_oversampled * 2
             fp_diaratio = owa_oversampled / self.fft_totsize
-- 
2.43.0


From 46d7a9c631a36011da85d6ae19855ca1776fee73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:24 +0000
Subject: [PATCH 82/97] fix: put the knife edge of the Lyot coronagraph at the
 requested working angle

---
 specula/processing_objects/lyot_coronagraph.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/specula/processing_objects/lyot_coronagraph.py b/specula/processing_objects/lyot_coronagraph.py
index f1a2d4c..928847a 100644
--- a/specula/processing_objects/lyot_coronagraph.py
+++ b/specula/processing_objects/lyot_coronagraph.py
@@ -64,7 +64,8 @@ class LyotCoronagraph(Coronagraph):
         # Mask centered on the crosshair between 4 pixels
         # coehrent with center_on_pixel=False in the parent class
         if self._knife_edge:
-            fp_mask = make_mask(self.fft_totsize, diaratio=1.0, xc=1.0, xp=self.xp, square=True)
+            xc = 1.0 + 2 * self._fedge * self.fft_res * self.fov_res / self.fft_totsize
+            fp_mask = make_mask(self.fft_totsize, diaratio=1.0, xc=xc, xp=self.xp, square=True)
         else:
             owa_oversampled = self._owa * self.fft_res * self.fov_res * 2 \
                               if self._owa is not None else self.fft_totsize
-- 
2.43.0


From 4f9b2b2d224dac99a35661f90a2dbd8bf29c16d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:40 +0000
Subject: [PATCH 83/97] fix: apply the pupil stop of the PAPL coronagraph, and
 allow its default knife edge mask

---
 specula/processing_objects/apodizer_coronagraph.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/specula/processing_objects/apodizer_coronagraph.py b/specula/processing_objects/apodizer_coronagraph.py
index 10edc51..80816d1 100644
--- a/specula/processing_objects/apodizer_coronagraph.py
+++ b/specula/processing_objects/apodizer_coronagraph.py
@@ -114,7 +114,7 @@ class PAPLCoronagraph(APPCoronagraph):
                              f' {innerStopAsRatioOfPupil*1e+2:1.0f}% of pupil,'
                              f' outer size is {outerStopAsRatioOfPupil*1e+2:1.0f}% of pupil')
 
-        if knife_edge is True and owaInLambdaOverD is not None:
+        if knife_edge is True and fpmOWAInLambdaOverD is not None:
             raise ValueError('OWA cannot be defined for the knife-edge focal plane mask')
 
         self._knife_edge = knife_edge
@@ -151,7 +151,7 @@ class PAPLCoronagraph(APPCoronagraph):
                                 obsratio=fp_obsratio, xp=self.xp)
         return fp_mask
 
-    def make_pupil_stop(self):
+    def make_pupil_plane_mask(self):
         pp_mask = make_mask(self.fft_sampling, diaratio=self._outPupilStop,
                             obsratio=self._inPupilStop, xp=self.xp)
         return pp_mask
-- 
2.43.0


From 1a628ac05eae5cccb8d10092210a8a14839b91e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:40 +0000
Subject: [PATCH 84/97] fix: size the focal plane mask of the PAPL coronagraph
 in lambda/D

---
 specula/processing_objects/apodizer_coronagraph.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/specula/processing_objects/apodizer_coronagraph.py b/specula/processing_objects/apodizer_coronagraph.py
index 80816d1..c5ce678 100644
--- a/specula/processing_objects/apodizer_coronagraph.py
+++ b/specula/processing_objects/apodizer_coronagraph.py
@@ -144,8 +144,8 @@ class PAPLCoronagraph(APPCoronagraph):
             xc = 2*(self._fedge * self.fft_res + self.fft_totsize//2)/ self.fft_totsize
             fp_mask = make_mask(self.fft_totsize, diaratio=1.0, xc=xc, xp=self.xp, square=True)
         else:
-            owa_oversampled = self._owa * self.fft_res if self._owa is not None else self.fft_totsize
-            fp_obsratio = self._iwa / owa_oversampled
+            owa_oversampled = 2 * self._owa * self.fft_res if self._owa is not None else self.fft_totsize
+            fp_obsratio = 2 * self._iwa * self.fft_res / owa_oversampled
             fp_diaratio = owa_oversampled / self.fft_totsize
             fp_mask = make_mask(self.fft_totsize, diaratio=fp_diaratio,
                                 obsratio=fp_obsratio, xp=self.xp)
-- 
2.43.0


From da9771a5d076899dcfeaa236e39af98f317479f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:40 +0000
Subject: [PATCH 85/97] fix: size the dark hole of the APP coronagraph in
 lambda/D for every FFT resolution

---
 specula/processing_objects/apodizer_coronagraph.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/specula/processing_objects/apodizer_coronagraph.py b/specula/processing_objects/apodizer_coronagraph.py
index c5ce678..cf241ae 100644
--- a/specula/processing_objects/apodizer_coronagraph.py
+++ b/specula/processing_objects/apodizer_coronagraph.py
@@ -58,10 +58,10 @@ class APPCoronagraph(Coronagraph):
                             max_its:int=1000):
         target_contrast = self.xp.ones([self.fft_totsize,self.fft_totsize],dtype=self.dtype)
         fp_obsratio = iwa / owa
-        fp_diaratio = (owa * self.fft_res * self.fov_res) / self.fft_sampling
+        fp_diaratio = 2 * owa * self.fft_res / self.fft_totsize
         where = make_mask(self.fft_totsize, diaratio=fp_diaratio, obsratio=fp_obsratio, xp=self.xp)
         if symmetric_dark_hole is False:
-            xc = (iwa * self.fft_res * self.fov_res)/ self.fft_sampling + 1.0
+            xc = 2 * iwa * self.fft_res / self.fft_totsize + 1.0
             left = make_mask(self.fft_totsize, diaratio=1.0, xc=xc, xp=self.xp, square=True)
             where = self.xp.logical_and(where,left)
         target_contrast[where.astype(bool)] = contrast
-- 
2.43.0


From 27acb9396b3a78ea6ef2ff65d1e20b4b4e7b0f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:40 +0000
Subject: [PATCH 86/97] fix: the inner pupil stop of a coronagraph is a ratio
 of the pupil, not of the outer stop

---
 specula/processing_objects/apodizer_coronagraph.py      | 2 +-
 specula/processing_objects/four_quadrant_coronagraph.py | 2 +-
 specula/processing_objects/lyot_coronagraph.py          | 2 +-
 specula/processing_objects/vortex_coronagraph.py        | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/specula/processing_objects/apodizer_coronagraph.py b/specula/processing_objects/apodizer_coronagraph.py
index cf241ae..e2e681f 100644
--- a/specula/processing_objects/apodizer_coronagraph.py
+++ b/specula/processing_objects/apodizer_coronagraph.py
@@ -153,7 +153,7 @@ class PAPLCoronagraph(APPCoronagraph):
 
     def make_pupil_plane_mask(self):
         pp_mask = make_mask(self.fft_sampling, diaratio=self._outPupilStop,
-                            obsratio=self._inPupilStop, xp=self.xp)
+                            obsratio=self._inPupilStop / self._outPupilStop, xp=self.xp)
         return pp_mask
 
 
diff --git a/specula/processing_objects/four_quadrant_coronagraph.py b/specula/processing_objects/four_quadrant_coronagraph.py
index 3d72e91..e142006 100644
--- a/specula/processing_objects/four_quadrant_coronagraph.py
+++ b/specula/processing_objects/four_quadrant_coronagraph.py
@@ -65,6 +65,6 @@ class FourQuadrantCoronagraph(Coronagraph):
 
     def make_pupil_plane_mask(self):
         pp_mask = make_mask(self.fft_sampling, diaratio=self._outPupilStop,
-                            obsratio=self._inPupilStop, xp=self.xp)
+                            obsratio=self._inPupilStop / self._outPupilStop, xp=self.xp)
         return pp_mask
     
\ No newline at end of file
diff --git a/specula/processing_objects/lyot_coronagraph.py b/specula/processing_objects/lyot_coronagraph.py
index 928847a..dfa2666 100644
--- a/specula/processing_objects/lyot_coronagraph.py
+++ b/specula/processing_objects/lyot_coronagraph.py
@@ -77,5 +77,5 @@ class LyotCoronagraph(Coronagraph):
 
     def make_pupil_plane_mask(self):
         pp_mask = make_mask(self.fft_sampling, diaratio=self._outPupilStop,
-                            obsratio=self._inPupilStop, xp=self.xp)
+                            obsratio=self._inPupilStop / self._outPupilStop, xp=self.xp)
         return pp_mask
diff --git a/specula/processing_objects/vortex_coronagraph.py b/specula/processing_objects/vortex_coronagraph.py
index 62f70b3..dedccdc 100644
--- a/specula/processing_objects/vortex_coronagraph.py
+++ b/specula/processing_objects/vortex_coronagraph.py
@@ -73,6 +73,6 @@ class VortexCoronagraph(Coronagraph):
 
     def make_pupil_plane_mask(self):
         pp_mask = make_mask(self.fft_sampling, diaratio=self._outPupilStop,
-                            obsratio=self._inPupilStop, xp=self.xp)
+                            obsratio=self._inPupilStop / self._outPupilStop, xp=self.xp)
         return pp_mask
     
\ No newline at end of file
-- 
2.43.0


From bdc56109051503dfc6c9b6085a380bdd080ec707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:00 +0000
Subject: [PATCH 87/97] fix: keep the size and distance of the pyramid pupils
 when the FFT frame is enlarged

---
 specula/processing_objects/modulated_pyramid.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/specula/processing_objects/modulated_pyramid.py b/specula/processing_objects/modulated_pyramid.py
index 4256117..83f3e26 100644
--- a/specula/processing_objects/modulated_pyramid.py
+++ b/specula/processing_objects/modulated_pyramid.py
@@ -341,7 +341,9 @@ class ModulatedPyramid(BaseProcessingObj):
         fft_res = internal_ccd_side / float(pup_diam)
         fft_res_min = (pup_dist + pup_diam) / pup_diam * 1.1
         if fft_res < fft_res_min:
-            fft_res = fft_res_min
+            # More room around the pupils: the detector scale must follow
+            internal_ccd_side = int(self.xp.ceil(fft_res_min * pup_diam / 2) * 2)
+            fft_res = internal_ccd_side / float(pup_diam)
 
         result = calc_geometry(
             DpupPix,
-- 
2.43.0


From 8965c16c1df28b17297da63247972a9e83fb236a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:00 +0000
Subject: [PATCH 88/97] fix: do not count the focal plane of the double roof
 twice

---
 specula/processing_objects/modulated_double_roof.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/specula/processing_objects/modulated_double_roof.py b/specula/processing_objects/modulated_double_roof.py
index 1ac9f05..8631060 100644
--- a/specula/processing_objects/modulated_double_roof.py
+++ b/specula/processing_objects/modulated_double_roof.py
@@ -182,6 +182,9 @@ class ModulatedDoubleRoof(ModulatedPyramid):
             pyr_ef_roof2 = self.xp.fft.ifft2(u_fp_roof2, axes=(-2, -1), norm='forward')
             self.roof2_image += pyr1_abs2(pyr_ef_roof2, self.ifft_norm, self.ffv[i], xp=self.xp)
 
+        # Both roofs accumulate the same focal plane
+        self.fpsf *= 0.5
+
         self.roof1_image[:] = self.xp.roll(self.roof1_image, self.roll_array, self.roll_axis)
         self.roof2_image[:] = self.xp.roll(self.roof2_image, self.roll_array, self.roll_axis)
 
-- 
2.43.0


From b84a2713f19a15c158baec414f67499474de37b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:04 +0000
Subject: [PATCH 89/97] fix: load the dark frame asked for

---
 specula/processing_objects/dynamic_dark_calibrator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specula/processing_objects/dynamic_dark_calibrator.py b/specula/processing_objects/dynamic_dark_calibrator.py
index 44bb5c4..c15ba4e 100644
--- a/specula/processing_objects/dynamic_dark_calibrator.py
+++ b/specula/processing_objects/dynamic_dark_calibrator.py
@@ -202,7 +202,7 @@ class DynamicDarkCalibrator(BaseProcessingObj):
                 if not filename.endswith('.fits'):
                     filename += '.fits'
                 fullpath = os.path.join(self.data_dir, filename)
-                self.darkframe.restore(fullpath)
+                self.darkframe.set_value(Pixels.restore(fullpath).pixels)
                 self.darkframe.generation_time = self.current_time
         except Exception as e:
             print(f'Exception: {type(e).__name__}: {e}')
-- 
2.43.0


From 0221301b5b9b2da367fd01581d454d15ba5b5303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:04 +0000
Subject: [PATCH 90/97] fix: average the frames of one dark acquisition only

---
 specula/processing_objects/dynamic_dark_calibrator.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/specula/processing_objects/dynamic_dark_calibrator.py b/specula/processing_objects/dynamic_dark_calibrator.py
index c15ba4e..65279c7 100644
--- a/specula/processing_objects/dynamic_dark_calibrator.py
+++ b/specula/processing_objects/dynamic_dark_calibrator.py
@@ -99,6 +99,7 @@ class DynamicDarkCalibrator(BaseProcessingObj):
         self.overwrite = overwrite
         self.integrated_pixels = None
         self.counter = 0
+        self.nframes_integrated = nframes
 
         # Inputs
         self.inputs['in_pixels'] = InputValue(type=Pixels)
@@ -168,7 +169,7 @@ class DynamicDarkCalibrator(BaseProcessingObj):
         self.counter -= 1
 
         if self.counter == 0:
-            self.darkframe.pixels[:] = (self.integrated_pixels / self.nframes).astype(self.darkframe.pixels.dtype)
+            self.darkframe.pixels[:] = (self.integrated_pixels / self.nframes_integrated).astype(self.darkframe.pixels.dtype)
             self.darkframe.generation_time = self.current_time
             self.integrated_pixels *= 0
 
@@ -179,6 +180,8 @@ class DynamicDarkCalibrator(BaseProcessingObj):
         input_trigger = self.local_inputs['in_trigger']
         if input_trigger is not None and input_trigger.generation_time == self.current_time:
             self.counter = self.nframes
+            self.nframes_integrated = self.nframes
+            self.integrated_pixels *= 0
 
         input_reset = self.local_inputs['in_reset']
         if input_reset is not None and input_reset.generation_time == self.current_time:
-- 
2.43.0


From d7edbf70eadb61683c5751d36007e2bcf21d6ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:25 +0000
Subject: [PATCH 91/97] fix: refuse null and negative integration times of the
 dynamic pupil calibrator

---
 specula/processing_objects/dynamic_pyr_pupdata_calibrator.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/specula/processing_objects/dynamic_pyr_pupdata_calibrator.py b/specula/processing_objects/dynamic_pyr_pupdata_calibrator.py
index 2bb117e..338da69 100644
--- a/specula/processing_objects/dynamic_pyr_pupdata_calibrator.py
+++ b/specula/processing_objects/dynamic_pyr_pupdata_calibrator.py
@@ -127,7 +127,10 @@ class DynamicPyrPupdataCalibrator(PyrPupdataCalibrator):
             # Use float() to accept string values as well
             input_dt = self.local_inputs['in_dt']
             if input_dt is not None and input_dt.generation_time == self.current_time:
-                self.dt = self.seconds_to_t(float(input_dt.value))
+                dt = float(input_dt.value)
+                if dt <= 0:
+                    raise ValueError(f'dt (integration time) is {dt} and must be greater than zero')
+                self.dt = self.seconds_to_t(dt)
         except Exception as e:
             print(f'Exception: {type(e).__name__}: {e}')
 
-- 
2.43.0


From 293ab125c5b8da1f754b9f44fbba4aebceb5607e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:25 +0000
Subject: [PATCH 92/97] fix: update the output tag of the dynamic pupil
 calibrator

---
 specula/processing_objects/dynamic_pyr_pupdata_calibrator.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/specula/processing_objects/dynamic_pyr_pupdata_calibrator.py b/specula/processing_objects/dynamic_pyr_pupdata_calibrator.py
index 338da69..1f7d6eb 100644
--- a/specula/processing_objects/dynamic_pyr_pupdata_calibrator.py
+++ b/specula/processing_objects/dynamic_pyr_pupdata_calibrator.py
@@ -148,6 +148,10 @@ class DynamicPyrPupdataCalibrator(PyrPupdataCalibrator):
         except Exception as e:
             print(f'Exception: {type(e).__name__}: {e}')
 
+        input_tag = self.local_inputs['in_output_tag']
+        if input_tag is not None and input_tag.generation_time == self.current_time:
+            self.filename = str(input_tag.value)
+
     def trigger_code(self):
 
         try:
-- 
2.43.0


From f7c0ce8d47417699a57d2768f1a734df71c0551c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:25 +0000
Subject: [PATCH 93/97] fix: let the dynamic pupil calibrator run on every
 frame

---
 specula/processing_objects/dynamic_pyr_pupdata_calibrator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specula/processing_objects/dynamic_pyr_pupdata_calibrator.py b/specula/processing_objects/dynamic_pyr_pupdata_calibrator.py
index 1f7d6eb..32c94ce 100644
--- a/specula/processing_objects/dynamic_pyr_pupdata_calibrator.py
+++ b/specula/processing_objects/dynamic_pyr_pupdata_calibrator.py
@@ -171,7 +171,7 @@ class DynamicPyrPupdataCalibrator(PyrPupdataCalibrator):
 
         # Update output params with current values
         self.outputs['out_params'].value = {
-            'dt': self.t_to_seconds(self.dt),
+            'dt': self.t_to_seconds(self.dt) if self.dt is not None else None,
             'thr1': self.thr1,
             'thr2': self.thr2,
             'status': self.status_string,
-- 
2.43.0


From c628b00d2a45fdb73ab28bf90242d7872c75eb78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:55 +0000
Subject: [PATCH 94/97] fix: count the pixels without slope in the mean of the
 ideal derivative sensor

---
 specula/processing_objects/ideal_derivative_sensor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/specula/processing_objects/ideal_derivative_sensor.py b/specula/processing_objects/ideal_derivative_sensor.py
index 3001ccf..41c6e58 100644
--- a/specula/processing_objects/ideal_derivative_sensor.py
+++ b/specula/processing_objects/ideal_derivative_sensor.py
@@ -200,8 +200,8 @@ class IdealDerivativeSensor(BaseProcessingObj):
         dx_all = dx_all * subap_masks
         dy_all = dy_all * subap_masks
 
-        # Find valid pixels (non-zero derivatives) for all subapertures
-        valid_masks = ((self.xp.abs(dx_all) + self.xp.abs(dy_all)) > 0) & subap_masks
+        # Find valid pixels (inside the pupil) for all subapertures
+        valid_masks = mask.ravel()[subap_indices_matrix] & subap_masks
 
         # Vectorized mean computation
         # Set invalid pixels to 0 for mean calculation
-- 
2.43.0


From f4a4d2e9da69cc93dd324ef9e8087311d5be8a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:53 +0000
Subject: [PATCH 95/97] fix: rotate the pupil mask of the CiaoCiao slopes in
 the direction of the sensor

---
 specula/processing_objects/ciao_ciao_slopec.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/specula/processing_objects/ciao_ciao_slopec.py b/specula/processing_objects/ciao_ciao_slopec.py
index 5f5118e..867c11f 100644
--- a/specula/processing_objects/ciao_ciao_slopec.py
+++ b/specula/processing_objects/ciao_ciao_slopec.py
@@ -76,7 +76,7 @@ class CiaoCiaoSlopec(Slopec):
             mask = self.to_xp(pupil_mask.A, dtype=self.dtype) > 0.5
             if self.diffRotAngleInDeg != 0.0:
                 interp = Interp2D(mask.shape, mask.shape,
-                                  rotInDeg=self.diffRotAngleInDeg,
+                                  rotInDeg=-self.diffRotAngleInDeg,  # As in EFInterpolator
                                   dtype=self.dtype, xp=self.xp)
                 rotated = interp.interpolate(mask.astype(self.dtype)) > 0.5
                 mask = mask & rotated
@@ -127,7 +127,7 @@ class CiaoCiaoSlopec(Slopec):
                 rotate_interp = Interp2D(
                     shape,
                     shape,
-                    rotInDeg=self.diffRotAngleInDeg,
+                    rotInDeg=-self.diffRotAngleInDeg,  # As in EFInterpolator
                     dtype=self.dtype,
                     xp=self.xp,
                 )
-- 
2.43.0


From 65da4a91d188755e17c3d05884d3f2388f42a34f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:53 +0000
Subject: [PATCH 96/97] fix: centre the sideband of CiaoCiao interferograms of
 odd size

---
 specula/processing_objects/ciao_ciao_slopec.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/specula/processing_objects/ciao_ciao_slopec.py b/specula/processing_objects/ciao_ciao_slopec.py
index 867c11f..44394ae 100644
--- a/specula/processing_objects/ciao_ciao_slopec.py
+++ b/specula/processing_objects/ciao_ciao_slopec.py
@@ -161,12 +161,12 @@ class CiaoCiaoSlopec(Slopec):
 
         # 4. Roll / Shift the sideband to the center
         shape = pixels.shape
-        shift_y = int(self.xp.rint(shape[0] / 2 - self.window_y))
-        shift_x = int(self.xp.rint(shape[1] / 2 - self.window_x))
+        shift_y = int(self.xp.rint(shape[0] // 2 - self.window_y))
+        shift_x = int(self.xp.rint(shape[1] // 2 - self.window_x))
         ft_roll = self.xp.roll(ft_filtered, (shift_y, shift_x), axis=(0, 1))
 
         # 5. Inverse FFT
-        intensity_filtered = self.xp.fft.ifft2(self.xp.fft.fftshift(ft_roll))
+        intensity_filtered = self.xp.fft.ifft2(self.xp.fft.ifftshift(ft_roll))
 
         # 6. Phase extraction
         phase = self.xp.arctan2(intensity_filtered.imag, intensity_filtered.real)
-- 
2.43.0


From 3455f50d17fcc113e6f6a77142b9dbcc793b72a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:26 +0000
Subject: [PATCH 97/97] fix: do not let both arms of the CiaoCiao sensor share
 one interpolated field

---
 specula/processing_objects/ciao_ciao_sensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specula/processing_objects/ciao_ciao_sensor.py b/specula/processing_objects/ciao_ciao_sensor.py
index 876a7a3..cee5448 100644
--- a/specula/processing_objects/ciao_ciao_sensor.py
+++ b/specula/processing_objects/ciao_ciao_sensor.py
@@ -190,7 +190,7 @@ class CiaoCiaoSensor(BaseProcessingObj):
             xShiftPhInPixel=self.xShiftDiffPhInPixel,
             yShiftPhInPixel=self.yShiftDiffPhInPixel,
             magnification=self.magnificationDiff,
-            use_out_ef_cache=True,
+            use_out_ef_cache=False,  # The cached field is the input one
             target_device_idx=self.target_device_idx,
             precision=self.precision
         )
-- 
2.43.0

