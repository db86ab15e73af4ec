From ed3debaa49f91d011f83bacb78d353fdd47ceb66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:09 +0000
Subject: [PATCH 01/32] fix: G92 with a nonzero value must not move the machine

G92 redefines the logical coordinate; the offset between logical and machine
coordinates is therefore old logical + old offset - new logical. The new value
was added instead, so any G92 with a nonzero argument displaced the machine
position by twice that value.
---
 pyGCodeDecode/state_generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyGCodeDecode/state_generator.py b/pyGCodeDecode/state_generator.py
index fc370c8..d75bded 100644
--- a/pyGCodeDecode/state_generator.py
+++ b/pyGCodeDecode/state_generator.py
@@ -310,7 +310,7 @@ def dict_list_traveler(line_dict_list: List[dict], initial_machine_setup: dict)
             for key in line_dict["G92"]:
                 if key in known_commands["G92"]:
                     virtual_machine["_" + key] = (
-                        virtual_machine[key] + line_dict["G92"][key] + virtual_machine["_" + key]
+                        virtual_machine[key] - line_dict["G92"][key] + virtual_machine["_" + key]
                     )
                     virtual_machine[key] = line_dict["G92"][key]
 
-- 
2.43.0


From f5187260ee49b3df7a606950bfbc0300bc47fceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:38 +0000
Subject: [PATCH 02/32] fix: apply G20 (inch units) to coordinates, extrusion
 and feedrates

G20 is documented as fully supported but was only recorded in the settings, so
programs in inches were simulated as if their numbers were millimeters.
---
 pyGCodeDecode/state_generator.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyGCodeDecode/state_generator.py b/pyGCodeDecode/state_generator.py
index d75bded..46f9770 100644
--- a/pyGCodeDecode/state_generator.py
+++ b/pyGCodeDecode/state_generator.py
@@ -282,6 +282,9 @@ def dict_list_traveler(line_dict_list: List[dict], initial_machine_setup: dict)
             virtual_machine["units"] = "inch"
         if "G21" in line_dict:
             virtual_machine["units"] = "SImm"
+        if virtual_machine["units"] == "inch":  # machine coordinates are stored in mm
+            for command in {"G0", "G1", "G92"} & line_dict.keys():
+                line_dict = {**line_dict, command: {key: 25.4 * arg for key, arg in line_dict[command].items()}}
 
         # position & velocity
         pos_keys = ["X", "Y", "Z"]
-- 
2.43.0


From 65f8aca6caefcc73441d8eb5f31b17d96ec0aee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:06 +0000
Subject: [PATCH 03/32] fix: get_values must not depend on earlier queries

The cursor-optimized search closed segments on the right while the full search
left them open, so the velocity returned at a segment boundary depended on the
query before it, and asking for the end time first raised a TypeError.
---
 pyGCodeDecode/gcode_interpreter.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyGCodeDecode/gcode_interpreter.py b/pyGCodeDecode/gcode_interpreter.py
index 7f91066..7afb5ab 100644
--- a/pyGCodeDecode/gcode_interpreter.py
+++ b/pyGCodeDecode/gcode_interpreter.py
@@ -135,6 +135,8 @@ def find_current_segment(path: List[segment], t: float, last_index: int = None,
         if path[-1].t_end < t:
             custom_print("No movement at this time in Path!")
             return None, None
+        elif path[-1].t_end == t:
+            return path[-1], len(path) - 1  # the very end belongs to the last segment
         elif last_index is None or len(path) - 1 < last_index or path[last_index].t_begin > t:
             # custom_print(f"unoptimized Search, last index: {last_index}")
             for last_index, segm in enumerate(path):
@@ -142,7 +144,7 @@ def find_current_segment(path: List[segment], t: float, last_index: int = None,
                     return segm, last_index
         else:
             for id, segm in enumerate(path[last_index:]):
-                if t >= segm.t_begin and t <= segm.t_end:
+                if t >= segm.t_begin and t < segm.t_end:
                     return segm, last_index + id
             raise ValueError("nothing found")
 
-- 
2.43.0


From d1014d398b8e630e611bca6674dc8ad6ab773e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:32 +0000
Subject: [PATCH 04/32] fix: a junction velocity above the target velocity by
 rounding crashed the planner

The junction velocity is a vector norm and can exceed the target velocity by a
few ulp. The closing ramp then got a negative duration and the simulation was
aborted with a RuntimeError. Limit it like the entry velocity already is.
---
 pyGCodeDecode/planner_block.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyGCodeDecode/planner_block.py b/pyGCodeDecode/planner_block.py
index 9c43909..1956a5d 100644
--- a/pyGCodeDecode/planner_block.py
+++ b/pyGCodeDecode/planner_block.py
@@ -156,6 +156,7 @@ class planner_block:
         v_target = settings.speed
         v_begin = previous_segment.vel_end.get_norm()
         v_begin = v_begin if v_begin < v_target else v_target
+        v_end = v_end if v_end < v_target else v_target
 
         # calculate min travel for trapezoidal shape, if sum larger than distance, regular movement pattern is possible
         travel_ramp_up = (v_target - v_begin) * (v_begin + v_target) / (2 * acc)
-- 
2.43.0


From e3d88865043e8500d44761a7fd3fcfc28688260e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:32 +0000
Subject: [PATCH 05/32] fix: setup.get_dict must not hand out the preset
 dictionary itself

A simulation kept a reference to the dictionary of its setup, so changing the
setup afterwards (properties, initial position, layer cue) silently changed the
firmware used by refresh() and the outcome of the reports of simulations that
had already been run.
---
 pyGCodeDecode/gcode_interpreter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyGCodeDecode/gcode_interpreter.py b/pyGCodeDecode/gcode_interpreter.py
index 7afb5ab..a226210 100644
--- a/pyGCodeDecode/gcode_interpreter.py
+++ b/pyGCodeDecode/gcode_interpreter.py
@@ -913,7 +913,7 @@ class setup:
         Returns:
             return_dict: (dict) setup dictionary
         """
-        return_dict = self.setup_dict[self.printer_select]  # create dict
+        return_dict = dict(self.setup_dict[self.printer_select])  # create dict, independent of the presets
         return_dict.update(self.initial_position)  # add initial position
         if self.layer_cue is not None:
             return_dict.update({"layer_cue": self.layer_cue})  # add layer cue
-- 
2.43.0


From 85f2f0ce81a4f8e48ba1edc54ea7cc1c3b3b1b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:32 +0000
Subject: [PATCH 06/32] fix: close the presets file after loading, also on
 failure

---
 pyGCodeDecode/gcode_interpreter.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pyGCodeDecode/gcode_interpreter.py b/pyGCodeDecode/gcode_interpreter.py
index a226210..9415908 100644
--- a/pyGCodeDecode/gcode_interpreter.py
+++ b/pyGCodeDecode/gcode_interpreter.py
@@ -844,9 +844,8 @@ class setup:
         import yaml
         from yaml import Loader
 
-        file = open(file=filepath)
-
-        setup_dict = yaml.load(file, Loader=Loader)
+        with open(file=filepath) as file:
+            setup_dict = yaml.load(file, Loader=Loader)
         return setup_dict
 
     def select_printer(self, printer_name):
-- 
2.43.0


From 99d9b4cc25ee3bac9751a2e2a766ad753ac1a866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:50 +0000
Subject: [PATCH 07/32] fix: refresh must replace the results only when
 planning succeeded

A refresh that failed or was interrupted left new states with old blocks, or
blocks that had not been self-corrected, and readers in other threads could see
the uncorrected blocks.
---
 pyGCodeDecode/gcode_interpreter.py | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/pyGCodeDecode/gcode_interpreter.py b/pyGCodeDecode/gcode_interpreter.py
index 9415908..835215e 100644
--- a/pyGCodeDecode/gcode_interpreter.py
+++ b/pyGCodeDecode/gcode_interpreter.py
@@ -568,15 +568,20 @@ class simulation:
         plt.close()
         return fig
 
-    def trajectory_self_correct(self):
-        """Self correct all blocks in the blocklist with self_correction() method."""
-        n_max = len(self.blocklist)
+    def trajectory_self_correct(self, blocklist: List[planner_block] = None):
+        """Self correct all blocks in the blocklist with self_correction() method.
+
+        Args:
+            blocklist: (list[planner_block], default = None) blocks to correct, the simulation's own if None is provided
+        """
+        blocklist = self.blocklist if blocklist is None else blocklist
+        n_max = len(blocklist)
         last_progress_update = 0
 
-        for n, block in enumerate(self.blocklist):
+        for n, block in enumerate(blocklist):
             progress = round(n / n_max, ndigits=3)
             if progress > last_progress_update:
-                update_progress((n + 1) / len(self.blocklist), name="Block Correction")
+                update_progress((n + 1) / len(blocklist), name="Block Correction")
                 last_progress_update = progress
 
             block.self_correction()
@@ -691,13 +696,14 @@ class simulation:
         Args:
             new_state_list: (list[state], default = None) new list of states, if None is provided, existing states get resimulated
         """
-        if new_state_list is not None:
-            self.states = new_state_list
+        states = self.states if new_state_list is None else new_state_list
 
-        self.blocklist: List[planner_block] = generate_planner_blocks(
-            states=self.states, firmware=self.initial_machine_setup["firmware"]
+        # plan completely before replacing anything, so a failure leaves the previous results intact
+        blocklist: List[planner_block] = generate_planner_blocks(
+            states=states, firmware=self.initial_machine_setup["firmware"]
         )
-        self.trajectory_self_correct()
+        self.trajectory_self_correct(blocklist=blocklist)
+        self.states, self.blocklist = states, blocklist
 
     def extrusion_extent(self, output_unit_system: str = None) -> np.ndarray:
         """Return scaled xyz min & max while extruding.
-- 
2.43.0


From c811927dd9f68016259157de15deff97d2e88bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:26 +0000
Subject: [PATCH 08/32] fix: save_layer_metrics must not leave the process with
 another locale

The locale also selects the default encoding of files opened later, so exporting
layer metrics could make reading the next G-code file fail.
---
 pyGCodeDecode/tools.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/pyGCodeDecode/tools.py b/pyGCodeDecode/tools.py
index ac79908..93cd7bc 100644
--- a/pyGCodeDecode/tools.py
+++ b/pyGCodeDecode/tools.py
@@ -1,5 +1,6 @@
 """Tools for pyGCD."""
 
+import functools
 import locale as loc
 import pathlib
 from typing import Optional
@@ -11,6 +12,21 @@ from pyGCodeDecode.gcode_interpreter import simulation
 from pyGCodeDecode.helpers import custom_print
 
 
+def _restore_locale(function):
+    """Restore the locale of the process when the decorated function ends."""
+
+    @functools.wraps(function)
+    def wrapper(*args, **kwargs):
+        previous_locale = loc.setlocale(loc.LC_ALL)
+        try:
+            return function(*args, **kwargs)
+        finally:
+            loc.setlocale(loc.LC_ALL, previous_locale)
+
+    return wrapper
+
+
+@_restore_locale
 def save_layer_metrics(
     simulation: simulation,
     filepath: Optional[pathlib.Path] = pathlib.Path("./layer_metrics.csv"),
-- 
2.43.0


From 26ca512df94cec584fa592a4c7de95bb3095eae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:01 +0000
Subject: [PATCH 09/32] fix: layer metrics must account for the whole print

The travel of the last block was never added, and a last block that begins a new
layer was dropped altogether with its duration and travel.
---
 pyGCodeDecode/tools.py | 34 ++++++++++++++++------------------
 1 file changed, 16 insertions(+), 18 deletions(-)

diff --git a/pyGCodeDecode/tools.py b/pyGCodeDecode/tools.py
index 93cd7bc..f471d21 100644
--- a/pyGCodeDecode/tools.py
+++ b/pyGCodeDecode/tools.py
@@ -62,37 +62,35 @@ def save_layer_metrics(
     last_layer_time = 0
     travel = 0
 
+    def finish_layer(duration):
+        average_speed = travel / duration if duration != 0 else "NaN"
+
+        layers.append(current_layer)
+        durations.append(duration)
+        travel_distances.append(travel)
+        avg_speeds.append(average_speed)
+
     for block in simulation.blocklist:
-        last_block_of_layer = False
         next_layer = block.state_B.layer
 
         # calculate the duration of the block
         if next_layer > current_layer:  # layer switch in this block
-            last_block_of_layer = True
             block_begin = block.segments[0].t_begin
             duration = block_begin - last_layer_time
-        elif block.next_block is None:  # last block of the print
-            last_block_of_layer = True
-            block_end = block.segments[-1].t_end
-            duration = block_end - last_layer_time
-
-        if last_block_of_layer:
-            average_speed = travel / duration if duration != 0 else "NaN"
-
-            layers.append(current_layer)
-            durations.append(duration)
-            travel_distances.append(travel)
-            avg_speeds.append(average_speed)
+            finish_layer(duration)
 
             # set variables for next layer
-            if next_layer > current_layer:
-                travel = 0
-                last_layer_time = block_begin
-                current_layer = next_layer
+            travel = 0
+            last_layer_time = block_begin
+            current_layer = next_layer
 
         # add travel distance of current block
         travel += block.get_block_travel()
 
+    # the last layer ends with the last block of the print
+    block_end = simulation.blocklist[-1].segments[-1].t_end
+    finish_layer(block_end - last_layer_time)
+
     # write the layer info to a csv if a filepath is given
     if filepath is not None:
         # create directory if necessary
-- 
2.43.0


From 664562d062ace500917798f4d93fd2a063aabb1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:26 +0000
Subject: [PATCH 10/32] fix: submodel times lost crossings to rounding and
 failed without any crossing

The intersection point could end up an ulp outside of the control volume and was
then dropped, and a path that never crosses the volume raised an IndexError.
---
 pyGCodeDecode/tools.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyGCodeDecode/tools.py b/pyGCodeDecode/tools.py
index f471d21..e562aba 100644
--- a/pyGCodeDecode/tools.py
+++ b/pyGCodeDecode/tools.py
@@ -236,7 +236,8 @@ def write_submodel_times(
             fac = -np.dot(p_no, w) / dot
             u = u * fac
             if fac >= 0 and fac <= 1:
-                return p0 + u, np.linalg.norm(u), True if dot < 0 else False
+                isec = np.where(p_no != 0, p_co, p0 + u)  # lies exactly in the (axis aligned) plane, despite rounding
+                return isec, np.linalg.norm(u), True if dot < 0 else False
 
         # The segment is parallel to plane.
         return None, None, None
@@ -266,7 +267,7 @@ def write_submodel_times(
                 if isec is not None and point_inside(p_eval=point_eval(isec, control_volume.get_plane_lim())):
                     timetable.append([float(block.inverse_time_at_pos(s_len)), sgn])
 
-    timetable = np.asarray(timetable)  # convert list to array for sorting
+    timetable = np.asarray(timetable, dtype=float).reshape(-1, 2)  # convert (possibly empty) list to array for sorting
     timetable = timetable[timetable[:, 0].argsort()]  # sort array by first column
 
     time_in = timetable[:, 0][np.asarray(timetable[:, 1], dtype=bool)]  # filter the data for entering the CV
-- 
2.43.0


From 34acef1d49653a01a4d61b17224880656ced48a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:41 +0000
Subject: [PATCH 11/32] fix: submodel times in decelerating segments were
 mapped with the wrong acceleration

---
 pyGCodeDecode/utils.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/pyGCodeDecode/utils.py b/pyGCodeDecode/utils.py
index 5405adb..c85cb98 100644
--- a/pyGCodeDecode/utils.py
+++ b/pyGCodeDecode/utils.py
@@ -466,14 +466,12 @@ class segment:
             return slope * t + scalar_begin
 
         def get_time(x):
-            a = (self.vel_end - self.vel_begin).get_norm() / (self.t_end - self.t_begin)
-            if a > 0:
-                v_sq = 2 * a * x + self.vel_begin.get_norm() ** 2
-                t = (np.sqrt(v_sq) - self.vel_begin.get_norm()) / a if v_sq > 0 else 0
-                if v_sq <= 0:
-                    raise ValueError("Could not map time dependant scalar to space.")
-            elif a == 0:
-                t = x / self.vel_begin.get_norm()
+            a = (self.vel_end.get_norm() - self.vel_begin.get_norm()) / (self.t_end - self.t_begin)  # < 0: deceleration
+            v_sq = 2 * a * x + self.vel_begin.get_norm() ** 2
+            if v_sq < 0 and not np.isclose(v_sq, 0.0):
+                raise ValueError("Could not map time dependant scalar to space.")
+            v_sum = self.vel_begin.get_norm() + np.sqrt(max(v_sq, 0.0))
+            t = 2 * x / v_sum if v_sum > 0 else 0.0  # distance over average velocity
             return t
 
         t = get_time(x)
-- 
2.43.0


From a52feea89c3d15e303397b7ef1fbf1e5ffa762a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:08 +0000
Subject: [PATCH 12/32] fix: a dwell before the first move crashed the planner

---
 pyGCodeDecode/planner_block.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/pyGCodeDecode/planner_block.py b/pyGCodeDecode/planner_block.py
index 1956a5d..1b8e4d8 100644
--- a/pyGCodeDecode/planner_block.py
+++ b/pyGCodeDecode/planner_block.py
@@ -328,12 +328,17 @@ class planner_block:
         # dwell functionality
         if self.state_B.pause is not None:
             self.JD = [0, 0, 0, 0]
+            previous_segment = (
+                self.prev_block.segments[-1]
+                if self.prev_block is not None
+                else segment.create_initial(initial_position=self.state_A.state_position)
+            )
             self.segments = [
                 segment(
-                    t_begin=self.prev_block.segments[-1].t_end,
-                    t_end=self.prev_block.segments[-1].t_end + self.state_B.pause,
-                    pos_begin=self.prev_block.segments[-1].pos_end,
-                    pos_end=self.prev_block.segments[-1].pos_end,
+                    t_begin=previous_segment.t_end,
+                    t_end=previous_segment.t_end + self.state_B.pause,
+                    pos_begin=previous_segment.pos_end,
+                    pos_end=previous_segment.pos_end,
                     vel_begin=velocity(0, 0, 0, 0),
                     vel_end=velocity(0, 0, 0, 0),
                 )
-- 
2.43.0


From 44b31f12e89ee33041751d25866c624fe074639b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:41 +0000
Subject: [PATCH 13/32] fix: submodel times failed by rounding at the end of a
 move

---
 pyGCodeDecode/planner_block.py | 2 +-
 pyGCodeDecode/utils.py         | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyGCodeDecode/planner_block.py b/pyGCodeDecode/planner_block.py
index 1b8e4d8..fa32f46 100644
--- a/pyGCodeDecode/planner_block.py
+++ b/pyGCodeDecode/planner_block.py
@@ -401,7 +401,7 @@ class planner_block:
         for segm in self.segments:
             cum_dist += segm.get_segm_len()  # len with current segment
             # last_cum_dist = len, without curr segm; dist_local >= last_cum_dist and ; last_cum_dist = cum_dist
-            if dist_local <= cum_dist:
+            if dist_local <= cum_dist or (segm is self.segments[-1] and np.isclose(dist_local, cum_dist)):
                 segm_local_dist = segm.get_segm_len() - (cum_dist - dist_local)
 
                 time_of_isect = segm._interpolate_time_to_space(
diff --git a/pyGCodeDecode/utils.py b/pyGCodeDecode/utils.py
index c85cb98..7e2e550 100644
--- a/pyGCodeDecode/utils.py
+++ b/pyGCodeDecode/utils.py
@@ -474,6 +474,9 @@ class segment:
             t = 2 * x / v_sum if v_sum > 0 else 0.0  # distance over average velocity
             return t
 
+        if self.t_end <= self.t_begin:  # too short to be resolved in time
+            return scalar_begin
+
         t = get_time(x)
         scalar = lin_scalar(t)
 
-- 
2.43.0


From 1c35e24da8a2c1c61684f6cb44c764ce6a1852a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:41 +0000
Subject: [PATCH 14/32] fix: the CLI reported success after failing to find its
 input

---
 pyGCodeDecode/cli.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pyGCodeDecode/cli.py b/pyGCodeDecode/cli.py
index 7b4e484..c9d456f 100644
--- a/pyGCodeDecode/cli.py
+++ b/pyGCodeDecode/cli.py
@@ -3,6 +3,7 @@
 import argparse
 import importlib.resources
 import pathlib
+import sys
 
 from pyGCodeDecode import __version__
 from pyGCodeDecode.examples.benchy import benchy_example
@@ -31,13 +32,13 @@ def _plot(args: argparse.Namespace):
             custom_print(
                 f"❌ The specified G-code:\n{specified_path.resolve()}\nis not valid.\n" "🛑 Exiting the program."
             )
-            exit()
+            sys.exit(1)
         else:
             custom_print("⚠️ No G-code file specified. Looking for a G-code file in the current directory... 👀")
             files_list = list(pathlib.Path.cwd().glob("*.gcode"))
             if files_list.__len__() == 0:
                 custom_print("❌ No G-code file found in the current directory.\n" "🛑 Exiting the program.")
-                exit()
+                sys.exit(1)
             elif files_list.__len__() == 1:
                 g_code_file = files_list[0]
             else:
@@ -45,7 +46,7 @@ def _plot(args: argparse.Namespace):
                 for file in files_list:
                     custom_print(f"    - {file.resolve()}")
                 custom_print("🛑 Exiting the program.")
-                exit()
+                sys.exit(1)
 
         custom_print(f"✅ Using the G-code file:\n{g_code_file.resolve()}")
         return g_code_file
@@ -59,7 +60,7 @@ def _plot(args: argparse.Namespace):
             custom_print(
                 f"❌ The specified presets file:\n{presets_file.resolve()}\nis not valid.\n" "🛑 Exiting the program."
             )
-            exit()
+            sys.exit(1)
         else:
             custom_print(f"✅ Using the presets file:\n{presets_file.resolve()}")
 
-- 
2.43.0


From eb86fcb210f7d4a393056a0ce37c896a52d8e4bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:03 +0000
Subject: [PATCH 15/32] fix: self correction of long chains of short moves
 exceeded the recursion limit

---
 pyGCodeDecode/planner_block.py | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/pyGCodeDecode/planner_block.py b/pyGCodeDecode/planner_block.py
index fa32f46..1c6e047 100644
--- a/pyGCodeDecode/planner_block.py
+++ b/pyGCodeDecode/planner_block.py
@@ -204,6 +204,22 @@ class planner_block:
 
     def self_correction(self, tolerance=float("1e-12")):
         """Check for interfacing vel and self correct."""
+        chain = [self]
+        flag_correct = self._correct_velocity(tolerance=tolerance)
+
+        # a changed begin velocity affects the previous block, iterate backwards as recursion fails for long chains
+        corrected = flag_correct
+        while corrected and chain[-1].blocktype == "single" and chain[-1].prev_block is not None:
+            chain.append(chain[-1].prev_block)
+            corrected = chain[-1]._correct_velocity()  # forward correction?
+
+        for block in reversed(chain):
+            block._correct_time(tolerance=tolerance if block is self else float("1e-12"))
+
+        return flag_correct
+
+    def _correct_velocity(self, tolerance=float("1e-12")):
+        """Correct the velocity at the interface to the next block, return True if a correction was necessary."""
         flag_correct = False
         if self.next_block is not None:
             same_vel = (
@@ -220,9 +236,11 @@ class planner_block:
         if self.next_block is not None and flag_correct:
             vel_end = self.next_block.get_segments()[0].vel_begin.get_norm()
             self.move_maker2(v_end=vel_end)
-            if self.blocktype == "single":
-                self.prev_block.self_correction()  # forward correction?
 
+        return flag_correct
+
+    def _correct_time(self, tolerance=float("1e-12")):
+        """Shift the next block in time and check for continuity."""
         # Timeshift the corrected blocks
         if self.next_block is not None:
             delta_t = self.get_segments()[-1].t_end - self.next_block.get_segments()[0].t_begin
@@ -244,8 +262,6 @@ class planner_block:
         except ValueError as ve:
             custom_print(f"Segment for {self.state_B} does not adhere to machine limits: {ve}")
 
-        return flag_correct
-
     def timeshift(self, delta_t: float):
         """Shift planner block in time.
 
-- 
2.43.0


From ed239de70c6b011192c5b5d9e80d6853a04d701a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:41 +0000
Subject: [PATCH 16/32] fix: rounding errors of offsets and relative moves were
 planned as movements

---
 pyGCodeDecode/state_generator.py | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/pyGCodeDecode/state_generator.py b/pyGCodeDecode/state_generator.py
index 46f9770..5df2a1e 100644
--- a/pyGCodeDecode/state_generator.py
+++ b/pyGCodeDecode/state_generator.py
@@ -239,12 +239,8 @@ def dict_list_traveler(line_dict_list: List[dict], initial_machine_setup: dict)
             virtual_machine[key] = default_virtual_machine[key]
 
     # initial state creation
-    state_position = position(
-        virtual_machine["X"] + virtual_machine["_X"],
-        virtual_machine["Y"] + virtual_machine["_Y"],
-        virtual_machine["Z"] + virtual_machine["_Z"],
-        virtual_machine["E"] + virtual_machine["_E"],
-    )
+    # sums of relative moves and offsets are not exact, their rounding errors are not movements
+    state_position = position(*[round(virtual_machine[key] + virtual_machine["_" + key], 9) for key in "XYZE"])
 
     p_settings = state.p_settings(
         speed=virtual_machine["p_vel"],
@@ -339,12 +335,7 @@ def dict_list_traveler(line_dict_list: List[dict], initial_machine_setup: dict)
             if "S" in line_dict["G4"]:
                 pause_duration = line_dict["G4"]["S"]
 
-        state_position = position(
-            virtual_machine["X"] + virtual_machine["_X"],
-            virtual_machine["Y"] + virtual_machine["_Y"],
-            virtual_machine["Z"] + virtual_machine["_Z"],
-            virtual_machine["E"] + virtual_machine["_E"],
-        )
+        state_position = position(*[round(virtual_machine[key] + virtual_machine["_" + key], 9) for key in "XYZE"])
 
         p_settings = state.p_settings(
             speed=virtual_machine["p_vel"],
-- 
2.43.0


From 60c294ef78093e6e4aea00fc09e8e875bab19704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:04 +0000
Subject: [PATCH 17/32] fix: 2D plot with points failed for colored plots

---
 pyGCodeDecode/gcode_interpreter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyGCodeDecode/gcode_interpreter.py b/pyGCodeDecode/gcode_interpreter.py
index 835215e..51defeb 100644
--- a/pyGCodeDecode/gcode_interpreter.py
+++ b/pyGCodeDecode/gcode_interpreter.py
@@ -336,7 +336,7 @@ class simulation:
         if show_points:
             for i, block in enumerate(self.blocklist):
                 update_progress(i / len(self.blocklist), name="2D Plot Points")
-                fig.scatter(
+                plt.scatter(
                     block.get_segments()[-1].pos_end.get_vec()[0],
                     block.get_segments()[-1].pos_end.get_vec()[1],
                     color="blue",
-- 
2.43.0


From 9fc3532194d58c0674c1a8a3f162be9e6943c670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:28 +0000
Subject: [PATCH 18/32] fix: 2D plot was drawn into whatever figure was open,
 e.g. after a failed save

---
 pyGCodeDecode/gcode_interpreter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyGCodeDecode/gcode_interpreter.py b/pyGCodeDecode/gcode_interpreter.py
index 51defeb..c4edd1d 100644
--- a/pyGCodeDecode/gcode_interpreter.py
+++ b/pyGCodeDecode/gcode_interpreter.py
@@ -330,7 +330,7 @@ class simulation:
                 update_progress((i + 1) / len(segments), name="2D Plot Lines")
                 x.append(segm.pos_end.get_vec()[0])
                 y.append(segm.pos_end.get_vec()[1])
-            fig = plt.subplot()
+            fig = plt.figure().add_subplot(1, 1, 1)
             fig.plot(x, y, color="black")
 
         if show_points:
-- 
2.43.0


From 23e02f89a8bd42830606ce16ae1d713e29049e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:23 +0000
Subject: [PATCH 19/32] fix: a VTK file that could not be written was reported
 as saved

---
 pyGCodeDecode/gcode_interpreter.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyGCodeDecode/gcode_interpreter.py b/pyGCodeDecode/gcode_interpreter.py
index c4edd1d..be94b76 100644
--- a/pyGCodeDecode/gcode_interpreter.py
+++ b/pyGCodeDecode/gcode_interpreter.py
@@ -442,7 +442,11 @@ class simulation:
         )
 
         if vtk_path is not None:
-            mesh.save(filename=vtk_path)
+            vtk_file = pathlib.Path(vtk_path).expanduser()
+            vtk_file.unlink(missing_ok=True)
+            mesh.save(filename=vtk_path)  # VTK does not raise an error, but leaves no file if writing fails
+            if not vtk_file.is_file():
+                raise OSError(f"The VTK file could not be written: {vtk_path}")
             custom_print(f"VTK saved to:\n{vtk_path}")
         if screenshot_path is not None:
             if display_available:
-- 
2.43.0


From f3ee8a6994b108b43420e5304e6cf9ef4b424743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:58 +0000
Subject: [PATCH 20/32] fix: commands which begin like a known one (G12, G34,
 G92.1) were taken for it and crashed the parser

---
 pyGCodeDecode/state_generator.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyGCodeDecode/state_generator.py b/pyGCodeDecode/state_generator.py
index 5df2a1e..17b4578 100644
--- a/pyGCodeDecode/state_generator.py
+++ b/pyGCodeDecode/state_generator.py
@@ -120,7 +120,9 @@ def arg_extract(string: str, key_dict: dict) -> dict:
     matches: List[Match] = list()  # list to store matching keywords
 
     for key in key_dict.keys():  # look for each key in the dictionary
-        match = re.search(key, string)  # regex search for key in string
+        # commands end with their number (G1 is not the beginning of G12), leading zeros are allowed (G01)
+        pattern = f"{key[0]}0*{key[1:]}(?![0-9.])" if len(key) > 1 else key
+        match = re.search(pattern, string)  # regex search for key in string
         if match is not None:
             matches.append(match)  # append found matches
 
@@ -145,7 +147,7 @@ def arg_extract(string: str, key_dict: dict) -> dict:
 
     for match in matches:  # iterate through all matches, with next match available
         match_end = match.end()  # find arg beginning by using end of match
-        key = match.group()  # get key from match
+        key = re.sub("(?<=[GM])0+(?=[0-9])", "", match.group())  # get key from match, without leading zeros
         arg = None
 
         match_next_start = next_larger(match_start_list, match_end)  # find arg end by using beginning of next arg
-- 
2.43.0


From 5f527f5256692c0d26f522b9d7cf2f7e9d80e6eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:06 +0000
Subject: [PATCH 21/32] fix: input files were read in the platform's default
 encoding, non-ASCII comments depended on it or failed

---
 pyGCodeDecode/gcode_interpreter.py | 2 +-
 pyGCodeDecode/state_generator.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyGCodeDecode/gcode_interpreter.py b/pyGCodeDecode/gcode_interpreter.py
index be94b76..c3f74e5 100644
--- a/pyGCodeDecode/gcode_interpreter.py
+++ b/pyGCodeDecode/gcode_interpreter.py
@@ -854,7 +854,7 @@ class setup:
         import yaml
         from yaml import Loader
 
-        with open(file=filepath) as file:
+        with open(file=filepath, encoding="utf-8") as file:
             setup_dict = yaml.load(file, Loader=Loader)
         return setup_dict
 
diff --git a/pyGCodeDecode/state_generator.py b/pyGCodeDecode/state_generator.py
index 17b4578..405a6da 100644
--- a/pyGCodeDecode/state_generator.py
+++ b/pyGCodeDecode/state_generator.py
@@ -186,7 +186,7 @@ def read_gcode_to_dict_list(filepath: pathlib.Path) -> List[dict]:
     custom_print("Parsing the gcode...")
     dict_list = []
 
-    with open(file=filepath) as file_gcode:
+    with open(file=filepath, encoding="utf-8") as file_gcode:
         for i, line in enumerate(file_gcode):
             line_dict = arg_extract(string=line, key_dict=known_commands)
             line_dict["line_number"] = i + 1
-- 
2.43.0


From 143c8abb6c1fa5442bd346c2c307d702e7b3e2d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:38 +0000
Subject: [PATCH 22/32] fix: a rejected initial position changed part of the
 setup

---
 pyGCodeDecode/gcode_interpreter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyGCodeDecode/gcode_interpreter.py b/pyGCodeDecode/gcode_interpreter.py
index c3f74e5..c903a47 100644
--- a/pyGCodeDecode/gcode_interpreter.py
+++ b/pyGCodeDecode/gcode_interpreter.py
@@ -887,8 +887,8 @@ class setup:
         scaling = self.get_scaling_factor(input_unit_system=input_unit_system)
 
         if isinstance(initial_position, dict) and all(key in initial_position for key in ["X", "Y", "Z", "E"]):
-            for key in initial_position:
-                self.initial_position[key] = scaling * initial_position[key]
+            # build the new position completely before storing it, so a rejected one leaves the setup unchanged
+            self.initial_position = {key: scaling * initial_position[key] for key in initial_position}
         elif isinstance(initial_position, tuple) and len(initial_position) == 4:
             self.initial_position = {
                 "X": scaling * initial_position[0],
-- 
2.43.0


From f00e26e3912cd2deb0b8e14de9864ae12339dc66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:28 +0000
Subject: [PATCH 23/32] fix: the XY plot ends at the end of the last segment

interp_2D draws only the start of segments along which the colour does not
change, so the end of the last segment was missing if the print ends at
constant speed.
---
 pyGCodeDecode/gcode_interpreter.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyGCodeDecode/gcode_interpreter.py b/pyGCodeDecode/gcode_interpreter.py
index c903a47..4c6b568 100644
--- a/pyGCodeDecode/gcode_interpreter.py
+++ b/pyGCodeDecode/gcode_interpreter.py
@@ -268,6 +268,7 @@ class simulation:
                 0,
                 np.where(segm_cvar_delt, np.ceil(segm_length / spatial_resolution) + 1, 1),
             ]  # get nmbr of segments for required resolution, dont interpolate if there is no change
+            segm_interpol[-1] = max(segm_interpol[-1], 2)  # the end of the last segment is not the start of another one
             points = np.array([x, y, cvar]).T
             points = np.c_[points, segm_interpol]
 
-- 
2.43.0


From f332582bf1cbc3378efadf9ce5d31603a4c6294e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:51 +0000
Subject: [PATCH 24/32] fix: long runs of lines without a move took time
 quadratic in their number

---
 pyGCodeDecode/junction_handling.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyGCodeDecode/junction_handling.py b/pyGCodeDecode/junction_handling.py
index ddc7371..73fca6e 100644
--- a/pyGCodeDecode/junction_handling.py
+++ b/pyGCodeDecode/junction_handling.py
@@ -67,7 +67,8 @@ class junction_handling:
         self.state_A = state_A
         self.state_B = state_B
         self.target_vel = self.connect_state(state_A=state_A, state_B=state_B)
-        self.vel_next = self.calc_vel_next()
+        # without a move there is no junction: do not look for the next move, long runs of such lines made this quadratic
+        self.vel_next = self.calc_vel_next() if self.target_vel.not_zero() else velocity(0, 0, 0, 0)
 
     def get_junction_vel(self):
         """Return default junction velocity of zero.
-- 
2.43.0


From bcff9961120a5d428a2b9fcac852fa2a56b1899e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:03:58 +0000
Subject: [PATCH 25/32] fix: unknown parameters behind a value turned it into
 text or crashed the interpretation

---
 pyGCodeDecode/state_generator.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyGCodeDecode/state_generator.py b/pyGCodeDecode/state_generator.py
index 405a6da..db34c76 100644
--- a/pyGCodeDecode/state_generator.py
+++ b/pyGCodeDecode/state_generator.py
@@ -159,7 +159,9 @@ def arg_extract(string: str, key_dict: dict) -> dict:
             try:
                 arg = float(arg)  # casting to float if possible
             except ValueError:
-                pass
+                number = re.match(r"[-+]?(\d+\.?\d*|\.\d+)", arg)
+                if number is not None and key_dict[key] is None:
+                    arg = float(number.group())  # unknown parameters behind the value are ignored
         else:
             arg = string[match_end:]  # special case for comments where everything coming after match is arg
 
-- 
2.43.0


From 6fcd29d3b405e7943f2726c8aaaaa89e217b0d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:03:58 +0000
Subject: [PATCH 26/32] fix: commands were recognised inside of words
 (NAME=part_G1_copy_2)

---
 pyGCodeDecode/state_generator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyGCodeDecode/state_generator.py b/pyGCodeDecode/state_generator.py
index db34c76..b7dd6a0 100644
--- a/pyGCodeDecode/state_generator.py
+++ b/pyGCodeDecode/state_generator.py
@@ -121,7 +121,8 @@ def arg_extract(string: str, key_dict: dict) -> dict:
 
     for key in key_dict.keys():  # look for each key in the dictionary
         # commands end with their number (G1 is not the beginning of G12), leading zeros are allowed (G01)
-        pattern = f"{key[0]}0*{key[1:]}(?![0-9.])" if len(key) > 1 else key
+        # and are not part of a word (NAME=part_G1)
+        pattern = f"(?<![A-Za-z_]){key[0]}0*{key[1:]}(?![0-9.])" if len(key) > 1 else key
         match = re.search(pattern, string)  # regex search for key in string
         if match is not None:
             matches.append(match)  # append found matches
-- 
2.43.0


From 3468c79c9e21b372076ec7bf3b03953d0b4679f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:03:58 +0000
Subject: [PATCH 27/32] fix: commands within the text of M117 and M118 messages
 were executed

---
 pyGCodeDecode/state_generator.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyGCodeDecode/state_generator.py b/pyGCodeDecode/state_generator.py
index b7dd6a0..a363a29 100644
--- a/pyGCodeDecode/state_generator.py
+++ b/pyGCodeDecode/state_generator.py
@@ -191,6 +191,7 @@ def read_gcode_to_dict_list(filepath: pathlib.Path) -> List[dict]:
 
     with open(file=filepath, encoding="utf-8") as file_gcode:
         for i, line in enumerate(file_gcode):
+            line = re.sub(r"^\s*M0*11[78](?![0-9.])[^;]*", "", line)  # the text of messages contains no commands
             line_dict = arg_extract(string=line, key_dict=known_commands)
             line_dict["line_number"] = i + 1
             dict_list.append(line_dict)
-- 
2.43.0


From 56b076d640913aea3d8b62d5d1bdfdaffd3595d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:58:22 +0000
Subject: [PATCH 28/32] fix: counting unsupported commands took time quadratic
 in their number

---
 pyGCodeDecode/state_generator.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/pyGCodeDecode/state_generator.py b/pyGCodeDecode/state_generator.py
index a363a29..b2d255d 100644
--- a/pyGCodeDecode/state_generator.py
+++ b/pyGCodeDecode/state_generator.py
@@ -389,17 +389,13 @@ def check_for_unsupported_commands(line_dict_list: dict) -> dict:
     """
     # search for unsupported commands
     custom_print("Searching for known but unsupported G-code commands...")
-    unsupported_commands_found = []
+    unsupported_command_counts = {}
     for line_dict in line_dict_list:
         for key in line_dict.keys():
             if key in unsupported_commands.keys():
-                unsupported_commands_found.append(key)
+                unsupported_command_counts[key] = unsupported_command_counts.get(key, 0) + 1
 
-    unsupported_command_counts = {
-        command: unsupported_commands_found.count(command) for command in unsupported_commands_found
-    }
-
-    if unsupported_commands_found != []:
+    if unsupported_command_counts != {}:
         custom_print(f"⚠️ Warning: {len(unsupported_command_counts.keys())} known but unsupported command(s) found:")
         for key, value in unsupported_command_counts.items():
             custom_print(f" - Command '{key}' found {value} time(s).")
-- 
2.43.0


From 8604865bb5a2c011f195963e70b5d194d3183bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:58:22 +0000
Subject: [PATCH 29/32] fix: the velocity plot copied the rest of the path for
 every point in time

---
 pyGCodeDecode/gcode_interpreter.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyGCodeDecode/gcode_interpreter.py b/pyGCodeDecode/gcode_interpreter.py
index 4c6b568..1aff097 100644
--- a/pyGCodeDecode/gcode_interpreter.py
+++ b/pyGCodeDecode/gcode_interpreter.py
@@ -115,7 +115,8 @@ def find_current_segment(path: List[segment], t: float, last_index: int = None,
                     return interpolated_segment, last_index
         else:
             # optimized search
-            for id, segm in enumerate(path[last_index:]):
+            for id in range(len(path) - last_index):
+                segm = path[last_index + id]
                 if t >= segm.t_begin and t <= segm.t_end:
                     return segm, last_index + id
                 elif t >= segm.t_end and t < path[last_index + 1].t_begin:
@@ -143,7 +144,8 @@ def find_current_segment(path: List[segment], t: float, last_index: int = None,
                 if t >= segm.t_begin and t < segm.t_end:
                     return segm, last_index
         else:
-            for id, segm in enumerate(path[last_index:]):
+            for id in range(len(path) - last_index):
+                segm = path[last_index + id]
                 if t >= segm.t_begin and t < segm.t_end:
                     return segm, last_index + id
             raise ValueError("nothing found")
-- 
2.43.0


From 77a292d6fa237eec266fc58ddcbd1563d6e0405c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:58:22 +0000
Subject: [PATCH 30/32] fix: the XY plot copied all points drawn so far for
 every segment

---
 pyGCodeDecode/gcode_interpreter.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pyGCodeDecode/gcode_interpreter.py b/pyGCodeDecode/gcode_interpreter.py
index 1aff097..17bffd8 100644
--- a/pyGCodeDecode/gcode_interpreter.py
+++ b/pyGCodeDecode/gcode_interpreter.py
@@ -276,18 +276,17 @@ class simulation:
 
             # generate intermediate points with set resolution
             old_point = None
-            interpolated = np.zeros((1, 3))
+            interpolated = []
             for point in points:
                 if old_point is not None:
                     steps = np.linspace(0, 1, int(point[3]), endpoint=True)
                     x_i = np.interp(steps, [0, 1], [old_point[0], point[0]])
                     y_i = np.interp(steps, [0, 1], [old_point[1], point[1]])
                     colvar_i = np.interp(steps, [0, 1], [old_point[2], point[2]])
-                    interpolated = np.r_[interpolated, np.array([x_i, y_i, colvar_i]).T]
+                    interpolated.append(np.array([x_i, y_i, colvar_i]).T)
                 old_point = point
-            interpolated = np.delete(interpolated, 0, 0)
 
-            return interpolated
+            return np.concatenate(interpolated)
 
         segments = unpack_blocklist(blocklist=self.blocklist)
         if colvar == "Velocity":
-- 
2.43.0


From 6f46a57e7ce36646ba7d937a516199039ac499a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:32:58 +0000
Subject: [PATCH 31/32] fix: a plot which failed left its figure open, as the
 current one

---
 pyGCodeDecode/gcode_interpreter.py | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/pyGCodeDecode/gcode_interpreter.py b/pyGCodeDecode/gcode_interpreter.py
index 17bffd8..cb5b10c 100644
--- a/pyGCodeDecode/gcode_interpreter.py
+++ b/pyGCodeDecode/gcode_interpreter.py
@@ -1,5 +1,6 @@
 """GCode Interpreter Module."""
 
+import functools
 import importlib.resources
 import os
 import pathlib
@@ -166,6 +167,25 @@ def unpack_blocklist(blocklist: List[planner_block]) -> List[segment]:
     return path
 
 
+def _close_figure_on_failure(function):
+    """Close the figure of the decorated plot function if the function fails."""
+
+    @functools.wraps(function)
+    def wrapper(*args, **kwargs):
+        import matplotlib.pyplot as plt
+
+        open_figures = plt.get_fignums()
+        try:
+            return function(*args, **kwargs)
+        except BaseException:
+            for number in plt.get_fignums():
+                if number not in open_figures:
+                    plt.close(number)
+            raise
+
+    return wrapper
+
+
 class simulation:
     """Simulation of .gcode with given machine parameters."""
 
@@ -243,6 +263,7 @@ class simulation:
 
         self.print_summary(start_time=simulation_start_time)
 
+    @_close_figure_on_failure
     def plot_2d_position(
         self,
         filepath: pathlib.Path = pathlib.Path("trajectory_2D.png"),
@@ -462,6 +483,7 @@ class simulation:
 
         return mesh
 
+    @_close_figure_on_failure
     def plot_vel(
         self,
         axis: Tuple[str] = ("x", "y", "z", "e"),
-- 
2.43.0


From 9455033633059b4652a7f1eec44d44d529417e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:16:24 +0000
Subject: [PATCH 32/32] fix: saving a VTK file changed the locale of the
 process

---
 pyGCodeDecode/gcode_interpreter.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pyGCodeDecode/gcode_interpreter.py b/pyGCodeDecode/gcode_interpreter.py
index cb5b10c..9e178ec 100644
--- a/pyGCodeDecode/gcode_interpreter.py
+++ b/pyGCodeDecode/gcode_interpreter.py
@@ -2,6 +2,7 @@
 
 import functools
 import importlib.resources
+import locale
 import os
 import pathlib
 import sys
@@ -467,7 +468,11 @@ class simulation:
         if vtk_path is not None:
             vtk_file = pathlib.Path(vtk_path).expanduser()
             vtk_file.unlink(missing_ok=True)
-            mesh.save(filename=vtk_path)  # VTK does not raise an error, but leaves no file if writing fails
+            previous_locale = locale.setlocale(locale.LC_ALL)  # VTK changes the locale of the process when writing
+            try:
+                mesh.save(filename=vtk_path)  # VTK does not raise an error, but leaves no file if writing fails
+            finally:
+                locale.setlocale(locale.LC_ALL, previous_locale)
             if not vtk_file.is_file():
                 raise OSError(f"The VTK file could not be written: {vtk_path}")
             custom_print(f"VTK saved to:\n{vtk_path}")
-- 
2.43.0

