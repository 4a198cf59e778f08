From fe4999a19d4f2cbe73748323ac74c9e721a988ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:11 +0000
Subject: [PATCH 01/26] fix: check every row of an item when testing if it fits

_check_fitting skipped the last row apart from its two corners, so a wider
item could be placed over a narrower one that starts in that row.
---
 hyperpack/mixins.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperpack/mixins.py b/hyperpack/mixins.py
index 21e4d08..a22e495 100644
--- a/hyperpack/mixins.py
+++ b/hyperpack/mixins.py
@@ -92,7 +92,7 @@ class PointGenerationMixin:
         ):
             return False
 
-        for y in range(Yo, Yo + l - 1):
+        for y in range(Yo, Yo + l):
             if any(container_coords[y][Xo : Xo + w]):
                 return False
 
-- 
2.43.0


From 9d6d74eaac153bdadf03c8d33be7da402153a657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:52 +0000
Subject: [PATCH 02/26] fix: count the topmost used row in the strip packing
 height

The height used for the strip's utilization was the zero-based index of the
topmost used row, so utilization exceeded 100% and heights 1 and 2 compared
as equal.
---
 hyperpack/mixins.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hyperpack/mixins.py b/hyperpack/mixins.py
index a22e495..5781ff9 100644
--- a/hyperpack/mixins.py
+++ b/hyperpack/mixins.py
@@ -529,9 +529,10 @@ class PointGenerationMixin:
         if strip_pack:
             height_of_solution = 1
 
-            for y in range(L - 1, 0, -1):
+            for y in range(L - 1, -1, -1):
                 if any(container_coords[y]):
-                    height_of_solution = y
+                    # y is zero-based, the row's upper side is at y + 1
+                    height_of_solution = y + 1
                     break
 
             items_area = sum(
-- 
2.43.0


From 1b6713d0cd50f327754d2b0b20179783382bea28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:19 +0000
Subject: [PATCH 03/26] fix: log a strip packing solution that has no items

log_solution divided by the zero height of the empty strip.
---
 hyperpack/mixins.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hyperpack/mixins.py b/hyperpack/mixins.py
index 5781ff9..68d262f 100644
--- a/hyperpack/mixins.py
+++ b/hyperpack/mixins.py
@@ -654,7 +654,9 @@ class SolutionLoggingMixin:
             total_items_area = sum(
                 [i[2] * i[3] for item_id, i in self.solution[cont_id].items()]
             )
-            log.append(f"\t[util%] : {total_items_area*100/(W*L):.4f}%")
+            # a strip without any item placed has zero height
+            util = total_items_area * 100 / (W * L) if L else 0
+            log.append(f"\t[util%] : {util:.4f}%")
             if self._strip_pack:
                 solution = self.solution[cont_id]
                 # height of items stack in solution
-- 
2.43.0


From 5a32db17e69da1330535e55ecd140fc7dd193c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:38 +0000
Subject: [PATCH 04/26] fix: reuse figure colors when a container has more
 items than colors

create_figure raised IndexError for the 1001st item of a container.
---
 hyperpack/mixins.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperpack/mixins.py b/hyperpack/mixins.py
index 68d262f..0cd4fa0 100644
--- a/hyperpack/mixins.py
+++ b/hyperpack/mixins.py
@@ -812,7 +812,7 @@ class SolutionFigureMixin:
         Method for returning a hexadecimal color for every item
         in the graph.
         """
-        return constants.ITEMS_COLORS[index]
+        return constants.ITEMS_COLORS[index % len(constants.ITEMS_COLORS)]
 
     def get_figure_dtick_value(self, dimension, scale=20):
         """
-- 
2.43.0


From f597fc1f4e88a60e935a748dbd4f870920f3561f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:54 +0000
Subject: [PATCH 05/26] fix: compare plotly and kaleido versions numerically

The components were compared as strings, so plotly 5.9 passed as newer than
the required 5.14.
---
 hyperpack/mixins.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/hyperpack/mixins.py b/hyperpack/mixins.py
index 0cd4fa0..b0fa700 100644
--- a/hyperpack/mixins.py
+++ b/hyperpack/mixins.py
@@ -689,10 +689,17 @@ class SolutionFigureMixin:
     FIGURE_DEFAULT_FILE_NAME = "PlotlyGraph"
     ACCEPTED_IMAGE_EXPORT_FORMATS = ("pdf", "png", "jpeg", "webp", "svg")
     # settings constraints
-    PLOTLY_MIN_VER = ("5", "14", "0")
-    PLOTLY_MAX_VER = ("6", "0", "0")
-    KALEIDO_MIN_VER = ("0", "2", "1")
-    KALEIDO_MAX_VER = ("0", "3", "0")
+    PLOTLY_MIN_VER = (5, 14, 0)
+    PLOTLY_MAX_VER = (6, 0, 0)
+    KALEIDO_MIN_VER = (0, 2, 1)
+    KALEIDO_MAX_VER = (0, 3, 0)
+
+    @staticmethod
+    def _parse_version(version) -> tuple:
+        # numeric comparison is needed, since "9" > "14"
+        return tuple(
+            int(re.match(r"\d*", part).group() or 0) for part in version.split(".")[:3]
+        )
 
     def _check_plotly_kaleido_versions(self) -> None:
         self._plotly_installed = False
@@ -706,7 +713,7 @@ class SolutionFigureMixin:
             pass
         else:
             self._plotly_installed = True
-            plotly_ver = tuple([x for x in plotly.__version__.split(".")][:3])
+            plotly_ver = self._parse_version(plotly.__version__)
             if plotly_ver >= self.PLOTLY_MIN_VER and plotly_ver < self.PLOTLY_MAX_VER:
                 self._plotly_ver_ok = True
 
@@ -716,7 +723,7 @@ class SolutionFigureMixin:
             pass
         else:
             self._kaleido_installed = True
-            kaleido_ver = tuple([x for x in kaleido.__version__.split(".")][:3])
+            kaleido_ver = self._parse_version(kaleido.__version__)
             if kaleido_ver >= self.KALEIDO_MIN_VER and kaleido_ver < self.KALEIDO_MAX_VER:
                 self._kaleido_ver_ok = True
 
-- 
2.43.0


From 67423864bbae47de75af06bbae48142427601885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:10 +0000
Subject: [PATCH 06/26] fix: generate item dimensions around their own
 averages, always positive

The width's deviation came from items_length and the length's average from
items_width: items_length was ignored as an average, and the generated data
could hold zero or negative dimensions that HyperPack rejects.
---
 hyperpack/utils.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/hyperpack/utils.py b/hyperpack/utils.py
index 147ee7e..d953653 100644
--- a/hyperpack/utils.py
+++ b/hyperpack/utils.py
@@ -19,7 +19,7 @@ def generate_problem_data(**kwargs):
         containers_length : average containers length (default 50)
         containers_width : average containers width (default 50)
         items_num: number of items per container (default 30)
-        items_length: average length of items (default 5)
+        items_length: average length of items (default 3)
         items_width: average width of items (default 5)
     """
     # ---------------------- CONTAINERS ------------------------
@@ -51,16 +51,17 @@ def generate_problem_data(**kwargs):
     items_length = kwargs.get("items_length", DEFAULT_MEAN_ITEM_LENGTH)
     items_width = kwargs.get("items_width", DEFAULT_MEAN_ITEM_WIDTH)
 
-    deviation_w_val = max(round(items_length * 0.6), 1)
-    deviation_h_val = max(round(items_width * 0.6), 1)
+    deviation_w_val = max(round(items_width * 0.6), 1)
+    deviation_h_val = max(round(items_length * 0.6), 1)
 
+    # dimensions must be positive
     lower_w_val, upper_w_val = (
-        items_width - deviation_w_val,
+        max(items_width - deviation_w_val, 1),
         items_width + deviation_w_val,
     )
     lower_h_val, upper_h_val = (
-        items_width - deviation_h_val,
-        items_width + deviation_h_val,
+        max(items_length - deviation_h_val, 1),
+        items_length + deviation_h_val,
     )
     items = {}
     total_items_num = items_num * containers_num
-- 
2.43.0


From 8a70aa0a5b1edb2c1dc444ee12f285a8f29c789a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:28 +0000
Subject: [PATCH 07/26] fix: reject a workers_num that is not an integer

The setting is documented as a positive integer but 1.5 was accepted.
---
 hyperpack/heuristics.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/hyperpack/heuristics.py b/hyperpack/heuristics.py
index 48a9f94..e96f1d2 100644
--- a/hyperpack/heuristics.py
+++ b/hyperpack/heuristics.py
@@ -397,10 +397,7 @@ class HyperPack(
         # % ----------------------------------------------------------------------------
         workers_num = self._settings.get("workers_num")
         if workers_num is not None:
-            try:
-                if not workers_num > 0:
-                    raise SettingsError(SettingsError.WORKERS_NUM_VALUE)
-            except Exception:
+            if not isinstance(workers_num, int) or workers_num <= 0:
                 raise SettingsError(SettingsError.WORKERS_NUM_VALUE)
             self._workers_num = workers_num
         else:
-- 
2.43.0


From 80bc490cab6786617e724493a6ae8bb2284a4cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:44 +0000
Subject: [PATCH 08/26] fix: reject falsy settings that aren't a dict at
 instantiation

settings=[] (or 0, '') was silently replaced by {} while the settings setter
raises SettingsError for it.
---
 hyperpack/heuristics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperpack/heuristics.py b/hyperpack/heuristics.py
index e96f1d2..8eaf925 100644
--- a/hyperpack/heuristics.py
+++ b/hyperpack/heuristics.py
@@ -200,7 +200,7 @@ class PointGenerationSolver(
 
         self._rotation = None
 
-        self._settings = settings or {}
+        self._settings = {} if settings is None else settings
         self.validate_settings()
 
         # it's the strategy used for the instance. It can be
-- 
2.43.0


From d1358969d2949a964170e6ff59487bed790c22f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:41 +0000
Subject: [PATCH 09/26] fix: keep all the items in strip packing hypersearch

hypersearch compared the strategies by utilization only, so a solution that
misses items could replace one holding all of them.
---
 hyperpack/heuristics.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/hyperpack/heuristics.py b/hyperpack/heuristics.py
index 8eaf925..89e1515 100644
--- a/hyperpack/heuristics.py
+++ b/hyperpack/heuristics.py
@@ -419,10 +419,8 @@ class HyperPack(
             )
 
     def _check_solution(self, new_obj_val, best_obj_value):
-        if new_obj_val > best_obj_value:
-            return True
-        else:
-            return False
+        # same acceptance criteria as local search's nodes
+        return self.compare_node(new_obj_val, best_obj_value)
 
     def _get_array_optimum(self, array):
         """
-- 
2.43.0


From c62190e8c033505466692b4f08f9d56c62e7ca5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:05 +0000
Subject: [PATCH 10/26] fix: use the instance's container_height in
 multiprocess hypersearch

The workers always started from the default height, so the solution could be
taller than the container_height that was set.
---
 hyperpack/heuristics.py | 1 +
 hyperpack/processes.py  | 3 +++
 2 files changed, 4 insertions(+)

diff --git a/hyperpack/heuristics.py b/hyperpack/heuristics.py
index 89e1515..a7287ea 100644
--- a/hyperpack/heuristics.py
+++ b/hyperpack/heuristics.py
@@ -510,6 +510,7 @@ class HyperPack(
                     start_time=self.start_time,
                     shared_array=shared_Array,
                     throttle=throttle,
+                    container_height=self._container_height,
                     container_min_height=container_min_height,
                     _force_raise_error_index=_force_raise_error_index,
                 )
diff --git a/hyperpack/processes.py b/hyperpack/processes.py
index 9971e44..cc8eccb 100644
--- a/hyperpack/processes.py
+++ b/hyperpack/processes.py
@@ -31,6 +31,7 @@ class HyperSearchProcess(Process):
         throttle=True,
         *,
         strip_pack=False,
+        container_height=None,
         container_min_height=None,
         _force_raise_error_index=None,
     ):
@@ -55,6 +56,8 @@ class HyperSearchProcess(Process):
             params.update({"containers": containers})
 
         self.instance = HyperPack(**params)
+        if container_height is not None:
+            self.instance._container_height = container_height
         self.instance._container_min_height = container_min_height
         self.instance.start_time = start_time
         # it is the processe's name
-- 
2.43.0


From 196b9ca0bc874e4cd34e1284c378c4c77e62b3fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:21 +0000
Subject: [PATCH 11/26] fix: use the strip packing suffix in strip packing
 strategies

get_strategies picked STRATEGIES_SUFFIX_STRIPACK but appended
STRATEGIES_SUFFIX.
---
 hyperpack/heuristics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperpack/heuristics.py b/hyperpack/heuristics.py
index a7287ea..7defec7 100644
--- a/hyperpack/heuristics.py
+++ b/hyperpack/heuristics.py
@@ -444,7 +444,7 @@ class HyperPack(
             points = set(self.DEFAULT_POTENTIAL_POINTS_STRATEGY)
             points_to_permutate = points.difference(set(suffixes))
             return [
-                x + self.STRATEGIES_SUFFIX
+                x + suffixes
                 for x in list(
                     permutations(list(points_to_permutate), len(points_to_permutate))
                 )
-- 
2.43.0


From 4e7878cc922aa6feb4d1030f369c0197211d37b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:17 +0000
Subject: [PATCH 12/26] fix: get the hypersearch workers' outputs before
 joining them

A worker whose output exceeds the pipe's buffer never exits until the output
is read, so hypersearch blocked forever on many items or long ids. It also
blocked forever on the output of a worker that was killed; such a worker now
counts as failed.
---
 hyperpack/heuristics.py | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/hyperpack/heuristics.py b/hyperpack/heuristics.py
index 7defec7..3c027dd 100644
--- a/hyperpack/heuristics.py
+++ b/hyperpack/heuristics.py
@@ -4,6 +4,7 @@ import sys
 import time
 from itertools import permutations
 from multiprocessing import Array, cpu_count, current_process
+from queue import Empty
 
 from . import constants
 from . import mixins
@@ -484,6 +485,20 @@ class HyperPack(
                 break
         return *retain_solution, best_strategy
 
+    def _get_process_output(self, process):
+        """
+        Waits for the output of a hypersearch process.
+
+        Returns ``None`` if the process ended without any output (e.g. killed).
+        """
+        while True:
+            is_alive = process.is_alive()
+            try:
+                return process.queue.get(timeout=0.1)
+            except Empty:
+                if not is_alive:
+                    return None
+
     def _multi_process_hypersearch(
         self, strategies: tuple, throttle: bool, _force_raise_error_index
     ):
@@ -517,10 +532,15 @@ class HyperPack(
             )
         for p in processes:
             p.start()
+        # a process can't exit until its queue is emptied, thus getting before joining
+        outputs = [self._get_process_output(p) for p in processes]
         for p in processes:
             p.join()
         # at this point the processes concluded operation
-        shared_list = list(shared_Array)
+        shared_list = [
+            obj_value if output is not None else -1
+            for obj_value, output in zip(shared_Array, outputs)
+        ]
 
         # check if all/some processes failed
         if max(shared_list) == -1:
@@ -534,7 +554,7 @@ class HyperPack(
         shared_list_optimum = self._get_array_optimum(shared_list)
         win_process_index = shared_list.index(shared_list_optimum)
         win_process = processes[win_process_index]
-        win_metrics = win_process.queue.get()
+        win_metrics = outputs[win_process_index]
 
         best_solution = self._deepcopy_solution(win_metrics[1])
         best_obj_val_per_container = self._copy_objective_val_per_container(
-- 
2.43.0


From 0da1684d3c310c262aa70be42a0a77b662abb786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:24 +0000
Subject: [PATCH 13/26] fix: stop hypersearch when the maximum utilization is
 found

The documented stopping criterion never fired: the optimum objective value of
the search was infinite, and it wasn't checked for the initial solution. All
the remaining strategies were tried until max_time_in_seconds.
---
 hyperpack/heuristics.py |  6 +++---
 hyperpack/mixins.py     | 12 ++++++++++++
 hyperpack/processes.py  |  4 +++-
 3 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/hyperpack/heuristics.py b/hyperpack/heuristics.py
index 3c027dd..ddbe0ad 100644
--- a/hyperpack/heuristics.py
+++ b/hyperpack/heuristics.py
@@ -476,9 +476,9 @@ class HyperPack(
                 best_strategy = [point for point in strategy]
                 hyperLogger.debug(f"\tNew best solution: {best_obj_value}\n")
 
-                if self.global_check(new_obj_val, optimum_obj_value):
-                    hyperLogger.debug("Terminating due to max objective value obtained")
-                    break
+            if self.global_check(best_obj_value, optimum_obj_value):
+                hyperLogger.debug("Terminating due to max objective value obtained")
+                break
 
             if time.time() - self.start_time > self._max_time_in_seconds:
                 hyperLogger.debug("Terminating due to surpassed max time")
diff --git a/hyperpack/mixins.py b/hyperpack/mixins.py
index b0fa700..2926a0b 100644
--- a/hyperpack/mixins.py
+++ b/hyperpack/mixins.py
@@ -1132,6 +1132,18 @@ class LocalSearchMixin(AbstractLocalSearch, DeepcopyMixin):
                 sum([u for u in containers_obj_vals[:-1]]) + 0.7 * containers_obj_vals[-1]
             )
 
+    def get_optimum_objective_val(self):
+        """
+        The objective value of fully utilized containers. The tolerance stands for
+        the floating point errors of summing up the items' utilizations.
+        """
+        if self._containers_num == 1:
+            optimum = self.max_obj_value
+        else:
+            optimum = (self._containers_num - 1 + 0.7) * self.max_obj_value
+
+        return optimum - 1e-9
+
     def get_init_solution(self):
         self.solve(debug=False)
         # deepcopying solution
diff --git a/hyperpack/processes.py b/hyperpack/processes.py
index cc8eccb..730c5ab 100644
--- a/hyperpack/processes.py
+++ b/hyperpack/processes.py
@@ -109,7 +109,9 @@ class HyperSearchProcess(Process):
                         break
 
                 # check if any process has reached global optimum
-                global_optima = is_global(array_optimum, optimum_obj_value)
+                global_optima = is_global(
+                    max(array_optimum, best_obj_value), optimum_obj_value
+                )
                 out_of_time = time() - start_time > max_time_in_seconds
 
                 if out_of_time:
-- 
2.43.0


From 458e5fba29f7bb1aa09c6d8ff1449e25eca72330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:38 +0000
Subject: [PATCH 14/26] fix: leave the potential points strategy as set after
 hypersearch

Single process hypersearch left the last strategy it tried on the instance,
for all the following solving operations, and reported the default strategy
as best for an initial solution found with another one.
---
 hyperpack/heuristics.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/hyperpack/heuristics.py b/hyperpack/heuristics.py
index ddbe0ad..b5472ab 100644
--- a/hyperpack/heuristics.py
+++ b/hyperpack/heuristics.py
@@ -461,7 +461,9 @@ class HyperPack(
         retain_solution = self.get_init_solution()
         best_obj_value = self.calculate_obj_value()
         optimum_obj_value = self.get_optimum_objective_val()
-        best_strategy = self.DEFAULT_POTENTIAL_POINTS_STRATEGY
+        # the search must not change the strategy the instance is set to
+        init_strategy = self._potential_points_strategy
+        best_strategy = init_strategy
 
         for strategy in strategies:
             # set the construction heuristic's potential points strategy
@@ -483,6 +485,8 @@ class HyperPack(
             if time.time() - self.start_time > self._max_time_in_seconds:
                 hyperLogger.debug("Terminating due to surpassed max time")
                 break
+
+        self._potential_points_strategy = init_strategy
         return *retain_solution, best_strategy
 
     def _get_process_output(self, process):
-- 
2.43.0


From dabb1cdf2a0e2d39646b8bda687f605cb0a11900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:54 +0000
Subject: [PATCH 15/26] fix: validate in place union of items, containers and
 dimensions

UserDict implements |= without __setitem__, so values weren't validated and
the solution wasn't reset.
---
 hyperpack/heuristics.py |  6 ++++++
 hyperpack/structures.py | 15 +++++++++++++++
 2 files changed, 21 insertions(+)

diff --git a/hyperpack/heuristics.py b/hyperpack/heuristics.py
index b5472ab..f5210bf 100644
--- a/hyperpack/heuristics.py
+++ b/hyperpack/heuristics.py
@@ -111,6 +111,9 @@ class BasePackingProblem:
 
     @items.setter
     def items(self, value):
+        # in place update (|=) of the items, already validated
+        if value is self._items:
+            return
         self._items = Items(value, self)
 
     @items.deleter
@@ -127,6 +130,9 @@ class BasePackingProblem:
     def containers(self, value):
         if self._strip_pack:
             raise ContainersError(ContainersError.STRIP_PACK_ONLY)
+        # in place update (|=) of the containers, already validated
+        if value is self._containers:
+            return
         self._containers = Containers(value, self)
         self._containers_num = len(value)
 
diff --git a/hyperpack/structures.py b/hyperpack/structures.py
index 3311975..7c28e3c 100644
--- a/hyperpack/structures.py
+++ b/hyperpack/structures.py
@@ -121,6 +121,11 @@ class Dimensions(UserDict):
     def __delitem__(self, key: str):
         raise DimensionsError(DimensionsError.CANT_DELETE)
 
+    def __ior__(self, other):
+        # UserDict's implementation bypasses __setitem__
+        self.update(other)
+        return self
+
 
 class AbstractStructureSet(UserDict):
     """
@@ -170,6 +175,11 @@ class AbstractStructureSet(UserDict):
         if self.instance._strip_pack and isinstance(self, Containers):
             raise ContainersError(ContainersError.STRIP_PACK_ONLY)
 
+        # in place update (|=) of the dimensions, already validated
+        if isinstance(new_dimensions, Dimensions):
+            if new_dimensions is self.data.get(structure_id):
+                return
+
         self.data[structure_id] = self.get_dimensions(structure_id, new_dimensions)
 
         if self.instance is not None:
@@ -182,6 +192,11 @@ class AbstractStructureSet(UserDict):
         del self.data[key]
         self.reset_instance_attrs()
 
+    def __ior__(self, other):
+        # UserDict's implementation bypasses __setitem__
+        self.update(other)
+        return self
+
     def get_dimensions(self, structure_id, dims):
         # The structure's dimension is an instance
         # of the Dimensions class
-- 
2.43.0


From 6bba068b672947682e3d7d9dcdbeac37a1d1512a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:28 +0000
Subject: [PATCH 16/26] fix: make the order of hypersearch strategies
 reproducible

---
 hyperpack/heuristics.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/hyperpack/heuristics.py b/hyperpack/heuristics.py
index f5210bf..d35cee6 100644
--- a/hyperpack/heuristics.py
+++ b/hyperpack/heuristics.py
@@ -448,12 +448,16 @@ class HyperPack(
             else self.STRATEGIES_SUFFIX
         )
         if _exhaustive:
-            points = set(self.DEFAULT_POTENTIAL_POINTS_STRATEGY)
-            points_to_permutate = points.difference(set(suffixes))
+            # strategies' order must not depend on the hashing of the points
+            points_to_permutate = [
+                point
+                for point in self.DEFAULT_POTENTIAL_POINTS_STRATEGY
+                if point not in suffixes
+            ]
             return [
                 x + suffixes
                 for x in list(
-                    permutations(list(points_to_permutate), len(points_to_permutate))
+                    permutations(points_to_permutate, len(points_to_permutate))
                 )
             ]
         else:
-- 
2.43.0


From 8c11c79cb688d93b4e971db353007cc13f6949a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:16 +0000
Subject: [PATCH 17/26] fix: share hypersearch values without a lock a killed
 process could hold

---
 hyperpack/heuristics.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hyperpack/heuristics.py b/hyperpack/heuristics.py
index d35cee6..9b2c28b 100644
--- a/hyperpack/heuristics.py
+++ b/hyperpack/heuristics.py
@@ -524,7 +524,9 @@ class HyperPack(
 
         processes = []
         min_val = 0
-        shared_Array = Array("d", [min_val] * len(strategies_chunks))
+        # each process sets only its own value, and a process killed while
+        # holding a lock would block the rest of them
+        shared_Array = Array("d", [min_val] * len(strategies_chunks), lock=False)
         container_min_height = getattr(self, "container_min_height", None)
         for i, strategies_chunk in enumerate(strategies_chunks):
             processes.append(
-- 
2.43.0


From 7e0d050773adb6b25ca47f50194113147e1ce6e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:42 +0000
Subject: [PATCH 18/26] fix: start multi process hypersearch from the
 instance's strategy

The workers' initial solution was constructed with the default strategy, so
the search could return a worse solution than the one it should start from.
---
 hyperpack/heuristics.py | 1 +
 hyperpack/processes.py  | 3 +++
 2 files changed, 4 insertions(+)

diff --git a/hyperpack/heuristics.py b/hyperpack/heuristics.py
index 9b2c28b..4086069 100644
--- a/hyperpack/heuristics.py
+++ b/hyperpack/heuristics.py
@@ -543,6 +543,7 @@ class HyperPack(
                     throttle=throttle,
                     container_height=self._container_height,
                     container_min_height=container_min_height,
+                    potential_points_strategy=self._potential_points_strategy,
                     _force_raise_error_index=_force_raise_error_index,
                 )
             )
diff --git a/hyperpack/processes.py b/hyperpack/processes.py
index 730c5ab..2054e93 100644
--- a/hyperpack/processes.py
+++ b/hyperpack/processes.py
@@ -33,6 +33,7 @@ class HyperSearchProcess(Process):
         strip_pack=False,
         container_height=None,
         container_min_height=None,
+        potential_points_strategy=None,
         _force_raise_error_index=None,
     ):
         super().__init__()
@@ -59,6 +60,8 @@ class HyperSearchProcess(Process):
         if container_height is not None:
             self.instance._container_height = container_height
         self.instance._container_min_height = container_min_height
+        if potential_points_strategy is not None:
+            self.instance._potential_points_strategy = potential_points_strategy
         self.instance.start_time = start_time
         # it is the processe's name
         self.name = name
-- 
2.43.0


From 55c94e11bf5308a5892e4fb4fdffd07f888ae22b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:30 +0000
Subject: [PATCH 19/26] fix: reject figure export paths the system can't look
 up

---
 hyperpack/mixins.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hyperpack/mixins.py b/hyperpack/mixins.py
index 2926a0b..b4f1f71 100644
--- a/hyperpack/mixins.py
+++ b/hyperpack/mixins.py
@@ -1,4 +1,5 @@
 import math
+import os
 import time
 
 from .abstract import AbstractLocalSearch
@@ -764,11 +765,10 @@ class SolutionFigureMixin:
                 if not isinstance(export_path, str):
                     raise SettingsError(SettingsError.FIGURE_EXPORT_PATH_VALUE)
 
-                export_path = Path(export_path)
-                if not export_path.exists():
+                if not os.path.exists(export_path):
                     raise SettingsError(SettingsError.FIGURE_EXPORT_PATH_NOT_EXISTS)
 
-                if not export_path.is_dir():
+                if not os.path.isdir(export_path):
                     raise SettingsError(SettingsError.FIGURE_EXPORT_PATH_NOT_DIRECTORY)
 
                 file_format = export.get("format")
-- 
2.43.0


From f21b10c5ca0b5814fdaf1e2ef8ba168c1a909c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:43 +0000
Subject: [PATCH 20/26] fix: copying the items, containers or their dimensions
 reset the solution or failed

---
 hyperpack/structures.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/hyperpack/structures.py b/hyperpack/structures.py
index 7c28e3c..69fb7f0 100644
--- a/hyperpack/structures.py
+++ b/hyperpack/structures.py
@@ -126,6 +126,10 @@ class Dimensions(UserDict):
         self.update(other)
         return self
 
+    def copy(self):
+        # UserDict's implementation resets the instance's solution
+        return self.data.copy()
+
 
 class AbstractStructureSet(UserDict):
     """
@@ -197,6 +201,10 @@ class AbstractStructureSet(UserDict):
         self.update(other)
         return self
 
+    def copy(self):
+        # UserDict's implementation can't instantiate the dimensions
+        return self.deepcopy()
+
     def get_dimensions(self, structure_id, dims):
         # The structure's dimension is an instance
         # of the Dimensions class
-- 
2.43.0


From 9bfe0e669f437ff74ff35c4e855a1bf828f4686d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:23 +0000
Subject: [PATCH 21/26] fix: an interrupted hypersearch left the instance with
 a searched strategy

---
 hyperpack/heuristics.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/hyperpack/heuristics.py b/hyperpack/heuristics.py
index 4086069..e55762f 100644
--- a/hyperpack/heuristics.py
+++ b/hyperpack/heuristics.py
@@ -655,13 +655,18 @@ class HyperPack(
 
         strategies = self.get_strategies(_exhaustive=_exhaustive)
 
-        self.solution, self.obj_val_per_container, self.best_strategy = (
-            self._single_process_hypersearch(strategies, throttle)
-            if self._workers_num == 1
-            else self._multi_process_hypersearch(
-                strategies, throttle, _force_raise_error_index
+        init_strategy = self._potential_points_strategy
+        try:
+            self.solution, self.obj_val_per_container, self.best_strategy = (
+                self._single_process_hypersearch(strategies, throttle)
+                if self._workers_num == 1
+                else self._multi_process_hypersearch(
+                    strategies, throttle, _force_raise_error_index
+                )
             )
-        )
+        finally:
+            # an interrupted search must not change the instance's strategy either
+            self._potential_points_strategy = init_strategy
 
         total_time = time.time() - self.start_time
         hyperLogger.debug(f"Execution time : {total_time} [sec]")
-- 
2.43.0


From b72fd9d55c55386d34f824db00f5ded6265999e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:37 +0000
Subject: [PATCH 22/26] fix: the processes of an interrupted hypersearch went
 on searching

---
 hyperpack/heuristics.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/hyperpack/heuristics.py b/hyperpack/heuristics.py
index e55762f..3e9b812 100644
--- a/hyperpack/heuristics.py
+++ b/hyperpack/heuristics.py
@@ -547,12 +547,19 @@ class HyperPack(
                     _force_raise_error_index=_force_raise_error_index,
                 )
             )
-        for p in processes:
-            p.start()
-        # a process can't exit until its queue is emptied, thus getting before joining
-        outputs = [self._get_process_output(p) for p in processes]
-        for p in processes:
-            p.join()
+        try:
+            for p in processes:
+                p.start()
+            # a process can't exit until its queue is emptied, thus getting before joining
+            outputs = [self._get_process_output(p) for p in processes]
+            for p in processes:
+                p.join()
+        except BaseException:
+            # interrupted, nobody is going to wait for the processes
+            for p in processes:
+                if p.is_alive():
+                    p.terminate()
+            raise
         # at this point the processes concluded operation
         shared_list = [
             obj_value if output is not None else -1
-- 
2.43.0


From 0f00d870af84e281ec71666d45a99a4eb3a27492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:47 +0000
Subject: [PATCH 23/26] fix: the processes of a hypersearch ignored the default
 settings of a subclass

---
 hyperpack/heuristics.py | 2 ++
 hyperpack/processes.py  | 7 +++++++
 2 files changed, 9 insertions(+)

diff --git a/hyperpack/heuristics.py b/hyperpack/heuristics.py
index 3e9b812..fb961cb 100644
--- a/hyperpack/heuristics.py
+++ b/hyperpack/heuristics.py
@@ -543,6 +543,8 @@ class HyperPack(
                     throttle=throttle,
                     container_height=self._container_height,
                     container_min_height=container_min_height,
+                    rotation=self._rotation,
+                    max_time_in_seconds=self._max_time_in_seconds,
                     potential_points_strategy=self._potential_points_strategy,
                     _force_raise_error_index=_force_raise_error_index,
                 )
diff --git a/hyperpack/processes.py b/hyperpack/processes.py
index 2054e93..35c7843 100644
--- a/hyperpack/processes.py
+++ b/hyperpack/processes.py
@@ -33,6 +33,8 @@ class HyperSearchProcess(Process):
         strip_pack=False,
         container_height=None,
         container_min_height=None,
+        rotation=None,
+        max_time_in_seconds=None,
         potential_points_strategy=None,
         _force_raise_error_index=None,
     ):
@@ -60,6 +62,11 @@ class HyperSearchProcess(Process):
         if container_height is not None:
             self.instance._container_height = container_height
         self.instance._container_min_height = container_min_height
+        # the defaults of the solving instance's class may differ
+        if rotation is not None:
+            self.instance._rotation = rotation
+        if max_time_in_seconds is not None:
+            self.instance._max_time_in_seconds = max_time_in_seconds
         if potential_points_strategy is not None:
             self.instance._potential_points_strategy = potential_points_strategy
         self.instance.start_time = start_time
-- 
2.43.0


From 588c8e4dbc5c8a5bb7ebddf7ef8ede4f8394cad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:47 +0000
Subject: [PATCH 24/26] fix: a hypersearch of many processes failed when its
 figures' directory didn't exist any more

---
 hyperpack/processes.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hyperpack/processes.py b/hyperpack/processes.py
index 35c7843..61667d9 100644
--- a/hyperpack/processes.py
+++ b/hyperpack/processes.py
@@ -51,6 +51,8 @@ class HyperSearchProcess(Process):
         settings = deepcopy(settings)
         if "workers_num" in settings:
             settings["workers_num"] = 1
+        # no figures are created here, thus nothing to validate for them
+        settings.pop("figure", None)
         params = {"items": items, "settings": settings}
 
         if strip_pack:
-- 
2.43.0


From 70ed6beb4b282510c5693470f373bbb02f01940d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:38 +0000
Subject: [PATCH 25/26] fix: invalid width and height of a figure exported to
 html were accepted

---
 hyperpack/mixins.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/hyperpack/mixins.py b/hyperpack/mixins.py
index b4f1f71..4bb1145 100644
--- a/hyperpack/mixins.py
+++ b/hyperpack/mixins.py
@@ -801,14 +801,14 @@ class SolutionFigureMixin:
                     if not self._kaleido_ver_ok:
                         raise SettingsError(SettingsError.FIGURE_EXPORT_KALEIDO_VERSION)
 
-                    export_width = export.get("width")
-                    if export_width is not None:
-                        if not isinstance(export_width, int) or export_width <= 0:
-                            raise SettingsError(SettingsError.FIGURE_EXPORT_WIDTH_VALUE)
-                    export_height = export.get("height")
-                    if export_height is not None:
-                        if not isinstance(export_height, int) or export_height <= 0:
-                            raise SettingsError(SettingsError.FIGURE_EXPORT_HEIGHT_VALUE)
+                export_width = export.get("width")
+                if export_width is not None:
+                    if not isinstance(export_width, int) or export_width <= 0:
+                        raise SettingsError(SettingsError.FIGURE_EXPORT_WIDTH_VALUE)
+                export_height = export.get("height")
+                if export_height is not None:
+                    if not isinstance(export_height, int) or export_height <= 0:
+                        raise SettingsError(SettingsError.FIGURE_EXPORT_HEIGHT_VALUE)
 
             show = figure_settings.get("show", False)
             if not isinstance(show, bool):
-- 
2.43.0


From a1026e376bab871bb90cb201c59233ae5574e70b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:38 +0000
Subject: [PATCH 26/26] fix: the show parameter of create_figure had precedence
 over the setting

---
 hyperpack/mixins.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperpack/mixins.py b/hyperpack/mixins.py
index 4bb1145..5e7599d 100644
--- a/hyperpack/mixins.py
+++ b/hyperpack/mixins.py
@@ -864,7 +864,7 @@ class SolutionFigureMixin:
 
         figure_settings = self._settings.get("figure", {})
         export = figure_settings.get("export")
-        show = figure_settings.get("show") or show
+        show = figure_settings.get("show", show)
 
         if not show and export is None:
             hyperLogger.warning(FigureExportError.NO_FIGURE_OPERATION)
-- 
2.43.0

