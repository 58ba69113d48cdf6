From f861e2dd23d0cb043b9ab20a781d9114aad0d2ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:10 +0000
Subject: [PATCH 01/22] fix: draw neighbour tuples from a sequence,
 random.sample rejects sets since Python 3.11

Every identification of a cluster with more than one position raised
TypeError.
---
 nodefinder/identify/_dimension.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nodefinder/identify/_dimension.py b/nodefinder/identify/_dimension.py
index e87d207..9f5fe2d 100644
--- a/nodefinder/identify/_dimension.py
+++ b/nodefinder/identify/_dimension.py
@@ -155,7 +155,8 @@ def _has_dimension(
         num_draws = 10
         while neighbour_tuples:
             vals = random.sample(
-                neighbour_tuples, min(num_draws, len(neighbour_tuples))
+                sorted(neighbour_tuples),
+                min(num_draws, len(neighbour_tuples))
             )
             yield from vals
             neighbour_tuples -= set(vals)
-- 
2.43.0


From b482313609c0405ab29bd57c5615523fd287828f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:10 +0000
Subject: [PATCH 02/22] fix: load identification results with h5py versions
 raising TypeError on group[()]

---
 nodefinder/identify/result/_containers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nodefinder/identify/result/_containers.py b/nodefinder/identify/result/_containers.py
index 22b5062..9cbf4a9 100644
--- a/nodefinder/identify/result/_containers.py
+++ b/nodefinder/identify/result/_containers.py
@@ -83,10 +83,10 @@ class IdentificationResult(SimpleNamespace, HDF5Enabled):
         shape = from_hdf5(hdf5_handle['shape'])
         try:
             dimension = hdf5_handle['dimension'][()]
-        except AttributeError:
+        except (AttributeError, TypeError):
             dimension = from_hdf5(hdf5_handle['dimension'])
         try:
             positions = [tuple(x) for x in hdf5_handle['positions'][()]]
-        except AttributeError:
+        except (AttributeError, TypeError):
             positions = from_hdf5(hdf5_handle['positions'])
         return cls(positions=positions, dimension=dimension, shape=shape)
-- 
2.43.0


From afde52ddf7774eb6985339bffce7ad2876c054cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:10 +0000
Subject: [PATCH 03/22] fix: unwrap the controller state before reading the
 default feature_size

identify.run on a loaded save file without explicit feature_size raised
AttributeError.
---
 nodefinder/identify/_run.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nodefinder/identify/_run.py b/nodefinder/identify/_run.py
index 233b13a..1ab7379 100644
--- a/nodefinder/identify/_run.py
+++ b/nodefinder/identify/_run.py
@@ -30,10 +30,10 @@ def run(result, feature_size=None, evaluate_line_method='ballistic'):
         Distance between two nodal points at which they are considered distinct.
         Uses the ``feature_size`` used in the search step by default.
     """
-    if feature_size is None:
-        feature_size = result.dist_cutoff * _DIST_CUTOFF_FACTOR
     if isinstance(result, ControllerState):
         result = result.result
+    if feature_size is None:
+        feature_size = result.dist_cutoff * _DIST_CUTOFF_FACTOR
     positions = [node.pos for node in result.nodes]
     coordinate_system = result.coordinate_system
     return run_from_positions(
-- 
2.43.0


From 13d3abf7f6a410f68ed9b90a81d1162972137729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:10 +0000
Subject: [PATCH 04/22] fix: map periodic averages into the limits, also for a
 non-zero lower limit

---
 nodefinder/coordinate_system.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nodefinder/coordinate_system.py b/nodefinder/coordinate_system.py
index 3291463..c6e4a69 100644
--- a/nodefinder/coordinate_system.py
+++ b/nodefinder/coordinate_system.py
@@ -100,7 +100,9 @@ class CoordinateSystem(SimpleHDF5Mapping):
         else:
             origin = positions[0]
             deltas = [self.connecting_vector(origin, pos) for pos in positions]
-            return (origin + np.average(deltas, axis=0)) % self.size
+            return self.normalize_position(
+                origin + np.average(deltas, axis=0)
+            )
 
     def normalize_position(self, pos):
         """
-- 
2.43.0


From f8ea96d577b06e1fc9e28d71958598e32b347784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:10 +0000
Subject: [PATCH 05/22] fix: queue an object only once if it occurs repeatedly
 in a single batch

A simplex occuring twice in a refinement stencil was run twice, and the
second call to 'set_finished' aborted the search with a KeyError.
---
 nodefinder/search/_queue.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nodefinder/search/_queue.py b/nodefinder/search/_queue.py
index 549816c..46498b7 100644
--- a/nodefinder/search/_queue.py
+++ b/nodefinder/search/_queue.py
@@ -23,7 +23,7 @@ class ObjectQueue(HDF5Enabled, ABC):
     HDF5_ATTRIBUTES = ['objects']
 
     def __init__(self, objects=frozenset()):
-        all_objects = self.normalize(objects)
+        all_objects = list(dict.fromkeys(self.normalize(objects)))
         self._queued_objects = Queue()
         self._extend_queue(all_objects)
 
@@ -45,7 +45,7 @@ class ObjectQueue(HDF5Enabled, ABC):
         """
         Add new objects to the queue.
         """
-        new_objects = self.normalize(objects)
+        new_objects = dict.fromkeys(self.normalize(objects))
         new_objects_filtered = [
             obj for obj in new_objects if obj not in self._all_objects
         ]
-- 
2.43.0


From 14ead548ebad94b1c54e38ea180ae5b7235799fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:11 +0000
Subject: [PATCH 06/22] fix: visit each neighbouring cell only once when the
 cell list wraps around

With less than three cells along a periodic direction, each neighbour was
reported several times.
---
 nodefinder/search/result/_cell_list.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/nodefinder/search/result/_cell_list.py b/nodefinder/search/result/_cell_list.py
index 1d6c232..be2f4b1 100644
--- a/nodefinder/search/result/_cell_list.py
+++ b/nodefinder/search/result/_cell_list.py
@@ -50,7 +50,12 @@ class CellList:
         indices = idx + self._neighbour_offset
 
         if self.periodic:
-            return [tuple(i % self._total_num_cells) for i in indices]
+            # with less than three cells, different offsets wrap to the same cell
+            return list(
+                dict.fromkeys(
+                    tuple(i % self._total_num_cells) for i in indices
+                )
+            )
         return [
             tuple(i) for i in indices
             if np.all(i >= 0) and np.all(i < self._total_num_cells)
-- 
2.43.0


From a3abd487f96202b60abfce329151facf84bedffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:11 +0000
Subject: [PATCH 07/22] fix: pass on exceptions not derived from Exception from
 the search thread

The caller of 'run' waited forever for a result, for example when the gap
function raised CancelledError or SystemExit.
---
 nodefinder/search/_run.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nodefinder/search/_run.py b/nodefinder/search/_run.py
index 32d7c54..44ea095 100644
--- a/nodefinder/search/_run.py
+++ b/nodefinder/search/_run.py
@@ -192,6 +192,6 @@ def _run_in_thread(*args, res_queue, exc_queue, **kwargs):
         res = loop.run_until_complete(run_async(*args, **kwargs))
         loop.close()
         res_queue.put(res)
-    except Exception as exc:
+    except BaseException as exc:
         exc_queue.put(exc)
         raise
-- 
2.43.0


From 78e88076fb492835ad6465d9dbf0d31ceb5fa380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:11 +0000
Subject: [PATCH 08/22] fix: use the value of the best vertex as result of the
 minimization

np.min propagates NaN values of other vertices: a minimization aborted by
the fprime_cutoff was reported as successful, and added as a node.
---
 nodefinder/search/_minimization/_nelder_mead.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nodefinder/search/_minimization/_nelder_mead.py b/nodefinder/search/_minimization/_nelder_mead.py
index bafc0cb..9a9cee6 100644
--- a/nodefinder/search/_minimization/_nelder_mead.py
+++ b/nodefinder/search/_minimization/_nelder_mead.py
@@ -201,7 +201,7 @@ async def root_nelder_mead(
             simplex_history[0] = np.copy(sim)
 
     x = sim[0]
-    fval = np.min(fsim)
+    fval = fsim[0]
     warnflag = 0
 
     if fcalls[0] >= maxfun:
-- 
2.43.0


From cd296414f40c8520b8796c7e0d813bdcf26e70bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:11 +0000
Subject: [PATCH 09/22] fix: stop the remaining minimizations when the search
 is aborted

After a failure, the other minimizations kept evaluating the gap function
in the background.
---
 nodefinder/search/_controller.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/nodefinder/search/_controller.py b/nodefinder/search/_controller.py
index f504854..7270fe2 100644
--- a/nodefinder/search/_controller.py
+++ b/nodefinder/search/_controller.py
@@ -186,7 +186,13 @@ class Controller:
         )
 
     async def run(self):
-        await self.create_tasks()
+        try:
+            await self.create_tasks()
+        finally:
+            # Don't leave minimizations running when the search is aborted.
+            for fut in self.task_futures:
+                fut.cancel()
+            await asyncio.gather(*self.task_futures, return_exceptions=True)
 
     async def create_tasks(self):
         """
-- 
2.43.0


From d4919fc5120f40eb3e0657120c4b3882cf7361c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:11 +0000
Subject: [PATCH 10/22] fix: allow restarting without refinement from a state
 with queued positions

This raised a TypeError from adding the missing stencil to the position.
---
 nodefinder/search/_controller.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/nodefinder/search/_controller.py b/nodefinder/search/_controller.py
index 7270fe2..d80cc33 100644
--- a/nodefinder/search/_controller.py
+++ b/nodefinder/search/_controller.py
@@ -201,14 +201,14 @@ class Controller:
         async with PeriodicTask(self.save, delay=self.save_delay):
             while (
                 not self.state.simplex_queue.finished
-            ) or self.state.position_queue.has_queued:
+            ) or self._has_queued_positions:
                 # if (not self.state.simplex_queue.has_queued) and (self.state.position_queue.has_queued):
                 while (
                     self.state.simplex_queue.num_running <
                     self.num_minimize_parallel
                 ):
                     while not self.state.simplex_queue.has_queued:
-                        if self.state.position_queue.has_queued:
+                        if self._has_queued_positions:
                             pos = self.state.position_queue.pop_queued()
                             if (not self.recheck_pos_dist
                                 ) or self._check_pos_refinement(
@@ -248,6 +248,17 @@ class Controller:
                 self.task_futures.difference_update(done_futures)
         await asyncio.gather(*self.task_futures)
 
+    @property
+    def _has_queued_positions(self):
+        """
+        Shows if there are positions which can be refined. Without refinement
+        stencil, queued positions are kept for a later calculation.
+        """
+        return (
+            self.refinement_stencil is not None
+            and self.state.position_queue.has_queued
+        )
+
     def schedule_minimization(self, simplex):
         SEARCH_LOGGER.debug(
             'Scheduling minimization of simplex {}'.format(simplex)
-- 
2.43.0


From 4d02a3b2005d5f0671e79aa8ff8a9cb88e061a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:11 +0000
Subject: [PATCH 11/22] fix: decode the message when loading a minimization
 result

---
 nodefinder/search/result/_minimization.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/nodefinder/search/result/_minimization.py b/nodefinder/search/result/_minimization.py
index cd1ec82..6c31907 100644
--- a/nodefinder/search/result/_minimization.py
+++ b/nodefinder/search/result/_minimization.py
@@ -103,9 +103,10 @@ class MinimizationResult(SimpleNamespace, HDF5Enabled):
 
     @classmethod
     def from_hdf5(cls, hdf5_handle):
-        return cls(
-            **{
-                key: val[()]
-                for key, val in hdf5_handle.items() if key != 'type_tag'
-            }
-        )
+        kwargs = {
+            key: val[()]
+            for key, val in hdf5_handle.items() if key != 'type_tag'
+        }
+        if isinstance(kwargs.get('message'), bytes):
+            kwargs['message'] = kwargs['message'].decode('utf-8')
+        return cls(**kwargs)
-- 
2.43.0


From 0e6a84039aa86a0cacbfac9f0933936fcd07d418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:11 +0000
Subject: [PATCH 12/22] fix: mark the result container as changed when adding a
 result

The assignment was unreachable.
---
 nodefinder/search/result/_search_result_container.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nodefinder/search/result/_search_result_container.py b/nodefinder/search/result/_search_result_container.py
index 75ee09d..ec5667f 100644
--- a/nodefinder/search/result/_search_result_container.py
+++ b/nodefinder/search/result/_search_result_container.py
@@ -96,6 +96,7 @@ class SearchResultContainer(SimpleHDF5Mapping):
         res : MinimizationResult
             Minimization result to add.
         """
+        self.needs_saving = True
         res.pos = self.coordinate_system.normalize_position(res.pos)
         if not res.success or res.value > self.gap_threshold:  # pylint: disable=no-else-return
             self.rejected_results.append(res)
@@ -103,7 +104,6 @@ class SearchResultContainer(SimpleHDF5Mapping):
         else:
             self.nodes.add_point(self.coordinate_system.get_frac(res.pos), res)
             return True
-        self.needs_saving = True
 
     def set_refined(self, pos):
         """
-- 
2.43.0


From e2bfe7fbdf13d394d4c3c3e3ec7b286503a990b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:44 +0000
Subject: [PATCH 13/22] fix: make the 'dominating_set' line evaluation usable

The edges of the dominating subgraph had no weight, such that sorting them
always raised a TypeError, and a disconnected subgraph raised NetworkXNoPath.
---
 .../_evaluate/_line/_dominating_set.py        | 20 ++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/nodefinder/identify/_evaluate/_line/_dominating_set.py b/nodefinder/identify/_evaluate/_line/_dominating_set.py
index 6da810d..28a7688 100644
--- a/nodefinder/identify/_evaluate/_line/_dominating_set.py
+++ b/nodefinder/identify/_evaluate/_line/_dominating_set.py
@@ -36,7 +36,7 @@ def _evaluate_line_dominating_set(*, graph, coordinate_system, feature_size):
             graph_reduced_neighbours.add_edge(*edge)
 
     dominating_set = nx.algorithms.dominating_set(graph_reduced_neighbours)
-    subgraph = graph.subgraph(dominating_set).copy()
+    subgraph = graph_copy.subgraph(dominating_set).copy()
 
     _patch_all_subgraph_holes(
         subgraph=subgraph,
@@ -76,7 +76,7 @@ def _patch_all_subgraph_holes(
             np.array(pos1), np.array(pos2)
         )
         if dist_minimal < 2 * feature_size:
-            dist_reduced = nx.algorithms.shortest_path_length(
+            dist_reduced = _get_path_length(
                 subgraph, pos1, pos2, weight=weight
             )
             if dist_reduced > max(feature_size, patch_cutoff * dist_minimal):
@@ -93,9 +93,7 @@ def _patch_all_subgraph_holes(
     to_patch = sorted(to_patch, key=operator.attrgetter('dist_original'))
     for edge, dist_original in to_patch:
         # might have changed since the subgraph is being patched
-        dist_reduced = nx.algorithms.shortest_path_length(
-            subgraph, *edge, weight=_DISTANCE_KEY
-        )
+        dist_reduced = _get_path_length(subgraph, *edge, weight=_DISTANCE_KEY)
         if dist_reduced > 2 * dist_original:
             IDENTIFY_LOGGER.debug(
                 'Patching hole {} in sub-graph.'.format(edge)
@@ -106,6 +104,18 @@ def _patch_all_subgraph_holes(
             )
 
 
+def _get_path_length(graph, start, end, *, weight):
+    """
+    Get the length of the shortest path, which is infinite if there is no path.
+    """
+    try:
+        return nx.algorithms.shortest_path_length(
+            graph, start, end, weight=weight
+        )
+    except nx.NetworkXNoPath:
+        return float('inf')
+
+
 def _patch_subgraph_hole(*, subgraph, graph, start, end):
     """
     Patch a single hole in the subgraph between the given start and end points.
-- 
2.43.0


From 89a7a0f1fd3f4105ebdf5815aaf52919dbb325dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:02 +0000
Subject: [PATCH 14/22] fix: find neighbours across an open box which is
 smaller than the cutoff

With a single cell in one direction, positions on opposite sides outside of
the box can be closer than the cutoff, but their cells were not neighbours.
---
 nodefinder/search/result/_cell_list.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/nodefinder/search/result/_cell_list.py b/nodefinder/search/result/_cell_list.py
index be2f4b1..62a0617 100644
--- a/nodefinder/search/result/_cell_list.py
+++ b/nodefinder/search/result/_cell_list.py
@@ -47,19 +47,25 @@ class CellList:
             return res
 
     def _calculate_neighbour_indices(self, idx):  # pylint: disable=missing-function-docstring
-        indices = idx + self._neighbour_offset
-
         if self.periodic:
+            indices = idx + self._neighbour_offset
             # with less than three cells, different offsets wrap to the same cell
             return list(
                 dict.fromkeys(
                     tuple(i % self._total_num_cells) for i in indices
                 )
             )
-        return [
-            tuple(i) for i in indices
-            if np.all(i >= 0) and np.all(i < self._total_num_cells)
-        ]
+        # A single cell may be smaller than the cutoff, in which case positions
+        # on opposite sides of the box can be neighbours.
+        return list(
+            itertools.product(
+                *[
+                    range(total) if num == 1 else
+                    range(max(0, i - 1), min(total, i + 2)) for i, num, total
+                    in zip(idx, self.num_cells, self._total_num_cells)
+                ]
+            )
+        )
 
     def add_point(self, frac, value):
         idx = self.get_index(frac)
-- 
2.43.0


From cb727a47079cc6731f694d1417ad76687eab238a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:02 +0000
Subject: [PATCH 15/22] fix: save the state after dropping a position from the
 refinement queue

---
 nodefinder/search/_queue.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/nodefinder/search/_queue.py b/nodefinder/search/_queue.py
index 46498b7..603f438 100644
--- a/nodefinder/search/_queue.py
+++ b/nodefinder/search/_queue.py
@@ -39,7 +39,12 @@ class ObjectQueue(HDF5Enabled, ABC):
         return list(self._queued_objects.queue)
 
     def pop_queued(self):
-        return self._queued_objects.get_nowait()
+        """
+        Remove the first object from the queue, and return it.
+        """
+        obj = self._queued_objects.get_nowait()
+        self.needs_saving = True
+        return obj
 
     def add_objects(self, objects):
         """
-- 
2.43.0


From 7322ef671cd29db80f567a6fccd4454376fe92c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:10 +0000
Subject: [PATCH 16/22] fix: cancel the search when search.run is interrupted

After a KeyboardInterrupt or SystemExit the tasks of the search stayed in the
event loop: they went on, and raised again, the next time the loop was used.
---
 nodefinder/search/_run.py | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/nodefinder/search/_run.py b/nodefinder/search/_run.py
index 44ea095..39681f3 100644
--- a/nodefinder/search/_run.py
+++ b/nodefinder/search/_run.py
@@ -9,6 +9,7 @@ Defines the function which runs the search step.
 import queue
 import asyncio
 import threading
+from contextlib import suppress
 from functools import partial
 from types import MappingProxyType
 
@@ -175,13 +176,30 @@ def run(*args, **kwargs):
             res = res_queue.get()
         else:
             SEARCH_LOGGER.debug('Running in the current thread.')
-            res = loop.run_until_complete(run_async(*args, **kwargs))
+            res = _run_in_loop(loop, *args, **kwargs)
     finally:
         if close_loop:
             loop.close()
     return res
 
 
+def _run_in_loop(loop, *args, **kwargs):
+    """
+    Helper function that runs the search function in a given event loop. If it
+    is interrupted (KeyboardInterrupt, SystemExit), the search is cancelled, such
+    that none of its tasks remain in the event loop.
+    """
+    task = loop.create_task(run_async(*args, **kwargs))
+    try:
+        return loop.run_until_complete(task)
+    finally:
+        while not task.done():
+            task.cancel()
+            # Other evaluations may raise as well.
+            with suppress(KeyboardInterrupt, SystemExit):
+                loop.run_until_complete(asyncio.wait([task]))
+
+
 def _run_in_thread(*args, res_queue, exc_queue, **kwargs):
     """
     Helper function that runs the search function, to be used as a thread target.
@@ -189,7 +207,7 @@ def _run_in_thread(*args, res_queue, exc_queue, **kwargs):
     """
     try:
         loop = asyncio.new_event_loop()
-        res = loop.run_until_complete(run_async(*args, **kwargs))
+        res = _run_in_loop(loop, *args, **kwargs)
         loop.close()
         res_queue.put(res)
     except BaseException as exc:
-- 
2.43.0


From 5304f1663422feb68dbfb921178634e4e81b3dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:52 +0000
Subject: [PATCH 17/22] fix: scale the tolerance in connecting_vector with the
 coordinates

---
 nodefinder/coordinate_system.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/nodefinder/coordinate_system.py b/nodefinder/coordinate_system.py
index c6e4a69..d66ec99 100644
--- a/nodefinder/coordinate_system.py
+++ b/nodefinder/coordinate_system.py
@@ -88,7 +88,11 @@ class CoordinateSystem(SimpleHDF5Mapping):
             delta = (pos2 - pos1) % self.size
             delta_negative = delta - self.size
             res = np.where(-delta_negative < delta, delta_negative, delta)
-            assert np.all(self.distance((res + pos1), pos2) < 1e-8)
+            scale = max(
+                np.max(np.abs(val), initial=1.)
+                for val in (pos1, pos2, self.size)
+            )
+            assert np.all(self.distance((res + pos1), pos2) < 1e-8 * scale)
             return res
 
     def average(self, positions):
-- 
2.43.0


From 4805e5aa6e89cb1ec4d29d51a5e1588964707689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:53 +0000
Subject: [PATCH 18/22] fix: keep the normalized position when saving a joined
 minimization result

---
 nodefinder/search/result/_minimization.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/nodefinder/search/result/_minimization.py b/nodefinder/search/result/_minimization.py
index 6c31907..9d09053 100644
--- a/nodefinder/search/result/_minimization.py
+++ b/nodefinder/search/result/_minimization.py
@@ -46,6 +46,17 @@ class JoinedMinimizationResult(SimpleHDF5Mapping):
         self.child = child
         self.ancestor = ancestor
 
+    @property
+    def pos(self):
+        """
+        Position of the child, stored there so that it is kept when saving.
+        """
+        return self.child.pos
+
+    @pos.setter
+    def pos(self, value):
+        self.child.pos = value
+
     def __getattr__(self, key):
         """
         Joins child and ancestor values where that makes sense, and returns the
-- 
2.43.0


From 3c9279ef631a8c80e7c674398f18cdcfc83ff5d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:47 +0000
Subject: [PATCH 19/22] fix: do not install a save file if writing it failed

---
 nodefinder/search/_controller.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/nodefinder/search/_controller.py b/nodefinder/search/_controller.py
index d80cc33..10ee1b3 100644
--- a/nodefinder/search/_controller.py
+++ b/nodefinder/search/_controller.py
@@ -10,6 +10,7 @@ import os
 import numbers
 import asyncio
 import tempfile
+from io import BytesIO
 from collections import ChainMap
 
 import numpy as np
@@ -330,7 +331,12 @@ class Controller:
                 dir=os.path.dirname(self.save_file), delete=False
             ) as tmpf:
                 try:
-                    io.save(self.state, tmpf.name)
+                    # HDF5 can lose errors which occur when it writes to disk,
+                    # so the content is created in memory first.
+                    content = BytesIO()
+                    io.save(self.state, content)
+                    tmpf.write(content.getvalue())
+                    tmpf.close()
                     os.rename(tmpf.name, self.save_file)
                     self.state.needs_saving = False
                 except Exception as exc:
-- 
2.43.0


From c1a2ba23d2d704aa9b144716eb9f2f1d5deb2e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:49 +0000
Subject: [PATCH 20/22] fix: load the degree_count of a nodal line as Counter
 again

---
 nodefinder/identify/result/_shapes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nodefinder/identify/result/_shapes.py b/nodefinder/identify/result/_shapes.py
index a6b1b6c..17b950f 100644
--- a/nodefinder/identify/result/_shapes.py
+++ b/nodefinder/identify/result/_shapes.py
@@ -6,6 +6,7 @@
 Defines the container classes for object shapes.
 """
 
+from collections import Counter
 from types import SimpleNamespace
 
 import numpy as np
@@ -78,7 +79,7 @@ class NodalLine(SimpleNamespace):
             graph.add_edges_from([(tuple(p1), tuple(p2))
                                   for p1, p2 in graph_group['edges']])
 
-        degree_count = from_hdf5(hdf5_handle['degree_count'])
+        degree_count = Counter(from_hdf5(hdf5_handle['degree_count']))
         return cls(graph=graph, degree_count=degree_count)
 
     @property
-- 
2.43.0


From b884778ef9f57fff998f64243291e2d294c6bb14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:49 +0000
Subject: [PATCH 21/22] fix: keep the results of an identification a list, also
 if loaded without any

---
 nodefinder/identify/result/_containers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nodefinder/identify/result/_containers.py b/nodefinder/identify/result/_containers.py
index 9cbf4a9..45fe9da 100644
--- a/nodefinder/identify/result/_containers.py
+++ b/nodefinder/identify/result/_containers.py
@@ -31,7 +31,7 @@ class IdentificationResultContainer(SimpleNamespace, SimpleHDF5Mapping):
 
     def __init__(self, *, coordinate_system, feature_size, results=()):
         self.coordinate_system = coordinate_system
-        self.results = results
+        self.results = list(results)
         self.feature_size = feature_size
 
     def __iter__(self):
-- 
2.43.0


From 08e607cf5a5bc5874f1ec9b903560861f328715c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:57:11 +0000
Subject: [PATCH 22/22] fix: do not change the results which a search is
 continued from

---
 nodefinder/search/result/_minimization.py            | 7 +++++++
 nodefinder/search/result/_search_result_container.py | 6 +++++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/nodefinder/search/result/_minimization.py b/nodefinder/search/result/_minimization.py
index 9d09053..c32c242 100644
--- a/nodefinder/search/result/_minimization.py
+++ b/nodefinder/search/result/_minimization.py
@@ -14,6 +14,7 @@
 Defines the result classes for the minimization.
 """
 
+import copy
 from types import SimpleNamespace
 
 import numpy as np
@@ -57,6 +58,12 @@ class JoinedMinimizationResult(SimpleHDF5Mapping):
     def pos(self, value):
         self.child.pos = value
 
+    def __copy__(self):
+        """
+        Creates a copy whose position can be set independently.
+        """
+        return type(self)(ancestor=self.ancestor, child=copy.copy(self.child))
+
     def __getattr__(self, key):
         """
         Joins child and ancestor values where that makes sense, and returns the
diff --git a/nodefinder/search/result/_search_result_container.py b/nodefinder/search/result/_search_result_container.py
index ec5667f..8a94c62 100644
--- a/nodefinder/search/result/_search_result_container.py
+++ b/nodefinder/search/result/_search_result_container.py
@@ -6,6 +6,8 @@
 Defines the top-level result class for the search step.
 """
 
+import copy
+
 import numpy as np
 from fsc.export import export
 from fsc.hdf5_io import SimpleHDF5Mapping, subscribe_hdf5
@@ -74,7 +76,9 @@ class SearchResultContainer(SimpleHDF5Mapping):
         )
         self.rejected_results = []
         for res in minimization_results:
-            self.add_result(res)
+            # The results may belong to another container, with a different
+            # coordinate system: normalizing must not change them there.
+            self.add_result(copy.copy(res))
         self.refined_results = CellList(
             num_cells=num_cells, periodic=self.coordinate_system.periodic
         )
-- 
2.43.0

