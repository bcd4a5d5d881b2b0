From 4016373bbd935693803097f89cd78d13f78a88ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:22 +0000
Subject: [PATCH 001/119] fix: index contractors' resource borders in
 chromosomes by worker kind

The borders were filled by position in each contractor's own dict while they are read by the common worker index,
so contractors listing kinds in another order got other kinds' limits (crashes and over-allocation).
---
 sampo/scheduler/genetic/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sampo/scheduler/genetic/utils.py b/sampo/scheduler/genetic/utils.py
index abd6406..f932bf6 100644
--- a/sampo/scheduler/genetic/utils.py
+++ b/sampo/scheduler/genetic/utils.py
@@ -50,8 +50,8 @@ def prepare_optimized_data_structures(wg: WorkGraph,
 
     contractor_borders = np.zeros((len(contractor2index), len(worker_name2index)), dtype=int)
     for ind, contractor in enumerate(contractors):
-        for ind_worker, worker in enumerate(contractor.workers.values()):
-            contractor_borders[ind, ind_worker] = worker.count
+        for worker_name, worker in contractor.workers.items():
+            contractor_borders[ind, worker_name2index[worker_name]] = worker.count
 
     nodes, node_id2parent_ids, node_id2child_ids = get_head_nodes_with_connections_mappings(wg)
     node_indices = list(range(len(nodes)))
-- 
2.43.0


From 0036a4594b306ecfcc7c1b2de754e9e8c35c5d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:22 +0000
Subject: [PATCH 002/119] fix: check predecessors of independent works in the
 just-in-time timeline

can_schedule_at_the_moment answered for a resource-independent work by its workers only, so the parallel SGS
started it before its predecessors and before the project's start.
---
 .../timeline/just_in_time_timeline.py         | 52 +++++--------------
 1 file changed, 14 insertions(+), 38 deletions(-)

diff --git a/sampo/scheduler/timeline/just_in_time_timeline.py b/sampo/scheduler/timeline/just_in_time_timeline.py
index 7115b87..ee26598 100644
--- a/sampo/scheduler/timeline/just_in_time_timeline.py
+++ b/sampo/scheduler/timeline/just_in_time_timeline.py
@@ -142,48 +142,24 @@ class JustInTimeTimeline(Timeline):
                                    node2swork: dict[GraphNode, ScheduledWork],
                                    start_time: Time,
                                    exec_time: Time) -> bool:
-        if spec.is_independent:
-            # squash all the timeline to the last point
-            for worker in worker_team:
-                worker_timeline = self._timeline[(worker.contractor_id, worker.name)]
-                last_cpkt_time, _ = worker_timeline[0]
-                if last_cpkt_time > start_time:
-                    return False
-            return True
-        else:
-            # checking edges
-            chain = set(node.get_inseparable_chain_with_self())
-            for dep_node in chain:
-                if any(p not in chain and p not in node2swork for p in dep_node.parents):
-                    return False
-            if node.min_start_time(node2swork) > start_time:
+        # checking edges
+        chain = set(node.get_inseparable_chain_with_self())
+        for dep_node in chain:
+            if any(p not in chain and p not in node2swork for p in dep_node.parents):
                 return False
+        if node.min_start_time(node2swork) > start_time:
+            return False
 
-            max_agent_time = Time(0)
-            for worker in worker_team:
-                needed_count = worker.count
-                offer_stack = self._timeline[worker.get_agent_id()]
-                # traverse list while not enough resources and grab it
-                ind = len(offer_stack) - 1
-                while needed_count > 0:
-                    offer_time, offer_count = offer_stack[ind]
-                    max_agent_time = max(max_agent_time, offer_time)
-
-                    if needed_count < offer_count:
-                        offer_count = needed_count
-                    needed_count -= offer_count
-                    ind -= 1
-
-            if not max_agent_time <= start_time:
-                return False
+        if self._find_min_start_time(worker_team, Time(0), spec) > start_time:
+            return False
 
-            if not self._material_timeline.can_schedule_at_the_moment(node, start_time,
-                                                                      node.work_unit.need_materials()):
-                return False
-            if not self.zone_timeline.can_schedule_at_the_moment(node.work_unit.zone_reqs, start_time, exec_time):
-                return False
+        if not self._material_timeline.can_schedule_at_the_moment(node, start_time,
+                                                                  node.work_unit.need_materials()):
+            return False
+        if not self.zone_timeline.can_schedule_at_the_moment(node.work_unit.zone_reqs, start_time, exec_time):
+            return False
 
-            return True
+        return True
 
     def update_timeline(self,
                         finish_time: Time,
-- 
2.43.0


From cb5bfe48eea6784a85e592b4a9935ea145f5d3f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:22 +0000
Subject: [PATCH 003/119] fix: keep estimated stage durations in the parallel
 schedule generation scheme

The estimated time of a whole inseparable chain was passed on as an assigned time, so it was split between the
stages by volume and the scheduled stages did not last as long as the estimator says.
---
 sampo/scheduler/genetic/converter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sampo/scheduler/genetic/converter.py b/sampo/scheduler/genetic/converter.py
index 4cea529..d97c3eb 100644
--- a/sampo/scheduler/genetic/converter.py
+++ b/sampo/scheduler/genetic/converter.py
@@ -207,7 +207,7 @@ def parallel_schedule_generation_scheme(chromosome: ChromosomeType,
 
             # finish using time spec
             timeline.schedule(node, node2swork, worker_team, contractor, work_spec,
-                              st, exec_time, assigned_parent_time, work_estimator)
+                              st, work_spec.assigned_time, assigned_parent_time, work_estimator)
 
             if idx == len(works_order) - 1:  # we are scheduling the work `end of the project`
                 node2swork[node].zones_pre = finalizing_zones
-- 
2.43.0


From 5e55ef7cf57eef9fd857eb483e5786e7076e4140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:22 +0000
Subject: [PATCH 004/119] fix: support worker teams that are only partly given
 in the spec

The mask of positions to optimize was used as a plain boolean (ValueError), and the searching optimizers
overwrote the counts that the spec fixes.
---
 sampo/scheduler/resource/average_req.py        | 2 +-
 sampo/scheduler/resource/coordinate_descent.py | 8 +++++++-
 sampo/scheduler/resource/full_scan.py          | 7 ++++++-
 sampo/utilities/base_opt.py                    | 2 +-
 4 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/sampo/scheduler/resource/average_req.py b/sampo/scheduler/resource/average_req.py
index bd71886..2cb1c94 100644
--- a/sampo/scheduler/resource/average_req.py
+++ b/sampo/scheduler/resource/average_req.py
@@ -37,7 +37,7 @@ class AverageReqResourceOptimizer(ResourceOptimizer):
         :param get_finish_time: optimization function that should give execution time based on worker team
         """
 
-        if optimize_array:
+        if optimize_array is not None:
             for worker, up, down, optimize in zip(worker_team, up_border, down_border, optimize_array):
                 if optimize:
                     worker.count = max(0, down) + int((up - down) / self.k)
diff --git a/sampo/scheduler/resource/coordinate_descent.py b/sampo/scheduler/resource/coordinate_descent.py
index c884c94..196f272 100644
--- a/sampo/scheduler/resource/coordinate_descent.py
+++ b/sampo/scheduler/resource/coordinate_descent.py
@@ -35,6 +35,12 @@ class CoordinateDescentResourceOptimizer(ResourceOptimizer):
         :param get_finish_time: optimization function that should give execution time based on the worker team
         """
 
+        if optimize_array is not None:
+            # the counts given in the spec are fixed
+            fixed_counts = np.array([worker.count for worker in worker_team])
+            down_border = np.where(optimize_array, down_border, fixed_counts)
+            up_border = np.where(optimize_array, up_border, fixed_counts)
+
         def fitness(worker_count: np.ndarray):
             """
             Function that counts finish time with a current set of resources.
@@ -50,7 +56,7 @@ class CoordinateDescentResourceOptimizer(ResourceOptimizer):
                                                self.one_dimension_optimizer,
                                                fitness,
                                                optimize_array)
-        if optimize_array:
+        if optimize_array is not None:
             for i, worker in enumerate(worker_team):
                 if optimize_array[i]:
                     worker.count = count_worker_team[i]
diff --git a/sampo/scheduler/resource/full_scan.py b/sampo/scheduler/resource/full_scan.py
index 291ea24..603902a 100644
--- a/sampo/scheduler/resource/full_scan.py
+++ b/sampo/scheduler/resource/full_scan.py
@@ -35,7 +35,12 @@ class FullScanResourceOptimizer(ResourceOptimizer):
         :param get_finish_time: optimization function that should give execution time based on worker team
         """
 
-        # TODO Handle optimize_array
+        if optimize_array is not None:
+            # the counts given in the spec are fixed
+            fixed_counts = np.array([worker.count for worker in worker_team])
+            down_border = np.where(optimize_array, down_border, fixed_counts)
+            up_border = np.where(optimize_array, up_border, fixed_counts)
+
         def fitness(worker_count: np.ndarray):
             """
             Function that counts finish time with a current set of resources
diff --git a/sampo/utilities/base_opt.py b/sampo/utilities/base_opt.py
index 484353f..aec86f9 100644
--- a/sampo/utilities/base_opt.py
+++ b/sampo/utilities/base_opt.py
@@ -46,7 +46,7 @@ def coordinate_descent(down: np.ndarray, up: np.ndarray,
                        optimize_array: Optional[np.ndarray]) -> np.ndarray:
     cur = down.copy()
     for i in range(down.size):
-        if optimize_array and not optimize_array[i]:
+        if optimize_array is not None and not optimize_array[i]:
             continue
 
         def part(x) -> Time:
-- 
2.43.0


From 4fb660f70e41340fc715e1f98334102309f95746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:26 +0000
Subject: [PATCH 005/119] fix: apply the team spec before looking for free
 workers in the parallel SGS

The spec was applied after the check that the team is free, so a team larger than the checked one could be
scheduled over the contractor's capacity.
---
 sampo/scheduler/genetic/converter.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/sampo/scheduler/genetic/converter.py b/sampo/scheduler/genetic/converter.py
index d97c3eb..2b43691 100644
--- a/sampo/scheduler/genetic/converter.py
+++ b/sampo/scheduler/genetic/converter.py
@@ -174,6 +174,8 @@ def parallel_schedule_generation_scheme(chromosome: ChromosomeType,
                                          .copy().with_count(worker_count)
                                          for worker_index, worker_count in enumerate(cur_resources)
                                          if worker_count > 0]
+        # apply worker spec
+        Scheduler.optimize_resources_using_spec(cur_node.work_unit, cur_worker_team, cur_work_spec)
         if cur_work_spec.assigned_time is not None:
             cur_exec_time = cur_work_spec.assigned_time
         else:
@@ -194,9 +196,6 @@ def parallel_schedule_generation_scheme(chromosome: ChromosomeType,
         idx, (work_idx, node, worker_team, contractor, exec_time, work_spec) = args
 
         if timeline.can_schedule_at_the_moment(node, worker_team, work_spec, node2swork, start_time, exec_time):
-            # apply worker spec
-            Scheduler.optimize_resources_using_spec(node.work_unit, worker_team, work_spec)
-
             st = start_time
             if idx == 0:  # we are scheduling the work `start of the project`
                 st = assigned_parent_time  # this work should always have st = 0, so we just re-assign it
-- 
2.43.0


From 263b2b94d28c29f35c1dc894484789c7125f749b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:26 +0000
Subject: [PATCH 006/119] fix: search time slots for the assigned execution
 time in the momentum timeline

The slot was found for the estimated time and then occupied for the assigned one (over-allocation), and stages
of a chain with assigned time did not wait for their own predecessors.
---
 sampo/scheduler/timeline/momentum_timeline.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/sampo/scheduler/timeline/momentum_timeline.py b/sampo/scheduler/timeline/momentum_timeline.py
index ae64168..8b500b2 100644
--- a/sampo/scheduler/timeline/momentum_timeline.py
+++ b/sampo/scheduler/timeline/momentum_timeline.py
@@ -112,9 +112,14 @@ class MomentumTimeline(Timeline):
 
         exec_time: Time = Time(0)
         exec_times: dict[GraphNode, tuple[Time, Time]] = {}  # node: (lag, exec_time)
+        assigned_times = get_exec_times_from_assigned_time_for_chain(inseparable_chain, spec.assigned_time) \
+            if spec.assigned_time is not None else None
         for chain_node in inseparable_chain:
-            node_exec_time: Time = Time(0) if len(chain_node.work_unit.worker_reqs) == 0 else \
-                work_estimator.estimate_time(chain_node.work_unit, worker_team)
+            if assigned_times is not None:
+                node_exec_time = assigned_times[chain_node][1]
+            else:
+                node_exec_time: Time = Time(0) if len(chain_node.work_unit.worker_reqs) == 0 else \
+                    work_estimator.estimate_time(chain_node.work_unit, worker_team)
 
             lag_req = nodes_max_parent_times[chain_node] - max_parent_time - exec_time
             lag = lag_req if lag_req > 0 else 0
@@ -403,7 +408,9 @@ class MomentumTimeline(Timeline):
             self.find_min_start_time_with_additional(node, workers, node2swork, spec, assigned_start_time,
                                                      assigned_parent_time, work_estimator)
         if assigned_time is not None:
-            exec_times = get_exec_times_from_assigned_time_for_chain(inseparable_chain, assigned_time)
+            # keep the lags, members of the chain still should wait for their own parents
+            assigned_times = get_exec_times_from_assigned_time_for_chain(inseparable_chain, assigned_time)
+            exec_times = {n: (exec_times[n][0], assigned_times[n][1]) for n in inseparable_chain}
 
         # TODO Decide how to deal with exec_times(maybe we should remove using pre-computed exec_times)
         self._schedule_with_inseparables(node, node2swork, inseparable_chain, spec,
-- 
2.43.0


From e2d526b54b1e9fa8df5264bd95294699e5457a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:26 +0000
Subject: [PATCH 007/119] fix: keep works off the time of an independent work
 in the momentum timeline

A resource-independent work was put after everything scheduled before it, but later works could still share
its interval through the workers it left free.
---
 sampo/scheduler/timeline/momentum_timeline.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/sampo/scheduler/timeline/momentum_timeline.py b/sampo/scheduler/timeline/momentum_timeline.py
index 8b500b2..a8d0709 100644
--- a/sampo/scheduler/timeline/momentum_timeline.py
+++ b/sampo/scheduler/timeline/momentum_timeline.py
@@ -372,14 +372,17 @@ class MomentumTimeline(Timeline):
             start_idx = state.bisect_right(start)
             end_idx = state.bisect_left((end, -1, EventType.INITIAL))
             available_workers_count = state[start_idx - 1].available_workers_count
+            # independent work has no parallel users of its types of resources, so it holds all the workers
+            taken_count = available_workers_count if spec.is_independent else w.count
             # updating all events in between the start and the end of our current task
             for event in state[start_idx: end_idx]:
-                assert event.available_workers_count >= w.count
-                event.available_workers_count -= w.count
+                assert event.available_workers_count >= taken_count
+                event.available_workers_count -= taken_count
 
             assert available_workers_count >= w.count
 
-            state.add(ScheduleEvent(task_index, EventType.START, start, None, available_workers_count - w.count))
+            state.add(ScheduleEvent(task_index, EventType.START, start, None,
+                                    available_workers_count - taken_count))
 
             # move the index on time when resources of the work will be freed
             end_idx = state.bisect_right(end) - 1
@@ -389,7 +392,7 @@ class MomentumTimeline(Timeline):
                 end_count = state[end_idx].available_workers_count
             else:
                 # time when resources will be freed is not in timeline
-                end_count = state[end_idx].available_workers_count + w.count
+                end_count = state[end_idx].available_workers_count + taken_count
 
             state.add(ScheduleEvent(task_index, EventType.END, end, None, end_count))
 
-- 
2.43.0


From 4ea3b53cf89f624565af7fbf0ac948d0467864ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:26 +0000
Subject: [PATCH 008/119] fix: build teams from the requirements in the
 parallel SGS

As the serial one does: a kind that may be absent (min count 0) was dropped from the team before the spec could
assign workers of it.
---
 sampo/scheduler/genetic/converter.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/sampo/scheduler/genetic/converter.py b/sampo/scheduler/genetic/converter.py
index 2b43691..4f182f8 100644
--- a/sampo/scheduler/genetic/converter.py
+++ b/sampo/scheduler/genetic/converter.py
@@ -170,10 +170,9 @@ def parallel_schedule_generation_scheme(chromosome: ChromosomeType,
         cur_resources = works_resources[work_index, :-1]
         cur_contractor_index = works_resources[work_index, -1]
         cur_contractor = index2contractor[cur_contractor_index]
-        cur_worker_team: list[Worker] = [worker_pool_indices[worker_index][cur_contractor_index]
-                                         .copy().with_count(worker_count)
-                                         for worker_index, worker_count in enumerate(cur_resources)
-                                         if worker_count > 0]
+        cur_worker_team: list[Worker] = [worker_pool[wreq.kind][cur_contractor.id]
+                                         .copy().with_count(cur_resources[worker_name2index[wreq.kind]])
+                                         for wreq in cur_node.work_unit.worker_reqs]
         # apply worker spec
         Scheduler.optimize_resources_using_spec(cur_node.work_unit, cur_worker_team, cur_work_spec)
         if cur_work_spec.assigned_time is not None:
-- 
2.43.0


From 78fa857a24a761072c4e793555829b5c38d49cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:12 +0000
Subject: [PATCH 009/119] fix: do not mutate worker counts that the spec
 assigns

The mutated counts were replaced by the spec's ones on decoding, but the contractors' borders were narrowed to the
mutated ones, so the assigned team could exceed the border and decoding failed.
---
 sampo/scheduler/genetic/utils.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/sampo/scheduler/genetic/utils.py b/sampo/scheduler/genetic/utils.py
index f932bf6..cb54316 100644
--- a/sampo/scheduler/genetic/utils.py
+++ b/sampo/scheduler/genetic/utils.py
@@ -68,10 +68,13 @@ def prepare_optimized_data_structures(wg: WorkGraph,
     resources_border = np.zeros((2, len(worker_pool), len(index2node)))
     contractors_available = np.zeros((len(index2node), len(contractor2index)))
     for work_index, node in index2node.items():
+        assigned_workers = spec.get_work_spec(node.id).assigned_workers
         for req in node.work_unit.worker_reqs:
             worker_index = worker_name2index[req.kind]
-            resources_border[0, worker_index, work_index] = req.min_count
-            resources_border[1, worker_index, work_index] = req.max_count
+            # counts assigned by the spec are not a subject to change
+            assigned_count = assigned_workers.get(req.kind, 0)
+            resources_border[0, worker_index, work_index] = assigned_count or req.min_count
+            resources_border[1, worker_index, work_index] = assigned_count or req.max_count
 
         contractors_spec = spec.get_work_spec(node.id).contractors or map(attrgetter('id'), contractors)
         for contractor in contractors_spec:
-- 
2.43.0


From 5e73190bab3685a96a2fa9ac27da6b1c3e5bb502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:12 +0000
Subject: [PATCH 010/119] fix: keep the user's spec when optimizing resources
 to a deadline

The copy of the given spec was cleared, so assigned contractors, teams and times were lost.
---
 sampo/scheduler/resources_in_time/average_binary_search.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sampo/scheduler/resources_in_time/average_binary_search.py b/sampo/scheduler/resources_in_time/average_binary_search.py
index eb0df9f..1d9765c 100644
--- a/sampo/scheduler/resources_in_time/average_binary_search.py
+++ b/sampo/scheduler/resources_in_time/average_binary_search.py
@@ -48,8 +48,6 @@ class AverageBinarySearchResourceOptimizingScheduler:
             return result
 
         copied_spec = deepcopy(spec)
-        # FIXME Investigate why `spec` given to this method can be saved from previous call and remove this
-        copied_spec._work2spec.clear()
 
         k_min = 1
         k_max = 10000
@@ -65,6 +63,8 @@ class AverageBinarySearchResourceOptimizingScheduler:
             # we can keep the deadline if pass minimum resources,
             # so let's go preventing the works going in parallel
             for node in wg.nodes:
+                if copied_spec.get_work_spec(node.id).is_independent:
+                    continue
                 copied_spec.get_work_spec(node.id).is_independent = True
                 new_time = fitness(k_max, copied_spec)
                 if new_time > deadline:
-- 
2.43.0


From 4eef492ba902cf821ebe49142e3b4941f0d89b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:24 +0000
Subject: [PATCH 011/119] fix: return the finish time from the momentum
 timeline's schedule()

The serial SGS uses it to place zone status changes, so with any zone configured it failed on None.
---
 sampo/scheduler/timeline/momentum_timeline.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sampo/scheduler/timeline/momentum_timeline.py b/sampo/scheduler/timeline/momentum_timeline.py
index a8d0709..e19c766 100644
--- a/sampo/scheduler/timeline/momentum_timeline.py
+++ b/sampo/scheduler/timeline/momentum_timeline.py
@@ -416,8 +416,8 @@ class MomentumTimeline(Timeline):
             exec_times = {n: (exec_times[n][0], assigned_times[n][1]) for n in inseparable_chain}
 
         # TODO Decide how to deal with exec_times(maybe we should remove using pre-computed exec_times)
-        self._schedule_with_inseparables(node, node2swork, inseparable_chain, spec,
-                                         workers, contractor, start_time, exec_times)
+        return self._schedule_with_inseparables(node, node2swork, inseparable_chain, spec,
+                                                workers, contractor, start_time, exec_times)
 
     def _schedule_with_inseparables(self,
                                     node: GraphNode,
@@ -462,6 +462,7 @@ class MomentumTimeline(Timeline):
         zones = [zone_req.to_zone() for zone_req in node.work_unit.zone_reqs]
         node2swork[node].zones_pre = self.zone_timeline.update_timeline(len(node2swork), zones, start_time,
                                                                         curr_time - start_time)
+        return curr_time
 
     def _validate(self,
                   finish_time: Time,
-- 
2.43.0


From 7bd8895bfc624a05b5833ef649f170146faafb0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:42 +0000
Subject: [PATCH 012/119] fix: hold a zone's status till the end of the work
 that changed it

The end of the interval was moved back by the cost of the status change along with its start, so a work that needs
another status could start before the first one finished.
---
 sampo/scheduler/timeline/zone_timeline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sampo/scheduler/timeline/zone_timeline.py b/sampo/scheduler/timeline/zone_timeline.py
index 50cf0f9..4869fcf 100644
--- a/sampo/scheduler/timeline/zone_timeline.py
+++ b/sampo/scheduler/timeline/zone_timeline.py
@@ -259,7 +259,7 @@ class ZoneTimeline:
                 else 0
 
             state.add(ScheduleEvent(index, EventType.START, start_time - change_cost, None, zone.status))
-            state.add(ScheduleEvent(index, EventType.END, start_time - change_cost + exec_time, None, zone.status))
+            state.add(ScheduleEvent(index, EventType.END, start_time + exec_time, None, zone.status))
 
             if start_status != zone.status and zone.status != 0:
                 # if we need to change status, record it
-- 
2.43.0


From 81ddcbf617a2a9528c070d2e8abd9b83c6b37299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:57 +0000
Subject: [PATCH 013/119] fix: support end statuses of zones

Any non-empty end_statuses made every scheduler fail: the names were unpacked as (name, status) pairs and the
status was read from an attribute that does not exist.
---
 sampo/scheduler/timeline/zone_timeline.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sampo/scheduler/timeline/zone_timeline.py b/sampo/scheduler/timeline/zone_timeline.py
index 4869fcf..d230569 100644
--- a/sampo/scheduler/timeline/zone_timeline.py
+++ b/sampo/scheduler/timeline/zone_timeline.py
@@ -277,7 +277,7 @@ class ZoneTimeline:
         for zone in zones:
             state = self._timeline[zone.name]
             latest_time = state[-1].time + 1
-            latest_status = state[-1].available_workers_time
+            latest_status = state[-1].available_workers_count
             change_cost = self._config.time_costs[latest_status, zone.status] \
                 if not self._config.statuses.match_status(latest_status, zone.status) \
                 else 0
@@ -299,4 +299,4 @@ class ZoneTimeline:
         return global_finish_time, sworks
 
     def finish_statuses(self) -> tuple[Time, list[ZoneTransition]]:
-        return self.append_statuses([Zone(*v) for v in self._config.end_statuses])
+        return self.append_statuses([Zone(*v) for v in self._config.end_statuses.items()])
-- 
2.43.0


From 7544c080642dfee19cc0be1d81dcdf31facfb79b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:46 +0000
Subject: [PATCH 014/119] fix: take all materials of a work from its platform
 when some are delivered

---
 sampo/scheduler/timeline/hybrid_supply_timeline.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sampo/scheduler/timeline/hybrid_supply_timeline.py b/sampo/scheduler/timeline/hybrid_supply_timeline.py
index 60be8b5..01fe65b 100644
--- a/sampo/scheduler/timeline/hybrid_supply_timeline.py
+++ b/sampo/scheduler/timeline/hybrid_supply_timeline.py
@@ -296,7 +296,9 @@ class HybridSupplyTimeline(BaseSupplyTimeline):
 
         # update the platform timeline
         node_mat_req = {mat.name: mat.count for mat in node.work_unit.need_materials()}
-        update_mat_req_info = [(mat.name, node_mat_req[mat.name] - mat.count, finish_delivery_time) for mat in materials]
+        delivered_mat = {mat.name: mat.count for mat in materials}
+        update_mat_req_info = [(mat_name, mat_count - delivered_mat.get(mat_name, 0), finish_delivery_time)
+                               for mat_name, mat_count in node_mat_req.items()]
         self._platform_timeline.update_timeline(platform.id, update_mat_req_info)
 
         # update the supply timeline
-- 
2.43.0


From accf13d57a2ca0bb1742b1d0d33a7f35535f3c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:17 +0000
Subject: [PATCH 015/119] fix: do not take materials from a platform before the
 works that already use it

---
 sampo/scheduler/timeline/platform_timeline.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sampo/scheduler/timeline/platform_timeline.py b/sampo/scheduler/timeline/platform_timeline.py
index 8a94fa8..8384bed 100644
--- a/sampo/scheduler/timeline/platform_timeline.py
+++ b/sampo/scheduler/timeline/platform_timeline.py
@@ -62,7 +62,8 @@ class PlatformTimeline:
             start = platform_state[mat.name].bisect_right(start_time)
             finish = len(platform_state[mat.name])
 
-            if finish - start > 1:
+            # the state is known only after the last event, events are never placed before others
+            if finish - start > 0:
                 return False
 
         return True
-- 
2.43.0


From 53c70f21919231db5948df3ce317cb052e5233b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:47 +0000
Subject: [PATCH 016/119] fix: reserve the vehicles that deliver materials

---
 sampo/scheduler/timeline/hybrid_supply_timeline.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sampo/scheduler/timeline/hybrid_supply_timeline.py b/sampo/scheduler/timeline/hybrid_supply_timeline.py
index 01fe65b..e971a51 100644
--- a/sampo/scheduler/timeline/hybrid_supply_timeline.py
+++ b/sampo/scheduler/timeline/hybrid_supply_timeline.py
@@ -230,7 +230,7 @@ class HybridSupplyTimeline(BaseSupplyTimeline):
                                                                           route_start_time,
                                                                           exec_return_time + exec_ahead_time)
 
-                yield depot_vehicle_start_time, exec_ahead_time, exec_return_time, depot, deliveries
+                yield depot_vehicle_start_time, exec_ahead_time, exec_return_time, depot, selected_vehicles, deliveries
 
         delivery = MaterialDelivery(node.id)
 
@@ -264,7 +264,8 @@ class HybridSupplyTimeline(BaseSupplyTimeline):
             start_delivery_time += 1
 
             # iterate over depots and find the earliest time when the depot could supply resources
-            for depot_vehicle_start_time, exec_ahead_time, exec_return_time, depot, deliveries in get_finish_time(start_delivery_time):
+            for depot_vehicle_start_time, exec_ahead_time, exec_return_time, depot, vehicles, deliveries \
+                    in get_finish_time(start_delivery_time):
                 # choose the current depot if only it could supply resources earlier than the previous one
                 if finish_delivery_time > deadline and depot_vehicle_start_time + exec_ahead_time < finish_delivery_time \
                         or finish_delivery_time < deadline:
@@ -272,6 +273,7 @@ class HybridSupplyTimeline(BaseSupplyTimeline):
                     min_depot_time = depot_vehicle_start_time
                     finish_delivery_time = depot_vehicle_start_time + exec_ahead_time
                     selected_depot = depot
+                    selected_vehicles = vehicles
 
                     road_deliveries = deliveries
 
-- 
2.43.0


From 4d69b9217ad073157b86633ed80ffa07f2d8a374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:05 +0000
Subject: [PATCH 017/119] fix: search the start after the parents' finish in
 the just-in-time timeline

---
 sampo/scheduler/timeline/just_in_time_timeline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sampo/scheduler/timeline/just_in_time_timeline.py b/sampo/scheduler/timeline/just_in_time_timeline.py
index ee26598..f7d9d2b 100644
--- a/sampo/scheduler/timeline/just_in_time_timeline.py
+++ b/sampo/scheduler/timeline/just_in_time_timeline.py
@@ -67,7 +67,7 @@ class JustInTimeTimeline(Timeline):
         max_parent_time = max(node.min_start_time(node2swork), assigned_parent_time)
         # define the max agents time when all needed workers are off from previous tasks
         max_agent_time = Time(0)
-        cur_start_time = max_agent_time
+        cur_start_time = max(max_agent_time, max_parent_time)
 
         inseparable_chain = node.get_inseparable_chain_with_self()
 
-- 
2.43.0


From 7e5d4053aeec23eea2448896374613b3587f2bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:52 +0000
Subject: [PATCH 018/119] fix: set end statuses of zones in the serial schedule
 generation scheme

---
 sampo/scheduler/genetic/converter.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/sampo/scheduler/genetic/converter.py b/sampo/scheduler/genetic/converter.py
index 4f182f8..c4c7313 100644
--- a/sampo/scheduler/genetic/converter.py
+++ b/sampo/scheduler/genetic/converter.py
@@ -294,9 +294,17 @@ def serial_schedule_generation_scheme(chromosome: ChromosomeType,
         if order_index == 0:  # we are scheduling the work `start of the project`
             st = assigned_parent_time  # this work should always have st = 0, so we just re-assign it
 
+        if order_index == len(works_order) - 1:  # we are scheduling the work `end of the project`
+            finish_time, finalizing_zones = timeline.zone_timeline.finish_statuses()
+            st = max(st, finish_time)
+
         # finish using time spec
         ft = timeline.schedule(node, node2swork, worker_team, contractor, work_spec,
                                st, work_spec.assigned_time, assigned_parent_time, work_estimator)
+
+        if order_index == len(works_order) - 1:  # we are scheduling the work `end of the project`
+            node2swork[node].zones_pre = finalizing_zones
+
         # process zones
         zone_reqs = [ZoneReq(index2zone[i], zone_status) for i, zone_status in enumerate(zone_statuses[work_index])]
         zone_start_time = timeline.zone_timeline.find_min_start_time(zone_reqs, ft, 0)
-- 
2.43.0


From d64ca6f00702ee4e6f84e36bd918fec6c3b80d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:05 +0000
Subject: [PATCH 019/119] fix: allow to give neighbours to the constructor of a
 land graph node

---
 sampo/schemas/landscape_graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sampo/schemas/landscape_graph.py b/sampo/schemas/landscape_graph.py
index 828be0e..441f5c4 100644
--- a/sampo/schemas/landscape_graph.py
+++ b/sampo/schemas/landscape_graph.py
@@ -52,9 +52,9 @@ class LandGraphNode:
         """
         self.id = id
         self.name = name
+        self._roads: list[LandEdge] = []
         if not (neighbour_nodes is None):
             self.add_neighbours(neighbour_nodes)
-        self._roads: list[LandEdge] = []
         self.nodes: list['GraphNode'] = []
         if works is not None:
             self.nodes.extend(works) if isinstance(works, list) else self.nodes.append(works)
-- 
2.43.0


From 14d36cd58a36ce12935aa38f3afffdc8a3fb5f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:08 +0000
Subject: [PATCH 020/119] fix: treat contractors that lack a required kind of
 workers as unable in the pipeline

---
 sampo/pipeline/default.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sampo/pipeline/default.py b/sampo/pipeline/default.py
index 79c1c80..3ad610a 100644
--- a/sampo/pipeline/default.py
+++ b/sampo/pipeline/default.py
@@ -34,7 +34,7 @@ def contractors_can_perform_work_graph(contractors: list[Contractor], wg: WorkGr
         for contractor in contractors:
             offers = contractor.workers
             for req in reqs:
-                if req.min_count > offers[req.kind].count:
+                if req.kind not in offers or req.min_count > offers[req.kind].count:
                     is_at_least_one_contractor_can_perform = False
                     break
             if is_at_least_one_contractor_can_perform:
-- 
2.43.0


From 13444b02b4171633e193f7367e17513b248d60dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:08 +0000
Subject: [PATCH 021/119] fix: do not mutate to contractors that lack a
 required kind of workers

---
 sampo/scheduler/genetic/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sampo/scheduler/genetic/utils.py b/sampo/scheduler/genetic/utils.py
index cb54316..fc70e42 100644
--- a/sampo/scheduler/genetic/utils.py
+++ b/sampo/scheduler/genetic/utils.py
@@ -78,7 +78,9 @@ def prepare_optimized_data_structures(wg: WorkGraph,
 
         contractors_spec = spec.get_work_spec(node.id).contractors or map(attrgetter('id'), contractors)
         for contractor in contractors_spec:
-            contractors_available[work_index, contractor2index[contractor]] = 1
+            # contractor without workers of a required kind can't perform the work
+            if all(contractor in worker_pool[req.kind] for req in node.work_unit.worker_reqs):
+                contractors_available[work_index, contractor2index[contractor]] = 1
 
     return (worker_pool, index2node, index2zone, work_id2index, worker_name2index, index2contractor_obj,
             worker_pool_indices, contractor2index, contractor_borders, node_indices, priorities, parents,
-- 
2.43.0


From dc02f845f12d28179c1fa46729086d86671b5d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:01 +0000
Subject: [PATCH 022/119] fix: do not share inseparable chains between nodes
 with equal ids

---
 sampo/schemas/graph.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/sampo/schemas/graph.py b/sampo/schemas/graph.py
index 771a474..64b9b5d 100644
--- a/sampo/schemas/graph.py
+++ b/sampo/schemas/graph.py
@@ -1,7 +1,7 @@
 from collections import deque
 from dataclasses import dataclass, field
 from enum import Enum
-from functools import cached_property, cache
+from functools import cached_property
 from random import Random
 from typing import Optional
 
@@ -129,14 +129,12 @@ class GraphNode(JSONSerializable['GraphNode']):
         self.__dict__.pop('parents_set', None)
         self.__dict__.pop('inseparable_parent', None)
         self.__dict__.pop('inseparable_son', None)
-        self.get_inseparable_chain.cache_clear()
 
     def invalidate_children_cache(self):
         self.__dict__.pop('children', None)
         self.__dict__.pop('children_set', None)
         self.__dict__.pop('inseparable_parent', None)
         self.__dict__.pop('inseparable_son', None)
-        self.get_inseparable_chain.cache_clear()
 
     def is_inseparable_parent(self) -> bool:
         return self.inseparable_son is not None
@@ -241,7 +239,6 @@ class GraphNode(JSONSerializable['GraphNode']):
     def id(self) -> str:
         return self.work_unit.id
 
-    @cache
     def get_inseparable_chain(self) -> Optional[list['GraphNode']]:
         """
         Gets an ordered list of whole chain of nodes, connected with edges of type INSEPARABLE_FINISH_START =
-- 
2.43.0


From 4e0957ffdd5d1bb3f4744335201d3bacdc2b6922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:01 +0000
Subject: [PATCH 023/119] fix: update the priority of each ancestor only once

---
 sampo/utilities/priority.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sampo/utilities/priority.py b/sampo/utilities/priority.py
index cd23be6..c08328b 100644
--- a/sampo/utilities/priority.py
+++ b/sampo/utilities/priority.py
@@ -11,7 +11,8 @@ def update_priority(node, priority_value, visited=None):
     node.work_unit.priority = min(node.work_unit.priority, priority_value)
 
     for parent in getattr(node, "parents", []):
-        update_priority(parent, priority_value, visited)
+        if parent not in visited:
+            update_priority(parent, priority_value, visited)
 
 
 def check_and_correct_priorities(wg: WorkGraph, verbose: bool = True):
-- 
2.43.0


From 06200eb27f7c2aeddef6e071a044f98f1989cdc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:59 +0000
Subject: [PATCH 024/119] fix: keep random integers inside of the borders of an
 interval

---
 sampo/schemas/interval.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/sampo/schemas/interval.py b/sampo/schemas/interval.py
index 7aec4cc..9b58f29 100644
--- a/sampo/schemas/interval.py
+++ b/sampo/schemas/interval.py
@@ -1,3 +1,4 @@
+import math
 import random
 from abc import abstractmethod, ABC
 from dataclasses import dataclass
@@ -7,7 +8,7 @@ from typing import Optional
 from sampo.schemas.serializable import AutoJSONSerializable
 
 # to work with float and avoid errors due to inaccuracy
-EPS = 1e5
+EPS = 1e-5
 # to work with distributions when certain start and finish value is undefined
 INF = float('inf')
 MINUS_INF = float('-inf')
@@ -74,9 +75,10 @@ class IntervalUniform(Interval):
         """
         rand = rand or self.rand
         value = round(rand.uniform(self.min_val, self.max_val))
-        # TODO fix cast math.inf to int
-        value = max(value, int(self.min_val - EPS))
-        value = min(value, int(self.max_val + EPS))
+        if value < self.min_val:
+            value = math.ceil(self.min_val - EPS)
+        if value > self.max_val:
+            value = math.floor(self.max_val + EPS)
         return value
 
 
@@ -121,7 +123,8 @@ class IntervalGaussian(Interval):
         """
         rand = rand or self.rand
         value = round(rand.gauss(self.mean, self.sigma))
-        # TODO fix cast math.inf to int
-        value = max(value, int(self.min_val - EPS))
-        value = min(value, int(self.max_val + EPS))
+        if value < self.min_val:
+            value = math.ceil(self.min_val - EPS)
+        if value > self.max_val:
+            value = math.floor(self.max_val + EPS)
         return value
-- 
2.43.0


From 0bd1faaf4a61d00ea3e751082587c1f2bf6a83ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:59 +0000
Subject: [PATCH 025/119] fix: iterate over the whole linked list and keep its
 tail on removal

---
 sampo/utilities/linked_list.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/sampo/utilities/linked_list.py b/sampo/utilities/linked_list.py
index 9819f77..ce5fe53 100644
--- a/sampo/utilities/linked_list.py
+++ b/sampo/utilities/linked_list.py
@@ -17,9 +17,9 @@ class Iterator(Generic[T]):
         self._prev = None
 
     def __iter__(self):
-        while self._node.next is not None:
+        while self.has_next():
             yield self._node
-            self.__next__()
+            self.next()
 
     def __next__(self) -> Node[T]:
         return self.next()
@@ -36,7 +36,7 @@ class Iterator(Generic[T]):
         return self._node is not None
 
     def remove(self) -> T:
-        if self._node == self._lst._root:
+        if self._node is self._lst._root:
             old = self._lst._root
             self._lst._root = old.next
             self._node = self._lst._root
@@ -45,6 +45,8 @@ class Iterator(Generic[T]):
         node = self._node
         next = node.next
         self._prev.next = next
+        if next is None:
+            self._lst._tail = self._prev
         self._node = next
         self._lst._len -= 1
         return node.value
-- 
2.43.0


From 187da1735ec7cad3b97821ce99c0f71ec609dcc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:59 +0000
Subject: [PATCH 026/119] fix: keep the cost of a resource in its copies

---
 sampo/schemas/resources.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sampo/schemas/resources.py b/sampo/schemas/resources.py
index ce96871..7708204 100644
--- a/sampo/schemas/resources.py
+++ b/sampo/schemas/resources.py
@@ -81,7 +81,8 @@ class Worker(Resource):
                       name=self.name,
                       count=self.count,
                       contractor_id=self.contractor_id,
-                      productivity=self.productivity)
+                      productivity=self.productivity,
+                      cost_one_unit=self.cost_one_unit)
 
     def with_count(self, count: int) -> 'Worker':
         """
@@ -155,7 +156,8 @@ class Material(Resource):
     def copy(self) -> 'Material':
         return Material(id=self.id,
                         name=self.name,
-                        count=self.count)
+                        count=self.count,
+                        cost_one_unit=self.cost_one_unit)
 
     def with_count(self, count: int) -> 'Material':
         self.count = count
-- 
2.43.0


From fbe1677ceca8652fa968ad1b58437df9947997b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:10 +0000
Subject: [PATCH 027/119] fix: give each stage its own name on graph
 restructuring

---
 sampo/structurator/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sampo/structurator/base.py b/sampo/structurator/base.py
index 444cc66..25af317 100644
--- a/sampo/structurator/base.py
+++ b/sampo/structurator/base.py
@@ -184,7 +184,8 @@ def split_node_into_stages(origin_node: GraphNode, restructuring_edges: list[tup
         # update id attribute with current stage node id
         wu_attrs['id'] = stage_node_id
         # update name attribute with current index of stage
-        wu_attrs['model_name']['granular_name'] = f'{wu.model_name["granular_name"]}{STAGE_SEP}{stage_i}'
+        wu_attrs['model_name'] = {**wu.model_name,
+                                  'granular_name': f'{wu.model_name["granular_name"]}{STAGE_SEP}{stage_i}'}
         # update volume attribute with passed proportion
         wu_attrs['volume'] = wu.volume * volume_proportion
         # remove because it's unused field from Identifiable
-- 
2.43.0


From 749de5bf515f5289b5d618c4f84b3ee0dab0bac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:10 +0000
Subject: [PATCH 028/119] fix: insert a work unit without a negative lag

---
 sampo/structurator/insert_wu.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sampo/structurator/insert_wu.py b/sampo/structurator/insert_wu.py
index e904a3d..3b837d5 100644
--- a/sampo/structurator/insert_wu.py
+++ b/sampo/structurator/insert_wu.py
@@ -43,7 +43,7 @@ def _new_edges(copied_nodes: dict[str, GraphNode], original_old_to_new_ids: dict
 def _reduce_to_tuple_type(edges: list[GraphNode] or list[tuple[GraphNode, float, EdgeType]]) \
         -> list[tuple[GraphNode, float, EdgeType]]:
     if isinstance(edges[0], GraphNode):
-        return [(edge, -1, EdgeType.FinishStart) for edge in edges]
+        return [(edge, 0, EdgeType.FinishStart) for edge in edges]
     else:
         return edges
 
-- 
2.43.0


From 0313fe8e6962960b3e2be28e22d270ad2216020e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:10 +0000
Subject: [PATCH 029/119] fix: delete the whole inseparable chain of a deleted
 node

---
 sampo/structurator/delete_graph_node.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/sampo/structurator/delete_graph_node.py b/sampo/structurator/delete_graph_node.py
index a13d85a..c6ced09 100644
--- a/sampo/structurator/delete_graph_node.py
+++ b/sampo/structurator/delete_graph_node.py
@@ -16,16 +16,12 @@ def delete_graph_node(original_wg: WorkGraph, remove_gn_id: str, change_id: bool
 
     copied_remove_gn = copied_nodes[old_to_new_ids[remove_gn_id]]
 
-    inseparable_chain = copied_remove_gn.get_inseparable_chain()
-    if inseparable_chain is not None:
-        copied_remove_gn = inseparable_chain[len(inseparable_chain) - 1]
-        parent_to_delete = copied_remove_gn.inseparable_parent
-        while parent_to_delete is not None:
-            copied_remove_gn = parent_to_delete
-            parent_to_delete = copied_remove_gn.inseparable_parent
-            _node_deletion(copied_remove_gn, copied_nodes)
-    else:
-        _node_deletion(copied_remove_gn, copied_nodes)
+    # find the head of the inseparable chain
+    while copied_remove_gn.inseparable_parent is not None:
+        copied_remove_gn = copied_remove_gn.inseparable_parent
+
+    for node in reversed(copied_remove_gn.get_inseparable_chain_with_self()):
+        _node_deletion(node, copied_nodes)
 
     start, finish = new_start_finish(original_wg, copied_nodes, old_to_new_ids)
 
-- 
2.43.0


From cdac88302727a5b65ba49a0570b7feb06a2f9f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:10 +0000
Subject: [PATCH 030/119] fix: delete edges of all types with a deleted node

---
 sampo/structurator/delete_graph_node.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/sampo/structurator/delete_graph_node.py b/sampo/structurator/delete_graph_node.py
index c6ced09..ce0a0a1 100644
--- a/sampo/structurator/delete_graph_node.py
+++ b/sampo/structurator/delete_graph_node.py
@@ -32,15 +32,13 @@ def _node_deletion(remove_gn: GraphNode, nodes: dict[str, GraphNode]):
     parents = remove_gn.parents
     children = remove_gn.children
 
-    for parent in parents:
-        for edge in parent.edges_from:
-            if edge.finish.id == remove_gn.id:
-                parent.edges_from.remove(edge)
+    for edge in remove_gn.edges_to:
+        edge.start.edges_from.remove(edge)
+        edge.start.invalidate_children_cache()
 
-    for child in children:
-        for edge in child.edges_to:
-            if edge.start.id == remove_gn.id:
-                child.edges_to.remove(edge)
+    for edge in remove_gn.edges_from:
+        edge.finish.edges_to.remove(edge)
+        edge.finish.invalidate_parents_cache()
 
     nodes.pop(remove_gn.id)
 
-- 
2.43.0


From 1824356f385654a7a5bf908fac2c3b79be59937f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:10 +0000
Subject: [PATCH 031/119] fix: keep all attributes of works in copies of a
 graph

---
 sampo/structurator/prepare_wg_copy.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/sampo/structurator/prepare_wg_copy.py b/sampo/structurator/prepare_wg_copy.py
index 66706cf..50cb48a 100644
--- a/sampo/structurator/prepare_wg_copy.py
+++ b/sampo/structurator/prepare_wg_copy.py
@@ -21,14 +21,18 @@ def copy_graph_node(node: GraphNode, new_id: int | str | None = None,
         new_id = node.work_unit.id
     wu = node.work_unit
     new_wu = WorkUnit(id=new_id,
-                      model_name=wu.model_name,
+                      model_name=deepcopy(wu.model_name),
                       worker_reqs=deepcopy(wu.worker_reqs),
                       material_reqs=deepcopy(wu.material_reqs),
                       equipment_reqs=deepcopy(wu.equipment_reqs),
                       object_reqs=deepcopy(wu.object_reqs),
                       zone_reqs=deepcopy(wu.zone_reqs),
+                      description=wu.description,
                       group=wu.group,
-                      is_service_unit=wu.is_service_unit, volume=wu.volume)
+                      priority=wu.priority,
+                      is_service_unit=wu.is_service_unit,
+                      volume=wu.volume,
+                      display_name=wu.display_name)
     return GraphNode(new_wu, []), (wu.id, new_id)
 
 
-- 
2.43.0


From 53a95a4e22b5a4bdd17b2504c20a7930bd71204c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:24 +0000
Subject: [PATCH 032/119] fix: restore the description of a pickled work

---
 sampo/schemas/works.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sampo/schemas/works.py b/sampo/schemas/works.py
index 8af0bf0..c371c36 100644
--- a/sampo/schemas/works.py
+++ b/sampo/schemas/works.py
@@ -150,6 +150,8 @@ class WorkUnit(AutoJSONSerializable['WorkUnit'], Identifiable):
         self.material_reqs = new_work_unit.material_reqs
         self.zone_reqs = new_work_unit.zone_reqs
         self.id = new_work_unit.id
+        self.name = new_work_unit.name
+        self.description = new_work_unit.description
         self.model_name = new_work_unit.model_name
         self.is_service_unit = new_work_unit.is_service_unit
         self.volume = new_work_unit.volume
-- 
2.43.0


From adcd6cf1801ea1a65f4c446d8fbdcfc2909b507d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:10 +0000
Subject: [PATCH 033/119] fix: support works whose models have different
 entries in schedules

---
 sampo/schemas/schedule.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/sampo/schemas/schedule.py b/sampo/schemas/schedule.py
index de53fbf..eed3a7a 100644
--- a/sampo/schemas/schedule.py
+++ b/sampo/schemas/schedule.py
@@ -1,7 +1,6 @@
 from copy import deepcopy
 from datetime import datetime
 from functools import lru_cache
-from operator import itemgetter
 from typing import Iterable, Union, Any
 
 from pandas import DataFrame
@@ -10,7 +9,6 @@ from sampo.schemas.graph import WorkGraph, GraphNode
 from sampo.schemas.scheduled_work import ScheduledWork
 from sampo.schemas.serializable import JSONSerializable, T
 from sampo.schemas.time import Time
-from sampo.utilities.collections_util import first
 from sampo.utilities.schedule import fix_split_tasks, offset_schedule
 
 ResourceSchedule = dict[str, list[tuple[Time, Time]]]
@@ -18,7 +16,7 @@ ScheduleWorkDict = dict[str, ScheduledWork]
 
 
 def _get_granular_name_columns(sworks: Iterable[ScheduledWork] | None = None):
-    return list(sorted(first(sworks).model_name.keys()))
+    return sorted({key for swork in sworks for key in swork.model_name})
 
 
 # TODO: Rebase object onto ScheduleWorkDict and ordered ScheduledWork list
@@ -160,7 +158,7 @@ class Schedule(JSONSerializable['Schedule']):
         model_name_columns = _get_granular_name_columns(works)
 
         def make_model_name_columns(swork: ScheduledWork) -> list[Any]:
-            return list(map(itemgetter(1), sorted(swork.model_name.items(), key=itemgetter(0))))
+            return [swork.model_name.get(column) for column in model_name_columns]
 
         data_frame = [(i,                                                   # idx
                        w.id,                                                # task_id
-- 
2.43.0


From 387b97d54afdbf6e4a1c456c4cb1fff50f3d5e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:10 +0000
Subject: [PATCH 034/119] fix: take the execution time of a schedule from the
 work that finishes last

---
 sampo/schemas/schedule.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sampo/schemas/schedule.py b/sampo/schemas/schedule.py
index eed3a7a..4f5a10a 100644
--- a/sampo/schemas/schedule.py
+++ b/sampo/schemas/schedule.py
@@ -78,7 +78,7 @@ class Schedule(JSONSerializable['Schedule']):
 
         :return: Finish time of the last work.
         """
-        return Time(self._schedule.iloc[-1].finish)
+        return Time(self._schedule.finish.max())
 
     def __init__(self, schedule: DataFrame) -> None:
         """
-- 
2.43.0


From 6646179f07f43d1b9cc4038cfcb5a19a43d69f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:10 +0000
Subject: [PATCH 035/119] fix: sum up the costs of united stages

---
 sampo/schemas/schedule.py   | 1 +
 sampo/utilities/schedule.py | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/sampo/schemas/schedule.py b/sampo/schemas/schedule.py
index 4f5a10a..c7e90c4 100644
--- a/sampo/schemas/schedule.py
+++ b/sampo/schemas/schedule.py
@@ -125,6 +125,7 @@ class Schedule(JSONSerializable['Schedule']):
             swork.model_name['granular_name'] = row['granular_name']
             swork.display_name = row['task_name']
             swork.volume = float(row['volume'])
+            swork.cost = row['cost']
             swork.start_end_time = Time(int(row['start'])), Time(int(row['finish']))
             return row
 
diff --git a/sampo/utilities/schedule.py b/sampo/utilities/schedule.py
index 05322be..cf966c2 100644
--- a/sampo/utilities/schedule.py
+++ b/sampo/utilities/schedule.py
@@ -76,6 +76,8 @@ def merge_split_stages(task_df: pd.DataFrame) -> pd.Series:
 
         # sum up volumes through all stages
         df.loc[0, 'volume'] = sum(task_df.loc[:, 'volume'])
+        # sum up costs through all stages
+        df.loc[0, 'cost'] = sum(task_df.loc[:, 'cost'])
         df.loc[0, 'workers'] = task_df.loc[0, 'workers']
 
         # fix task's start time and duration
-- 
2.43.0


From 6f22b8b7fe76c4cb13d7c85500256a12663d9959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:10 +0000
Subject: [PATCH 036/119] fix: count durations of united stages like those of
 other works

---
 sampo/utilities/schedule.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sampo/utilities/schedule.py b/sampo/utilities/schedule.py
index cf966c2..fabbebc 100644
--- a/sampo/utilities/schedule.py
+++ b/sampo/utilities/schedule.py
@@ -84,9 +84,9 @@ def merge_split_stages(task_df: pd.DataFrame) -> pd.Series:
         df.loc[0, 'start'] = task_df.loc[0, 'start']
         df.loc[0, 'finish'] = task_df.loc[len(task_df) - 1, 'finish']
         if isinstance(df.loc[0, 'start'], np.int64) or isinstance(df.loc[0, 'start'], np.int32):
-            df.loc[0, 'duration'] = df.loc[0, 'finish'] - df.loc[0, 'start'] + 1
+            df.loc[0, 'duration'] = df.loc[0, 'finish'] - df.loc[0, 'start']
         else:
-            df.loc[0, 'duration'] = (df.loc[0, 'finish'] - df.loc[0, 'start']).days + 1
+            df.loc[0, 'duration'] = (df.loc[0, 'finish'] - df.loc[0, 'start']).days
     else:
         df = task_df.copy()
 
-- 
2.43.0


From d8b266f1dc3fa414993db41e5283abcd51b8dfe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:10 +0000
Subject: [PATCH 037/119] fix: select the workers by name in the sum of
 resources

---
 sampo/utilities/resource_usage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sampo/utilities/resource_usage.py b/sampo/utilities/resource_usage.py
index faab513..05c13e4 100644
--- a/sampo/utilities/resource_usage.py
+++ b/sampo/utilities/resource_usage.py
@@ -47,7 +47,7 @@ def resources_sum(schedule: Schedule, resources_names: Iterable[str] | None = No
     resources_names = set(resources_names) if not is_none else {}
 
     res_sum = sum([sum([worker.count * work.duration.value for worker in work.workers
-                        if worker.model_name in resources_names or is_none], start=0)
+                        if worker.name in resources_names or is_none], start=0)
                    for work in schedule.works])
 
     return res_sum
-- 
2.43.0


From 4dda0feaf3910366b7ea8847f2e5b5dfec129851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:43 +0000
Subject: [PATCH 038/119] fix: check lags when validating a schedule

---
 sampo/utilities/validation.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sampo/utilities/validation.py b/sampo/utilities/validation.py
index 9eba876..f573551 100644
--- a/sampo/utilities/validation.py
+++ b/sampo/utilities/validation.py
@@ -2,7 +2,7 @@ from copy import deepcopy
 from operator import attrgetter, itemgetter
 
 from sampo.schemas.contractor import Contractor
-from sampo.schemas.graph import WorkGraph
+from sampo.schemas.graph import WorkGraph, EdgeType
 from sampo.schemas.schedule import ScheduledWork, Schedule
 from sampo.schemas.schedule_spec import ScheduleSpec
 from sampo.schemas.time import Time
@@ -56,6 +56,9 @@ def _check_parent_dependencies(schedule: Schedule, wg: WorkGraph) -> None:
         for pnode in node.parents:
             pstart, pend = scheduled_works[pnode.work_unit.id].start_end_time
             assert pstart <= pend <= start <= end
+        for edge in node.edges_to:
+            if edge.type is EdgeType.FinishStart:
+                assert scheduled_works[edge.start.id].finish_time + int(edge.lag) <= start
 
 
 def _check_all_tasks_corresponds_to_spec(schedule: Schedule, wg: WorkGraph, spec: ScheduleSpec) -> None:
-- 
2.43.0


From 79acee193d5963b6cb122eb76e0be65933c568c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:43 +0000
Subject: [PATCH 039/119] fix: check that a team has all required workers when
 validating a schedule

---
 sampo/utilities/validation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sampo/utilities/validation.py b/sampo/utilities/validation.py
index f573551..cd51f43 100644
--- a/sampo/utilities/validation.py
+++ b/sampo/utilities/validation.py
@@ -180,3 +180,5 @@ def _check_all_workers_correspond_to_worker_reqs(wg: WorkGraph, schedule: Schedu
         for worker in swork.workers:
             req = worker2req[worker.name]
             assert req.min_count <= worker.count <= req.max_count
+        kinds = {worker.name for worker in swork.workers}
+        assert all(kind in kinds for kind, req in worker2req.items() if req.min_count > 0)
-- 
2.43.0


From 1a1ce604a10a27cfd82dde8f5adeb9bc077dd16c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:21 +0000
Subject: [PATCH 040/119] fix: give the default productivity a valid interval

---
 sampo/schemas/time_estimator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sampo/schemas/time_estimator.py b/sampo/schemas/time_estimator.py
index 441124b..8500783 100644
--- a/sampo/schemas/time_estimator.py
+++ b/sampo/schemas/time_estimator.py
@@ -63,7 +63,7 @@ class DefaultWorkEstimator(WorkTimeEstimator):
         self._estimation_mode = WorkEstimationMode.Realistic
         self.rand = rand
         self._productivity_mode = WorkerProductivityMode.Static
-        self._productivity = {worker: {'__ALL__': IntervalGaussian(1, 0.2, 1, 0)}
+        self._productivity = {worker: {'__ALL__': IntervalGaussian(1, 0.2, 0, 1)}
                               for worker in ['driver', 'fitter', 'manager', 'handyman', 'electrician', 'engineer']}
 
     def find_work_resources(self,
-- 
2.43.0


From f0a90531c99b01fa0ffc80764e34b056162d882f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:58 +0000
Subject: [PATCH 041/119] fix: number simplified ids from the offset on

---
 sampo/structurator/prepare_wg_copy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sampo/structurator/prepare_wg_copy.py b/sampo/structurator/prepare_wg_copy.py
index 50cb48a..196e273 100644
--- a/sampo/structurator/prepare_wg_copy.py
+++ b/sampo/structurator/prepare_wg_copy.py
@@ -15,7 +15,7 @@ def copy_graph_node(node: GraphNode, new_id: int | str | None = None,
     :return: copy of GraphNode and pair(old node id, new node id)
     """
     if change_id:
-        new_id = new_id or uuid_str()
+        new_id = uuid_str() if new_id is None else new_id
         new_id = str(new_id) if isinstance(new_id, int) else new_id
     else:
         new_id = node.work_unit.id
-- 
2.43.0


From 0e4069cfe19ae7570a175942e0b6d2c6545146bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:58 +0000
Subject: [PATCH 042/119] fix: change ids of an inserted graph only when asked

---
 sampo/structurator/graph_insertion.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sampo/structurator/graph_insertion.py b/sampo/structurator/graph_insertion.py
index cc05c6b..d7378fe 100644
--- a/sampo/structurator/graph_insertion.py
+++ b/sampo/structurator/graph_insertion.py
@@ -16,7 +16,8 @@ def graph_in_graph_insertion(master_wg: WorkGraph, master_start: GraphNode, mast
     :return: new union WorkGraph
     """
     master_nodes, master_old_to_new_ids = prepare_work_graph_copy(master_wg, change_id=change_id)
-    slave_nodes, slave_old_to_new = prepare_work_graph_copy(slave_wg, [slave_wg.start, slave_wg.finish], change_id)
+    slave_nodes, slave_old_to_new = prepare_work_graph_copy(slave_wg, [slave_wg.start, slave_wg.finish],
+                                                            change_id=change_id)
 
     # add parent links from slave_wg's nodes to master_start node from slave_wg's nodes
     master_start = master_nodes[master_old_to_new_ids[master_start.id]]
-- 
2.43.0


From 185c2962e495a0df1c9595e8e31e156bdf307653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:58 +0000
Subject: [PATCH 043/119] fix: keep ids on simplification when asked

---
 sampo/structurator/light_modifications.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sampo/structurator/light_modifications.py b/sampo/structurator/light_modifications.py
index 2ea8872..3caa759 100644
--- a/sampo/structurator/light_modifications.py
+++ b/sampo/structurator/light_modifications.py
@@ -11,7 +11,8 @@ def work_graph_ids_simplification(wg: WorkGraph, id_offset: int = 0, change_id:
     :param change_id: Do IDs in the new graph need to be changed
     :return: new WorkGraph with numeric ids
     """
-    nodes, old_to_new_ids = prepare_work_graph_copy(wg, [], use_ids_simplification=True, id_offset=id_offset)
+    nodes, old_to_new_ids = prepare_work_graph_copy(wg, [], use_ids_simplification=True, id_offset=id_offset,
+                                                    change_id=change_id)
     start = nodes[old_to_new_ids[wg.start.id]]
     finish = nodes[old_to_new_ids[wg.finish.id]]
     return WorkGraph(start, finish)
-- 
2.43.0


From eb760ce6f667ea5e147c36edb1c9710006d9c877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:44 +0000
Subject: [PATCH 044/119] fix: keep the parents of works on repeated graph
 restructuring

---
 sampo/structurator/base.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sampo/structurator/base.py b/sampo/structurator/base.py
index 25af317..7150236 100644
--- a/sampo/structurator/base.py
+++ b/sampo/structurator/base.py
@@ -41,8 +41,9 @@ def fill_parents_to_new_nodes(origin_node: GraphNode, id2new_nodes: dict[str, Gr
     last_stage_id = origin_node.id
     # make first stage id
     first_stage_id = make_new_node_id(origin_node.id, 0)
-    # if first stage id not in id2new_nodes then there are no stages, so then first stage id is equal to last stage id
-    first_stage_id = first_stage_id if first_stage_id in id2new_nodes else last_stage_id
+    # if the new node isn't linked to previous stages then there are no stages,
+    # so then first stage id is equal to last stage id
+    first_stage_id = first_stage_id if id2new_nodes[last_stage_id].edges_to else last_stage_id
 
     # basic time lag of FinishStart or InseparableFinishStart edges
     indent = 0
-- 
2.43.0


From 0cd2ff5325e2b9e6169f9369afecf828dfc604b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:54 +0000
Subject: [PATCH 045/119] fix: restructure the graph with the chosen lag
 optimization in the pipeline

---
 sampo/pipeline/default.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sampo/pipeline/default.py b/sampo/pipeline/default.py
index 3ad610a..3778ed5 100644
--- a/sampo/pipeline/default.py
+++ b/sampo/pipeline/default.py
@@ -276,7 +276,7 @@ class DefaultInputPipeline(InputPipeline):
                     wg = wg2
                     schedules = schedules2
 
-            case LagOptimizationStrategy.TRUE, LagOptimizationStrategy.FALSE:
+            case LagOptimizationStrategy.TRUE | LagOptimizationStrategy.FALSE:
                 wg = graph_restructuring(self._wg, self._lag_optimize.value)
                 schedules = scheduler.schedule_with_cache(wg, self._contractors,
                                                           self._spec,
-- 
2.43.0


From 7057a2b25fe8d1166ec369bd76b09a6f840ac656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:40 +0000
Subject: [PATCH 046/119] fix: apply the specification of works to their stages
 in the pipeline

---
 sampo/pipeline/default.py | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/sampo/pipeline/default.py b/sampo/pipeline/default.py
index 3778ed5..1a09d7c 100644
--- a/sampo/pipeline/default.py
+++ b/sampo/pipeline/default.py
@@ -1,5 +1,8 @@
+from copy import copy
+
 import pandas as pd
 
+from sampo.api.const import STAGE_SEP
 from sampo.generator.environment import ContractorGenerationMethod, get_contractor_by_wg
 from sampo.pipeline.base import InputPipeline, SchedulePipeline
 from sampo.pipeline.delegating import DelegatingScheduler
@@ -17,7 +20,7 @@ from sampo.schemas.graph import WorkGraph, GraphNode
 from sampo.schemas.landscape import LandscapeConfiguration
 from sampo.schemas.project import ScheduledProject
 from sampo.schemas.schedule import Schedule
-from sampo.schemas.schedule_spec import ScheduleSpec
+from sampo.schemas.schedule_spec import ScheduleSpec, WorkSpec
 from sampo.schemas.time import Time
 from sampo.schemas.time_estimator import WorkTimeEstimator, DefaultWorkEstimator
 from sampo.structurator import graph_restructuring
@@ -48,6 +51,22 @@ def contractors_can_perform_work_graph(contractors: list[Contractor], wg: WorkGr
     return True
 
 
+def apply_spec_to_stages(spec: ScheduleSpec, wg: WorkGraph) -> ScheduleSpec:
+    """
+    Extends the terms given for works to the stages that these works were split into by restructuring of the graph
+
+    :param spec: the specification of works of the original graph
+    :param wg: the restructured graph
+    :return: the specification of works of the restructured graph
+    """
+    work2spec = copy(spec._work2spec)
+    for node in wg.nodes:
+        work_id = node.id.split(STAGE_SEP)[0]
+        if work_id in work2spec and work2spec.get(node.id, WorkSpec()) == WorkSpec():
+            work2spec[node.id] = work2spec[work_id]
+    return ScheduleSpec(work2spec)
+
+
 class DefaultInputPipeline(InputPipeline):
     """
     Default pipeline, that help to use the framework
@@ -249,7 +268,7 @@ class DefaultInputPipeline(InputPipeline):
                 # Searching the best
                 wg1 = graph_restructuring(self._wg, False)
                 schedules = scheduler.schedule_with_cache(wg1, self._contractors,
-                                                          self._spec,
+                                                          apply_spec_to_stages(self._spec, wg1),
                                                           landscape=self._landscape_config,
                                                           assigned_parent_time=self._assigned_parent_time,
                                                           validate=validate)
@@ -259,7 +278,7 @@ class DefaultInputPipeline(InputPipeline):
 
                 wg2 = graph_restructuring(self._wg, True)
                 schedules = scheduler.schedule_with_cache(wg2, self._contractors,
-                                                          self._spec,
+                                                          apply_spec_to_stages(self._spec, wg2),
                                                           landscape=self._landscape_config,
                                                           assigned_parent_time=self._assigned_parent_time,
                                                           validate=validate)
@@ -279,7 +298,7 @@ class DefaultInputPipeline(InputPipeline):
             case LagOptimizationStrategy.TRUE | LagOptimizationStrategy.FALSE:
                 wg = graph_restructuring(self._wg, self._lag_optimize.value)
                 schedules = scheduler.schedule_with_cache(wg, self._contractors,
-                                                          self._spec,
+                                                          apply_spec_to_stages(self._spec, wg),
                                                           landscape=self._landscape_config,
                                                           assigned_parent_time=self._assigned_parent_time,
                                                           validate=validate)
@@ -297,6 +316,8 @@ class DefaultInputPipeline(InputPipeline):
                 schedules = [schedule for schedule, _, _, _ in schedules]
                 self._node_orders = node_orders
 
+        self._spec = apply_spec_to_stages(self._spec, wg)
+
         return DefaultSchedulePipeline(self, wg, schedules)
 
 
-- 
2.43.0


From e2911cce4ea113d9cb7a541921924b8c3a2f858e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:51 +0000
Subject: [PATCH 047/119] fix: measure critical paths of schedules by the
 durations of works

---
 sampo/scheduler/utils/critical_path.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/sampo/scheduler/utils/critical_path.py b/sampo/scheduler/utils/critical_path.py
index 772e77d..371eca6 100644
--- a/sampo/scheduler/utils/critical_path.py
+++ b/sampo/scheduler/utils/critical_path.py
@@ -1,4 +1,3 @@
-from functools import partial
 from operator import itemgetter
 
 from sampo.scheduler.utils import get_head_nodes_with_connections_mappings_nodes
@@ -61,7 +60,7 @@ def critical_path_graph(nodes: list[GraphNode], work_estimator: WorkTimeEstimato
 
 
 def critical_path_schedule(nodes: list[GraphNode], scheduled_works: dict[str, ScheduledWork]) -> list[GraphNode]:
-    weights = {node.id: -work_priority(node, partial(calculate_scheduled_time_cascade, id2swork=scheduled_works), None) for node in nodes}
+    weights = {node.id: -calculate_scheduled_time_cascade(node, id2swork=scheduled_works).value for node in nodes}
     head_nodes, node_id2parent_ids, node_id2child_ids = get_head_nodes_with_connections_mappings_nodes(nodes)
     return _critical_path(head_nodes, weights, node_id2parent_ids, node_id2child_ids)
 
-- 
2.43.0


From ecf3891d6a1a9d5dfdbbaaa746bab4db881e17b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:06 +0000
Subject: [PATCH 048/119] fix: swap works only if their dependencies allow it

---
 sampo/scheduler/utils/local_optimization.py | 44 ++++++++++++++-------
 1 file changed, 30 insertions(+), 14 deletions(-)

diff --git a/sampo/scheduler/utils/local_optimization.py b/sampo/scheduler/utils/local_optimization.py
index 194e5fd..f125730 100644
--- a/sampo/scheduler/utils/local_optimization.py
+++ b/sampo/scheduler/utils/local_optimization.py
@@ -59,6 +59,23 @@ class ScheduleLocalOptimizer(ABC):
         ...
 
 
+def build_node2ind(node_order: list[GraphNode], start_index: int, end_index: int) -> dict[GraphNode, int]:
+    """
+    Maps nodes to their indexes in the given area of the order.
+    The stages of an inseparable chain that aren't in the order are performed with its head
+
+    :param node_order: order of nodes
+    :param start_index: start of the area
+    :param end_index: end of the area (exclusively)
+    :return: a dict from node to its index
+    """
+    node2ind = {node: start_index + ind for ind, node in enumerate(node_order[start_index:end_index])}
+    for node, ind in list(node2ind.items()):
+        for stage in node.get_inseparable_chain_with_self():
+            node2ind.setdefault(stage, ind)
+    return node2ind
+
+
 def get_swap_candidates(node: GraphNode,
                         node_index: int,
                         candidates: Iterable[GraphNode],
@@ -74,19 +91,21 @@ def get_swap_candidates(node: GraphNode,
     :param node2ind: a dict from node to its index
     :param processed: a set of nodes that should not be swapped yet
     """
-    cur_children: set[GraphNode] = node.children_set
+    cur_parents = [parent for stage in node.get_inseparable_chain_with_self() for parent in stage.parents]
 
     def is_candidate_accepted(candidate: GraphNode) -> bool:
-        if candidate in cur_children or candidate in processed:
+        if candidate in processed:
             return False
         candidate_ind = node2ind[candidate]
-        for child in cur_children:
-            if node2ind.get(child, 0) >= candidate_ind:  # we have a child between us and candidate
-                return False
-        candidate_parents = candidate.parents
-        for parent in candidate_parents:
-            if node2ind.get(parent, 0) <= node_index:  # candidate has a parent between us and candidate
+        for parent in cur_parents:
+            # we depend on candidate or have a parent between us and candidate
+            if candidate_ind <= node2ind.get(parent, -1) < node_index:
                 return False
+        for stage in candidate.get_inseparable_chain_with_self():
+            for child in stage.children:
+                # candidate has a child between us and candidate
+                if candidate_ind < node2ind.get(child, -1) <= node_index:
+                    return False
         return True
 
     return [candidate for candidate in candidates if is_candidate_accepted(candidate)]
@@ -111,8 +130,7 @@ class SwapOrderLocalOptimizer(OrderLocalOptimizer):
         # node2cost = {node: work_priority(node, calculate_working_time_cascade, work_estimator) for node in sub_seq}
 
         # preprocessing
-        node2ind: dict[GraphNode, int] = {node: start_index + ind for ind, node in
-                                          enumerate(node_order[start_index:end_index])}
+        node2ind = build_node2ind(node_order, start_index, end_index)
 
         # temporary for usability measurement
         swapped = 0
@@ -133,8 +151,7 @@ class SwapOrderLocalOptimizer(OrderLocalOptimizer):
                 node_order[i], node_order[swap_idx] = node_order[swap_idx], node_order[i]
                 # print(f'Swapped {i} and {swap_idx}')
                 processed.add(chain_candidate)
-                node2ind[chain_candidate] = i
-                node2ind[node] = swap_idx
+                node2ind = build_node2ind(node_order, start_index, end_index)
                 swapped += 1
 
             processed.add(node)
@@ -217,8 +234,7 @@ class ParallelizeScheduleLocalOptimizer(ScheduleLocalOptimizer):
         end_index = area.stop
         
         # preprocessing
-        node2ind: dict[GraphNode, int] = {node: start_index + ind for ind, node in
-                                          enumerate(node_order[start_index:end_index])}
+        node2ind = build_node2ind(node_order, start_index, end_index)
 
         processed: set[GraphNode] = set()
 
-- 
2.43.0


From dbe426a469b6dd5d47c02cf88bc29dc57cfed58f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:06 +0000
Subject: [PATCH 049/119] fix: restrict the area of local optimization to the
 order of works

---
 sampo/scheduler/utils/local_optimization.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sampo/scheduler/utils/local_optimization.py b/sampo/scheduler/utils/local_optimization.py
index f125730..1d4d107 100644
--- a/sampo/scheduler/utils/local_optimization.py
+++ b/sampo/scheduler/utils/local_optimization.py
@@ -123,6 +123,7 @@ class SwapOrderLocalOptimizer(OrderLocalOptimizer):
         if node_order is None:
             return
 
+        area = range(area.start, min(area.stop, len(node_order)))
         start_index = area.start
         end_index = area.stop
 
@@ -230,9 +231,10 @@ class ParallelizeScheduleLocalOptimizer(ScheduleLocalOptimizer):
         :param area:
         :return:
         """
+        area = range(area.start, min(area.stop, len(node_order)))
         start_index = area.start
         end_index = area.stop
-        
+
         # preprocessing
         node2ind = build_node2ind(node_order, start_index, end_index)
 
-- 
2.43.0


From 7092550246b2aa02c93efbf49780ed52b7c49c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:06 +0000
Subject: [PATCH 050/119] fix: apply all schedule optimizers added to the
 pipeline

---
 sampo/pipeline/default.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/sampo/pipeline/default.py b/sampo/pipeline/default.py
index 1a09d7c..e7aa414 100644
--- a/sampo/pipeline/default.py
+++ b/sampo/pipeline/default.py
@@ -20,6 +20,7 @@ from sampo.schemas.graph import WorkGraph, GraphNode
 from sampo.schemas.landscape import LandscapeConfiguration
 from sampo.schemas.project import ScheduledProject
 from sampo.schemas.schedule import Schedule
+from sampo.schemas.scheduled_work import ScheduledWork
 from sampo.schemas.schedule_spec import ScheduleSpec, WorkSpec
 from sampo.schemas.time import Time
 from sampo.schemas.time_estimator import WorkTimeEstimator, DefaultWorkEstimator
@@ -335,16 +336,20 @@ class DefaultSchedulePipeline(SchedulePipeline):
         self._start_date = None
 
     def optimize_local(self, optimizer: ScheduleLocalOptimizer, area: range) -> 'SchedulePipeline':
-        self._local_optimize_stack.add(optimizer.optimize,
-                                       self._input._contractors, self._input._landscape_config,
-                                       self._input._spec, self._worker_pool, self._input._work_estimator,
-                                       self._input._assigned_parent_time, area)
+        def optimize(scheduled_works: dict[GraphNode, ScheduledWork], node_order: list[GraphNode]) \
+                -> tuple[dict[GraphNode, ScheduledWork], list[GraphNode]]:
+            return optimizer.optimize(scheduled_works, node_order,
+                                      self._input._contractors, self._input._landscape_config,
+                                      self._input._spec, self._worker_pool, self._input._work_estimator,
+                                      self._input._assigned_parent_time, area), node_order
+
+        self._local_optimize_stack.add(lambda works_with_order: optimize(*works_with_order))
         return self
 
     def finish(self) -> list[ScheduledProject]:
         scheduled_projects = []
         for scheduled_works, node_order in zip(self._scheduled_works, self._input._node_orders):
-            processed_sworks = self._local_optimize_stack.apply(scheduled_works, node_order)
+            processed_sworks, _ = self._local_optimize_stack.apply((scheduled_works, node_order))
             schedule = Schedule.from_scheduled_works(processed_sworks.values(), self._wg)
             scheduled_projects.append(ScheduledProject(self._input._wg, self._wg, self._input._contractors, schedule))
         return scheduled_projects
-- 
2.43.0


From 9c2a3288af8dc5694b9cffefe5ad0a8186e90372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:25 +0000
Subject: [PATCH 051/119] fix: recalculate a schedule in the order of works

---
 sampo/scheduler/utils/local_optimization.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/sampo/scheduler/utils/local_optimization.py b/sampo/scheduler/utils/local_optimization.py
index 1d4d107..2ef723f 100644
--- a/sampo/scheduler/utils/local_optimization.py
+++ b/sampo/scheduler/utils/local_optimization.py
@@ -197,18 +197,19 @@ class ParallelizeScheduleLocalOptimizer(ScheduleLocalOptimizer):
         timeline = self._timeline_type(worker_pool, landscape_config)
         node2swork_new: dict[GraphNode, ScheduledWork] = {}
 
-        id2contractor = build_index(contractors, attrgetter('name'))
+        id2contractor = build_index(contractors, attrgetter('id'))
 
-        for index, node in enumerate(node_order):
+        for node in node_order:
+            if node in node2swork_new:  # the whole inseparable chain is scheduled with its head
+                continue
             node_schedule = node2swork[node]
             work_spec = spec.get_work_spec(node.id)
             # st = timeline.find_min_start_time(node, node_schedule.workers, node2swork_new)
             # ft = st + node_schedule.get_actual_duration(work_estimator)
             timeline.schedule(node, node2swork_new, node_schedule.workers,
-                              id2contractor[node_schedule.contractor], work_spec, None, work_spec.assigned_time,
+                              id2contractor.get(node_schedule.contractor_id), work_spec, None, work_spec.assigned_time,
                               assigned_parent_time, work_estimator)
             # node_schedule.start_end_time = (st, ft)
-            node2swork_new[node] = node_schedule
 
         return node2swork_new
 
@@ -307,7 +308,7 @@ class ParallelizeScheduleLocalOptimizer(ScheduleLocalOptimizer):
                     # candidate_schedule.start_time = my_schedule.start_time
                     break
 
-        return self.recalc_schedule(reversed(node_order), contractors, landscape_config, spec, scheduled_works,
+        return self.recalc_schedule(node_order, contractors, landscape_config, spec, scheduled_works,
                                     worker_pool, assigned_parent_time, work_estimator)
 
 
-- 
2.43.0


From 0b555f1ffe3ac3db18e429f9e67161e0b0e5ed91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:48 +0000
Subject: [PATCH 052/119] fix: share workers between parallelized works within
 their requirements

---
 sampo/scheduler/utils/local_optimization.py | 32 +++++++++++++--------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/sampo/scheduler/utils/local_optimization.py b/sampo/scheduler/utils/local_optimization.py
index 2ef723f..35ccd8b 100644
--- a/sampo/scheduler/utils/local_optimization.py
+++ b/sampo/scheduler/utils/local_optimization.py
@@ -252,30 +252,38 @@ class ParallelizeScheduleLocalOptimizer(ScheduleLocalOptimizer):
             my_workers: dict[str, Worker] = build_index(my_schedule.workers, attrgetter('name'))
             my_schedule_reqs: dict[str, WorkerReq] = build_index(node.work_unit.worker_reqs, attrgetter('kind'))
 
-            new_my_workers = {}
+            if spec.get_work_spec(node.id).assigned_workers:  # the team is given
+                continue
 
             # now accepted_candidates is a list of nodes that can(according to dependencies) run in parallel
             for candidate in accepted_candidates:
                 candidate_schedule = scheduled_works[candidate]
 
+                if candidate_schedule.contractor_id != my_schedule.contractor_id \
+                        or spec.get_work_spec(candidate.id).assigned_workers:
+                    continue
+
                 candidate_schedule_reqs: dict[str, WorkerReq] = build_index(candidate.work_unit.worker_reqs,
                                                                             attrgetter('kind'))
 
+                new_my_workers: dict[str, int] = {}
                 new_candidate_workers: dict[str, int] = {}
 
                 satisfy = True
 
                 for candidate_worker in candidate_schedule.workers:
-                    my_worker = my_workers.get(candidate_worker.model_name, None)
+                    my_worker = my_workers.get(candidate_worker.name, None)
                     if my_worker is None:  # these two works are not compete for this worker
                         continue
 
-                    need_me = my_workers[candidate_worker.model_name].count
+                    need_me = my_workers[candidate_worker.name].count
                     need_candidate = candidate_worker.count
 
-                    total = need_me + need_candidate
-                    my_req = my_schedule_reqs[candidate_worker.model_name]
-                    candidate_req = candidate_schedule_reqs[candidate_worker.model_name]
+                    # these two works should fit into the resources of their contractor together
+                    total = min(need_me + need_candidate,
+                                worker_pool[candidate_worker.name][candidate_worker.contractor_id].count)
+                    my_req = my_schedule_reqs[candidate_worker.name]
+                    candidate_req = candidate_schedule_reqs[candidate_worker.name]
                     needed_min = my_req.min_count + candidate_req.min_count
 
                     if needed_min > total:  # these two works can't run in parallel
@@ -286,23 +294,23 @@ class ParallelizeScheduleLocalOptimizer(ScheduleLocalOptimizer):
                     my_worker_count = my_req.min_count
                     total -= needed_min
 
-                    add_me = min(my_req.max_count, total // 2)
-                    add_candidate = min(candidate_req.max_count, total - add_me)
+                    add_me = min(my_req.max_count - my_req.min_count, total // 2)
+                    add_candidate = min(candidate_req.max_count - candidate_req.min_count, total - add_me)
 
                     my_worker_count += add_me
                     candidate_worker_count += add_candidate
 
-                    new_my_workers[candidate_worker.model_name] = my_worker_count
-                    new_candidate_workers[candidate_worker.model_name] = candidate_worker_count
+                    new_my_workers[candidate_worker.name] = my_worker_count
+                    new_candidate_workers[candidate_worker.name] = candidate_worker_count
 
                 if satisfy:  # replacement found, apply changes and leave candidates bruteforce
                     print(f'Found! {candidate.work_unit.name} {node.work_unit.name}')
                     for worker in my_schedule.workers:
-                        worker_count = new_my_workers.get(worker.model_name, None)
+                        worker_count = new_my_workers.get(worker.name, None)
                         if worker_count is not None:
                             worker.count = worker_count
                     for worker in candidate_schedule.workers:
-                        worker_count = new_candidate_workers.get(worker.model_name, None)
+                        worker_count = new_candidate_workers.get(worker.name, None)
                         if worker_count is not None:
                             worker.count = worker_count
                     # candidate_schedule.start_time = my_schedule.start_time
-- 
2.43.0


From f93126be25f54df0680ecc944178ac9444a003c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:30 +0000
Subject: [PATCH 053/119] fix: return the order of works from the parallel
 schedule generation scheme

---
 sampo/scheduler/genetic/converter.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sampo/scheduler/genetic/converter.py b/sampo/scheduler/genetic/converter.py
index c4c7313..893baf6 100644
--- a/sampo/scheduler/genetic/converter.py
+++ b/sampo/scheduler/genetic/converter.py
@@ -210,6 +210,7 @@ def parallel_schedule_generation_scheme(chromosome: ChromosomeType,
             if idx == len(works_order) - 1:  # we are scheduling the work `end of the project`
                 node2swork[node].zones_pre = finalizing_zones
 
+            order_nodes.append(node)
             work_timeline.update_timeline(st, exec_time, None)
             return True
         return False
-- 
2.43.0


From c4b0e10f3331644ec9e53311f4189a8697aba044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:48 +0000
Subject: [PATCH 054/119] fix: apply genetic operators of order to the last
 group of priorities

---
 sampo/scheduler/genetic/operators.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/sampo/scheduler/genetic/operators.py b/sampo/scheduler/genetic/operators.py
index 8fd3114..7e6d657 100644
--- a/sampo/scheduler/genetic/operators.py
+++ b/sampo/scheduler/genetic/operators.py
@@ -499,6 +499,10 @@ def mate_scheduling_order(ind1: Individual, ind2: Individual, rand: random.Rando
             cur_priority = priorities[order1[i]]
 
             mate_parts(order1[cur_priority_group_start:i], order2[cur_priority_group_start:i])
+            cur_priority_group_start = i
+
+    # the last group isn't followed by a change of the priority
+    mate_parts(order1[cur_priority_group_start:], order2[cur_priority_group_start:])
 
     return toolbox.Individual(child1), toolbox.Individual(child2)
 
@@ -608,6 +612,9 @@ def mutate_scheduling_order(ind: Individual, mutpb: float, rand: random.Random,
             cur_priority = priorities[order[i]]
             cur_priority_group_start = i
 
+    # the last group isn't followed by a change of the priority
+    mutate_scheduling_order_core(order[cur_priority_group_start:], mutpb_for_priority_group, rand, parents, children)
+
     return ind
 
 
-- 
2.43.0


From cda0d9af1c08711531947686adc40b8bd272f1ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:05 +0000
Subject: [PATCH 055/119] fix: keep every non-dominated solution found by the
 genetic algorithm

---
 sampo/scheduler/genetic/schedule_builder.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sampo/scheduler/genetic/schedule_builder.py b/sampo/scheduler/genetic/schedule_builder.py
index e1eb839..410e53a 100644
--- a/sampo/scheduler/genetic/schedule_builder.py
+++ b/sampo/scheduler/genetic/schedule_builder.py
@@ -234,8 +234,8 @@ def build_schedules_with_cache(wg: WorkGraph,
 
         # renewing population
         pop += offspring
-        pop = toolbox.select(pop)
         hof.update(pop)
+        pop = toolbox.select(pop)
 
         prev_best_fitness = best_fitness
         best_fitness = hof[0].fitness.values
@@ -325,8 +325,8 @@ def build_schedules_with_cache(wg: WorkGraph,
 
                 # renewing population
                 pop += offspring
-                pop = toolbox.select(pop)
                 hof.update(pop)
+                pop = toolbox.select(pop)
 
                 prev_best_fitness = best_fitness
                 best_fitness = hof[0].fitness.values
-- 
2.43.0


From 362e3ca2374300337a7026583109b56216be6c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:53 +0000
Subject: [PATCH 056/119] fix: generate valid first population in the
 multiprocessing backend

---
 sampo/backend/multiproc.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sampo/backend/multiproc.py b/sampo/backend/multiproc.py
index 691ecd1..cdf67b2 100644
--- a/sampo/backend/multiproc.py
+++ b/sampo/backend/multiproc.py
@@ -161,7 +161,7 @@ class MultiprocessingComputationalBackend(DefaultComputationalBackend):
         def mapper(key: str):
             def randomized_init():
                 schedule, _, _, order = RandomizedTopologicalScheduler(g_work_estimator, int(g_rand.random() * 1000000)) \
-                    .schedule_with_cache(g_wg, g_contractors, landscape=g_landscape)[0]
+                    .schedule_with_cache(g_wg, g_contractors, g_spec, landscape=g_landscape)[0]
                 return schedule, order, g_spec
 
             def init_k_schedule(scheduler_class, k) -> tuple[Schedule | None, list[GraphNode] | None, ScheduleSpec | None]:
@@ -170,7 +170,7 @@ class MultiprocessingComputationalBackend(DefaultComputationalBackend):
                                                                   resource_optimizer=AverageReqResourceOptimizer(k))
                                                   .schedule_with_cache(g_wg, g_contractors, g_spec,
                                                                        landscape=g_landscape))[0]
-                    return schedule, node_order[::-1], g_spec
+                    return schedule, node_order, g_spec
                 except NoSufficientContractorError:
                     return None, None, None
 
@@ -180,7 +180,7 @@ class MultiprocessingComputationalBackend(DefaultComputationalBackend):
                         schedule, _, _, node_order = (scheduler_class(work_estimator=g_work_estimator)
                                                       .schedule_with_cache(g_wg, g_contractors, g_spec,
                                                                            landscape=g_landscape))[0]
-                        return schedule, node_order[::-1], g_spec
+                        return schedule, node_order, g_spec
                     except NoSufficientContractorError:
                         return None, None, None
 
@@ -190,7 +190,7 @@ class MultiprocessingComputationalBackend(DefaultComputationalBackend):
                         (schedule, _, _, node_order), modified_spec = AverageBinarySearchResourceOptimizingScheduler(
                             scheduler_class(work_estimator=g_work_estimator)
                         ).schedule_with_cache(g_wg, g_contractors, g_deadline, g_spec, landscape=g_landscape)
-                        return schedule, node_order[::-1], modified_spec
+                        return schedule, node_order, modified_spec
                     except NoSufficientContractorError:
                         return None, None, None
 
-- 
2.43.0


From a5643146c520adb6c6a493a00a90777a2715a4f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:53 +0000
Subject: [PATCH 057/119] fix: make first population of the multiprocessing
 backend reproducible and diverse

---
 sampo/backend/multiproc.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/sampo/backend/multiproc.py b/sampo/backend/multiproc.py
index cdf67b2..c4155df 100644
--- a/sampo/backend/multiproc.py
+++ b/sampo/backend/multiproc.py
@@ -158,9 +158,11 @@ class MultiprocessingComputationalBackend(DefaultComputationalBackend):
         self._ensure_toolbox_created()
         self._ensure_pool_created()
 
-        def mapper(key: str):
+        def mapper(key_and_seed: tuple[str, int]):
+            key, seed = key_and_seed
+
             def randomized_init():
-                schedule, _, _, order = RandomizedTopologicalScheduler(g_work_estimator, int(g_rand.random() * 1000000)) \
+                schedule, _, _, order = RandomizedTopologicalScheduler(g_work_estimator, seed) \
                     .schedule_with_cache(g_wg, g_contractors, g_spec, landscape=g_landscape)[0]
                 return schedule, order, g_spec
 
@@ -230,5 +232,6 @@ class MultiprocessingComputationalBackend(DefaultComputationalBackend):
         chromosome_keys = ['heft_end', 'heft_between', '12.5%', '25%', '75%', '87.5%', 'randomized']
         chromosome_types = self._rand.sample(chromosome_keys, k=size_population, counts=counts)
 
-        chromosomes = self.map(mapper, chromosome_types)
+        # processes share the state of the random generator, so seeds are chosen here
+        chromosomes = self.map(mapper, [(key, int(self._rand.random() * 1000000)) for key in chromosome_types])
         return [self._toolbox.Individual(chromosome) for chromosome in chromosomes]
-- 
2.43.0


From bd77aaf2ee1461a2aab9f2235f6a04b29acae563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:53 +0000
Subject: [PATCH 058/119] fix: use LFT for first population of the
 multiprocessing backend too

---
 sampo/backend/multiproc.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/sampo/backend/multiproc.py b/sampo/backend/multiproc.py
index c4155df..f19e928 100644
--- a/sampo/backend/multiproc.py
+++ b/sampo/backend/multiproc.py
@@ -13,6 +13,7 @@ from sampo.backend.default import DefaultComputationalBackend
 from sampo.scheduler.genetic.operators import Individual
 from sampo.scheduler.genetic.utils import create_toolbox_using_cached_chromosomes, init_chromosomes_f
 from sampo.scheduler.heft import HEFTScheduler, HEFTBetweenScheduler
+from sampo.scheduler.lft.base import LFTScheduler
 from sampo.scheduler.resource import AverageReqResourceOptimizer
 from sampo.scheduler.resources_in_time import AverageBinarySearchResourceOptimizingScheduler
 from sampo.scheduler.topological.base import RandomizedTopologicalScheduler
@@ -200,6 +201,11 @@ class MultiprocessingComputationalBackend(DefaultComputationalBackend):
                 return g_toolbox.schedule_to_chromosome(schedule=schedule, spec=spec, order=priority_list)
 
             match key:
+                case 'lft':
+                    schedule, _, _, node_order = (LFTScheduler(work_estimator=g_work_estimator)
+                                                  .schedule_with_cache(g_wg, g_contractors, g_spec,
+                                                                       landscape=g_landscape))[0]
+                    return convert(schedule, node_order, g_spec)
                 case 'heft_end':
                     return convert(*init_schedule(HEFTScheduler))
                 case 'heft_between':
@@ -215,7 +221,7 @@ class MultiprocessingComputationalBackend(DefaultComputationalBackend):
                 case 'randomized':
                     return convert(*randomized_init())
 
-        weights = self._weights or [2, 2, 1, 1, 1, 1]
+        weights = self._weights or [2, 2, 2, 1, 1, 1, 1]
 
         count_for_specified_types = (size_population // 3) // len(weights)
         count_for_specified_types = count_for_specified_types if count_for_specified_types > 0 else 1
@@ -229,7 +235,7 @@ class MultiprocessingComputationalBackend(DefaultComputationalBackend):
         count_for_topological = count_for_topological if count_for_topological > 0 else 1
         counts += [count_for_topological]
 
-        chromosome_keys = ['heft_end', 'heft_between', '12.5%', '25%', '75%', '87.5%', 'randomized']
+        chromosome_keys = ['lft', 'heft_end', 'heft_between', '12.5%', '25%', '75%', '87.5%', 'randomized']
         chromosome_types = self._rand.sample(chromosome_keys, k=size_population, counts=counts)
 
         # processes share the state of the random generator, so seeds are chosen here
-- 
2.43.0


From 35703fac3b0d667e68b75abbd7a3b32c208556c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:53 +0000
Subject: [PATCH 059/119] fix: keep settings of the work estimator in the
 multiprocessing backend

---
 sampo/schemas/time_estimator.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/sampo/schemas/time_estimator.py b/sampo/schemas/time_estimator.py
index 8500783..04a0074 100644
--- a/sampo/schemas/time_estimator.py
+++ b/sampo/schemas/time_estimator.py
@@ -1,8 +1,9 @@
 from abc import ABC, abstractmethod
+from copy import deepcopy
 from enum import Enum
 from operator import attrgetter
 from random import Random
-from typing import Optional, Type, Any
+from typing import Optional, Type, Any, Callable
 
 import numpy.random
 import math
@@ -131,8 +132,9 @@ class DefaultWorkEstimator(WorkTimeEstimator):
             return
         self._productivity[name][contractor] = productivity
 
-    def get_recreate_info(self) -> tuple[Type, tuple]:
-        return DefaultWorkEstimator, ()
+    def get_recreate_info(self) -> tuple[Callable, tuple]:
+        # recreated estimator keeps all the settings, such as productivity
+        return deepcopy, (self,)
 
 
 def communication_coefficient(groups_count: int, max_groups: int) -> float:
-- 
2.43.0


From d253e4857b86610ca3279683f243c0793a5b8fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:45 +0000
Subject: [PATCH 060/119] fix: rely on time in the first stage of genetic with
 deadline whatever the fitness function is

---
 sampo/scheduler/genetic/schedule_builder.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sampo/scheduler/genetic/schedule_builder.py b/sampo/scheduler/genetic/schedule_builder.py
index 410e53a..1dba49a 100644
--- a/sampo/scheduler/genetic/schedule_builder.py
+++ b/sampo/scheduler/genetic/schedule_builder.py
@@ -187,7 +187,9 @@ def build_schedules_with_cache(wg: WorkGraph,
 
     # create population of a given size
     if pop is None:
-        pop = SAMPO.backend.generate_first_population(population_size)
+        # backend doesn't know about the fitness of the first stage, that is used if there is a deadline
+        pop = [toolbox.Individual(chromosome)
+               for chromosome in SAMPO.backend.generate_first_population(population_size)]
     else:
         pop = [toolbox.Individual(chromosome) for chromosome in pop]
 
-- 
2.43.0


From cc3c9077124026817f97cca5810fe27caf49b8a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:39 +0000
Subject: [PATCH 061/119] fix: Save the equipment and object requirements of a
 work as the other requirements

---
 sampo/schemas/works.py | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/sampo/schemas/works.py b/sampo/schemas/works.py
index c371c36..815ffa3 100644
--- a/sampo/schemas/works.py
+++ b/sampo/schemas/works.py
@@ -82,6 +82,8 @@ class WorkUnit(AutoJSONSerializable['WorkUnit'], Identifiable):
         return [req.material() for req in self.material_reqs]
 
     @custom_serializer('worker_reqs')
+    @custom_serializer('equipment_reqs')
+    @custom_serializer('object_reqs')
     @custom_serializer('zone_reqs')
     @custom_serializer('material_reqs')
     def serialize_serializable_list(self, value) -> list:
@@ -116,6 +118,28 @@ class WorkUnit(AutoJSONSerializable['WorkUnit'], Identifiable):
         """
         return [WorkerReq._deserialize(wr) for wr in value]
 
+    @classmethod
+    @custom_serializer('equipment_reqs', deserializer=True)
+    def equipment_reqs_deserializer(cls, value) -> list[EquipmentReq]:
+        """
+        Get list of equipment requirements
+
+        :param value: serialized list of equipment requirements
+        :return: list of equipment requirements
+        """
+        return [EquipmentReq._deserialize(er) for er in value]
+
+    @classmethod
+    @custom_serializer('object_reqs', deserializer=True)
+    def object_reqs_deserializer(cls, value) -> list[ConstructionObjectReq]:
+        """
+        Get list of construction object requirements
+
+        :param value: serialized list of construction object requirements
+        :return: list of construction object requirements
+        """
+        return [ConstructionObjectReq._deserialize(cr) for cr in value]
+
     @classmethod
     @custom_serializer('zone_reqs', deserializer=True)
     def zone_reqs_deserializer(cls, value) -> list[ZoneReq]:
-- 
2.43.0


From ed4b53f4d3babcbfbbbbbf2a5dd651b8febd3a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:39 +0000
Subject: [PATCH 062/119] fix: Keep the edges of a WorkGraph that is copied or
 unpickled

---
 sampo/schemas/graph.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/sampo/schemas/graph.py b/sampo/schemas/graph.py
index 64b9b5d..86e0ffb 100644
--- a/sampo/schemas/graph.py
+++ b/sampo/schemas/graph.py
@@ -432,9 +432,10 @@ class WorkGraph(JSONSerializable['WorkGraph']):
 
     def __setstate__(self, state):
         # custom method to avoid calling __hash__() on GraphNode objects
-        deserialized = self._deserialize(state)
-        object.__setattr__(self, 'start', deserialized.start)
-        object.__setattr__(self, 'finish', deserialized.finish)
+        # the nodes are not taken from another WorkGraph, because it would unlink them when it is removed
+        start, finish = self._deserialize_nodes(state)
+        object.__setattr__(self, 'start', start)
+        object.__setattr__(self, 'finish', finish)
         self.__post_init__()
 
     def __del__(self):
@@ -452,6 +453,15 @@ class WorkGraph(JSONSerializable['WorkGraph']):
 
     @classmethod
     def _deserialize(cls, representation: T) -> JS:
+        return WorkGraph(*cls._deserialize_nodes(representation))
+
+    @staticmethod
+    def _deserialize_nodes(representation: T) -> tuple[GraphNode, GraphNode]:
+        """
+        Recreates the nodes
+
+        :return: the start and the finish nodes
+        """
         serialized_nodes = [GraphNode._deserialize(node) for node in representation['nodes']]
         assert not serialized_nodes[0]['parent_edges']
         start_id, finish_id = (serialized_nodes[i]['work_unit'].id for i in (0, -1))
@@ -462,7 +472,7 @@ class WorkGraph(JSONSerializable['WorkGraph']):
             graph_node = GraphNode(wu, [(nodes_dict[p_id], p_lag, p_type) for p_id, p_lag, p_type in parent_info])
             nodes_dict[wu.id] = graph_node
 
-        return WorkGraph(nodes_dict[start_id], nodes_dict[finish_id])
+        return nodes_dict[start_id], nodes_dict[finish_id]
 
     # TODO: Check that adj matrix is really need
     def _to_adj_matrix(self) -> tuple[list[GraphNode], dok_matrix, dict[str, GraphNode]]:
-- 
2.43.0


From a6aba9d521a31da6fa59d358d53d419c3e5b79a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:39 +0000
Subject: [PATCH 063/119] fix: Do not change the representation an object is
 loaded from

---
 sampo/schemas/graph.py        | 9 +++++----
 sampo/schemas/schedule.py     | 3 +--
 sampo/schemas/serializable.py | 7 ++-----
 3 files changed, 8 insertions(+), 11 deletions(-)

diff --git a/sampo/schemas/graph.py b/sampo/schemas/graph.py
index 86e0ffb..259f9fa 100644
--- a/sampo/schemas/graph.py
+++ b/sampo/schemas/graph.py
@@ -94,10 +94,11 @@ class GraphNode(JSONSerializable['GraphNode']):
 
     @classmethod
     def _deserialize(cls, representation: T) -> dict:
-        representation['work_unit'] = WorkUnit._deserialize(representation['work_unit'])
-        representation['parent_edges'] = [(e[0], e[1], EdgeType(e[2])) for e in representation['parent_edges']]
-        # representation['child_edges'] = [(e[0], e[1], EdgeType(e[2])) for e in representation['child_edges']]
-        return representation
+        return {
+            'work_unit': WorkUnit._deserialize(representation['work_unit']),
+            'parent_edges': [(e[0], e[1], EdgeType(e[2])) for e in representation['parent_edges']],
+            # 'child_edges': [(e[0], e[1], EdgeType(e[2])) for e in representation['child_edges']]
+        }
 
     def update_work_unit(self, work_unit: WorkUnit) -> None:
         self._work_unit = work_unit
diff --git a/sampo/schemas/schedule.py b/sampo/schemas/schedule.py
index c7e90c4..a3c0bff 100644
--- a/sampo/schemas/schedule.py
+++ b/sampo/schemas/schedule.py
@@ -99,8 +99,7 @@ class Schedule(JSONSerializable['Schedule']):
     @classmethod
     def _deserialize(cls, dict_representation: T) -> 'Schedule':
         # Method described in base class
-        dict_representation['works'] = [ScheduledWork._deserialize(sw) for sw in dict_representation['works']]
-        return Schedule.from_scheduled_works(**dict_representation)
+        return Schedule.from_scheduled_works([ScheduledWork._deserialize(sw) for sw in dict_representation['works']])
 
     @lru_cache
     def merged_stages_datetime_df(self, offset: Union[datetime, str]) -> DataFrame:
diff --git a/sampo/schemas/serializable.py b/sampo/schemas/serializable.py
index d158127..58bacbb 100644
--- a/sampo/schemas/serializable.py
+++ b/sampo/schemas/serializable.py
@@ -403,10 +403,7 @@ class AutoJSONSerializable(JSONSerializable[AJS], ABC):
                                                                                           CUSTOM_TYPE_DESERIALIZER)]
                                                for attr in [getattr(cls, name) for name in dir(cls)]
                                                if hasattr(attr, CUSTOM_TYPE_DESERIALIZER)]))
-        type_hints = {}
-        if TYPE_HINTS in dict_representation:
-            type_hints = dict_representation[TYPE_HINTS]
-            del dict_representation[TYPE_HINTS]
+        type_hints = dict_representation.get(TYPE_HINTS, {})
 
         def deserialize_field(name, value):
             """
@@ -430,7 +427,7 @@ class AutoJSONSerializable(JSONSerializable[AJS], ABC):
         fields = dict({f: None for f in cls.ignored_fields},
                       **{k: deserialize_field(k, v)
                          for k, v in dict_representation.items()
-                         if k not in cls.ignored_fields})
+                         if k != TYPE_HINTS and k not in cls.ignored_fields})
 
         self = cls.__new__(cls)
         try:
-- 
2.43.0


From 544835733372e26538d60975783c616ce2c74b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:39 +0000
Subject: [PATCH 064/119] fix: Export the work names and measurements to a
 frame from the model name

---
 sampo/schemas/graph.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sampo/schemas/graph.py b/sampo/schemas/graph.py
index 259f9fa..2ceda16 100644
--- a/sampo/schemas/graph.py
+++ b/sampo/schemas/graph.py
@@ -383,9 +383,9 @@ class WorkGraph(JSONSerializable['WorkGraph']):
                 # Get information about tasks from graph nodes (work units)
                 graph_df_structure['activity_id'].append(node_info_dict['work_unit']['id'])
                 graph_df_structure['activity_name'].append(node_info_dict['work_unit']['display_name'])
-                graph_df_structure['granular_name'].append(node_info_dict['work_unit']['name'])
+                graph_df_structure['granular_name'].append(node.work_unit.model_name['granular_name'])
                 graph_df_structure['volume'].append(node_info_dict['work_unit']['volume'])
-                graph_df_structure['measurement'].append(node_info_dict['work_unit']['volume_type'])
+                graph_df_structure['measurement'].append(node.work_unit.model_name['measurement'])
                 graph_df_structure['priority'].append(node_info_dict['work_unit']['priority'])
 
                 if save_req:
-- 
2.43.0


From e50f957d3a0a6075345b3984d37d12b938e388dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:53 +0000
Subject: [PATCH 065/119] fix: Read the works whose names and measurements are
 given in separate columns

---
 sampo/userinput/parser/general_build.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/sampo/userinput/parser/general_build.py b/sampo/userinput/parser/general_build.py
index 23fb7bc..76cb483 100644
--- a/sampo/userinput/parser/general_build.py
+++ b/sampo/userinput/parser/general_build.py
@@ -168,15 +168,21 @@ def preprocess_graph_df(frame: pd.DataFrame,
             frame[col] = temp_lst
 
     if 'model_name' not in frame.columns:
-        frame['model_name'] = ''
+        # the parts of the model name are given in separate columns
+        name_columns = [col for col in ['granular_name', 'measurement'] if col in frame.columns]
+        frame['model_name'] = [str({col: name for col, name in zip(name_columns, names) if not pd.isna(name)})
+                               for names in zip(*[frame[col] for col in name_columns])] if name_columns else '{}'
 
     def map_activity(row):
         model_name_dict = eval(row['model_name'])
         if 'granular_name' not in model_name_dict:
-            model_name_dict['granular_name'] = name_mapper[row['activity_name']]
+            model_name_dict['granular_name'] = name_mapper[row['activity_name']] if name_mapper is not None \
+                else row['activity_name']
         return str(model_name_dict)
 
     frame['model_name'] = frame[['activity_name', 'model_name']].apply(map_activity, axis=1)
+    # it is looked up in the history
+    frame['granular_name'] = [eval(model_name)['granular_name'] for model_name in frame['model_name']]
 
     frame['activity_id'] = frame['activity_id'].astype(str)
     frame['volume'] = [float(x.replace(',', '.')) if isinstance(x, str) else float(x) for x in frame['volume']]
-- 
2.43.0


From 55a300b16289bb7f4a0e2953c3cc56b2fbd27684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:53 +0000
Subject: [PATCH 066/119] fix: Give the model name read from a file to the
 works and the estimator as a dictionary

---
 sampo/userinput/parser/csv_parser.py    | 2 +-
 sampo/userinput/parser/general_build.py | 6 ++++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/sampo/userinput/parser/csv_parser.py b/sampo/userinput/parser/csv_parser.py
index aae71e4..2924c66 100644
--- a/sampo/userinput/parser/csv_parser.py
+++ b/sampo/userinput/parser/csv_parser.py
@@ -124,7 +124,7 @@ class CSVParser:
             works_info.activity_name = works_info.activity_name.apply(lambda name: name_mapper[name])
 
         resources = [dict((worker_req.kind, int(worker_req.volume))
-                          for worker_req in work_resource_estimator.find_work_resources(model_name=w[0],
+                          for worker_req in work_resource_estimator.find_work_resources(model_name=eval(w[0]),
                                                                                         work_volume=float(w[1])))
                      for w in works_info.loc[:, ['model_name', 'volume']].to_numpy()]
 
diff --git a/sampo/userinput/parser/general_build.py b/sampo/userinput/parser/general_build.py
index 76cb483..1eea205 100644
--- a/sampo/userinput/parser/general_build.py
+++ b/sampo/userinput/parser/general_build.py
@@ -250,6 +250,8 @@ def build_work_graph(frame: pd.DataFrame, resource_names: list[str], work_estima
     id_to_node = {}
 
     for _, row in frame.iterrows():
+        model_name = eval(row['model_name'])
+
         if 'min_req' in frame.columns and 'max_req' in frame.columns and 'req_volume' in frame.columns:
             reqs = []
             for res_name in resource_names:
@@ -259,7 +261,7 @@ def build_work_graph(frame: pd.DataFrame, resource_names: list[str], work_estima
                                               row['min_req'][res_name],
                                               row['max_req'][res_name]))
         else:
-            reqs = work_estimator.find_work_resources(model_name=eval(row['model_name']),
+            reqs = work_estimator.find_work_resources(model_name=model_name,
                                                       work_volume=float(row['volume']))
         is_service_unit = len(reqs) == 0
 
@@ -270,7 +272,7 @@ def build_work_graph(frame: pd.DataFrame, resource_names: list[str], work_estima
         group = row['group'] if 'group' in frame.columns else 'main project'
         priority = row['priority'] if 'priority' in frame.columns else 1
 
-        work_unit = WorkUnit(row['activity_id'], row['model_name'], reqs, group=group,
+        work_unit = WorkUnit(row['activity_id'], model_name, reqs, group=group,
                              description=description, volume=row['volume'],
                              is_service_unit=is_service_unit, display_name=row['activity_name_original'],
                              zone_reqs=zone_reqs, priority=priority)
-- 
2.43.0


From d59e7c6c684a50d1f02b71d621fb04f49a607f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:54 +0000
Subject: [PATCH 067/119] fix: Keep the links to the works whose ids are
 numbers such as 1.2 or 007

---
 sampo/userinput/parser/general_build.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sampo/userinput/parser/general_build.py b/sampo/userinput/parser/general_build.py
index 1eea205..44ddb2b 100644
--- a/sampo/userinput/parser/general_build.py
+++ b/sampo/userinput/parser/general_build.py
@@ -158,7 +158,7 @@ def preprocess_graph_df(frame: pd.DataFrame,
                         name_mapper: NameMapper | None = None) -> pd.DataFrame:
     def normalize_if_number(s):
         return str(int(float(s))) \
-            if s.replace('.', '', 1).isdigit() \
+            if s not in activity_ids and s.replace('.', '', 1).isdigit() \
             else s
 
     temp_lst = [math.nan] * frame.shape[0]
@@ -185,6 +185,7 @@ def preprocess_graph_df(frame: pd.DataFrame,
     frame['granular_name'] = [eval(model_name)['granular_name'] for model_name in frame['model_name']]
 
     frame['activity_id'] = frame['activity_id'].astype(str)
+    activity_ids = set(frame['activity_id'])
     frame['volume'] = [float(x.replace(',', '.')) if isinstance(x, str) else float(x) for x in frame['volume']]
 
     if 'min_req' in frame.columns and 'max_req' in frame.columns:
-- 
2.43.0


From 57efe0fd8403bca63a10f24dc7cf434cc0345845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:54 +0000
Subject: [PATCH 068/119] fix: Link the works with zero lags when the lags or
 the types of the links are not given

---
 sampo/userinput/parser/general_build.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/sampo/userinput/parser/general_build.py b/sampo/userinput/parser/general_build.py
index 44ddb2b..a8293b4 100644
--- a/sampo/userinput/parser/general_build.py
+++ b/sampo/userinput/parser/general_build.py
@@ -192,13 +192,18 @@ def preprocess_graph_df(frame: pd.DataFrame,
         frame['min_req'] = [literal_eval(x) if isinstance(x, str) else x for x in frame['min_req']]
         frame['max_req'] = [literal_eval(x) if isinstance(x, str) else x for x in frame['max_req']]
 
+    no_types, no_lags = frame['connection_types'].isna(), frame['lags'].isna()
+
     frame['predecessor_ids'] = fix_df_column_with_arrays(frame['predecessor_ids'], cast=normalize_if_number)
     frame['connection_types'] = fix_df_column_with_arrays(frame['connection_types'],
                                                           cast=EdgeType,
                                                           none_elem=EdgeType.FinishStart)
-    if 'lags' not in frame.columns:
-        frame['lags'] = [NONE_ELEM] * len(frame)
-    frame['lags'] = fix_df_column_with_arrays(frame['lags'], float)
+    frame['lags'] = fix_df_column_with_arrays(frame['lags'], float, none_elem=0.0)
+    # the types and the lags are optional
+    frame['connection_types'] = [[EdgeType.FinishStart] * len(ids) if no_type else types for ids, types, no_type
+                                 in zip(frame['predecessor_ids'], frame['connection_types'], no_types)]
+    frame['lags'] = [[0.0] * len(ids) if no_lag else lags for ids, lags, no_lag
+                     in zip(frame['predecessor_ids'], frame['lags'], no_lags)]
     for col in ['predecessor_ids', 'connection_types', 'lags', 'counts']:
         frame[col] = frame[col].astype(object)
 
-- 
2.43.0


From f9a937c97671975ba8171d54cef08f3291cec585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:54 +0000
Subject: [PATCH 069/119] fix: Read the volumes of requirements from a file,
 and the works with no requirements

---
 sampo/userinput/parser/general_build.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/sampo/userinput/parser/general_build.py b/sampo/userinput/parser/general_build.py
index a8293b4..f811d6f 100644
--- a/sampo/userinput/parser/general_build.py
+++ b/sampo/userinput/parser/general_build.py
@@ -154,6 +154,15 @@ def fix_df_column_with_arrays(column: pd.Series, cast: Callable[[str], Any] | No
     return new_column
 
 
+def read_dict(cell: str | dict | float) -> dict:
+    """
+    Reads a cell that contains a dictionary. A cell may be empty
+    """
+    if isinstance(cell, dict):
+        return cell
+    return literal_eval(cell) if isinstance(cell, str) and cell.strip() else {}
+
+
 def preprocess_graph_df(frame: pd.DataFrame,
                         name_mapper: NameMapper | None = None) -> pd.DataFrame:
     def normalize_if_number(s):
@@ -188,9 +197,9 @@ def preprocess_graph_df(frame: pd.DataFrame,
     activity_ids = set(frame['activity_id'])
     frame['volume'] = [float(x.replace(',', '.')) if isinstance(x, str) else float(x) for x in frame['volume']]
 
-    if 'min_req' in frame.columns and 'max_req' in frame.columns:
-        frame['min_req'] = [literal_eval(x) if isinstance(x, str) else x for x in frame['min_req']]
-        frame['max_req'] = [literal_eval(x) if isinstance(x, str) else x for x in frame['max_req']]
+    for col in ['min_req', 'max_req', 'req_volume']:
+        if col in frame.columns:
+            frame[col] = [read_dict(x) for x in frame[col]]
 
     no_types, no_lags = frame['connection_types'].isna(), frame['lags'].isna()
 
@@ -271,7 +280,7 @@ def build_work_graph(frame: pd.DataFrame, resource_names: list[str], work_estima
                                                       work_volume=float(row['volume']))
         is_service_unit = len(reqs) == 0
 
-        zone_reqs = [ZoneReq(*v) for v in eval(row['required_statuses']).items()] \
+        zone_reqs = [ZoneReq(*v) for v in read_dict(row['required_statuses']).items()] \
             if 'required_statuses' in frame.columns else []
 
         description = row['description'] if 'description' in frame.columns else ''
-- 
2.43.0


From 909ba1b52c1bc1ba9014a9dc45ccf0ad18b76db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:19 +0000
Subject: [PATCH 070/119] fix: Look up the works in a history that has no
 granular names by their work names

---
 sampo/userinput/parser/history.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/sampo/userinput/parser/history.py b/sampo/userinput/parser/history.py
index c1c8cec..7520192 100644
--- a/sampo/userinput/parser/history.py
+++ b/sampo/userinput/parser/history.py
@@ -107,8 +107,6 @@ def get_all_seq_statistic(history_data: pd.DataFrame,
                           graph_df: pd.DataFrame,
                           use_model_name: bool = False,
                           mapper: NameMapper | None = None):
-    df_grouped = history_data.copy()
-
     if use_model_name:
         column_name = 'model_name'
     else:
@@ -116,7 +114,7 @@ def get_all_seq_statistic(history_data: pd.DataFrame,
             history_data['granular_name'] = [activity_name for activity_name in history_data['work_name']]
         column_name = 'granular_name'
 
-    df_grouped = df_grouped.groupby('upper_works')[column_name].apply(list).reset_index(name="Works")
+    df_grouped = history_data.groupby('upper_works')[column_name].apply(list).reset_index(name="Works")
     works1, works2 = get_all_connections(graph_df, use_model_name, mapper)
 
     # Declare structure with updated connections
-- 
2.43.0


From cc3bca57da8e102be62d673ca363cf8cf218a263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:19 +0000
Subject: [PATCH 071/119] fix: Return the name from NameMapper.get

---
 sampo/utilities/name_mapper.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sampo/utilities/name_mapper.py b/sampo/utilities/name_mapper.py
index 9aa1c1a..80c63dc 100644
--- a/sampo/utilities/name_mapper.py
+++ b/sampo/utilities/name_mapper.py
@@ -60,7 +60,7 @@ class DummyNameMapper(NameMapper):
         return item
 
     def get(self, item):
-        self.__getitem__(item)
+        return self.__getitem__(item)
 
     @property
     def _source(self) -> NameMapper:
@@ -72,7 +72,7 @@ class DictNameMapper(NameMapper):
         self._source = source
 
     def get(self, item):
-        self.__getitem__(item)
+        return self.__getitem__(item)
 
     def __getitem__(self, item) -> str:
         return self._source[item] if item in self._source else item
@@ -88,7 +88,7 @@ class ModelNameMapper(NameMapper):
         self.__nie()
 
     def get(self, item):
-        self.__getitem__(item)
+        return self.__getitem__(item)
 
     def __getitem__(self, item):
         self.__nie()
-- 
2.43.0


From 68dff7820e39a6224048a14e61b741eb033ad7c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:19 +0000
Subject: [PATCH 072/119] fix: Accept the contractors of a frame or of a file,
 and generate them if they are not given

---
 sampo/pipeline/default.py            |  4 ++-
 sampo/pipeline/preparation.py        |  3 +-
 sampo/userinput/parser/csv_parser.py | 42 ++++++++++++++++++----------
 3 files changed, 32 insertions(+), 17 deletions(-)

diff --git a/sampo/pipeline/default.py b/sampo/pipeline/default.py
index e7aa414..356654c 100644
--- a/sampo/pipeline/default.py
+++ b/sampo/pipeline/default.py
@@ -226,7 +226,9 @@ class DefaultInputPipeline(InputPipeline):
 
         check_and_correct_priorities(self._wg)
 
-        if not isinstance(self._contractors, list):
+        if isinstance(self._contractors, (str, pd.DataFrame)):
+            self._contractors = CSVParser.read_contractors(self._contractors)
+        elif not isinstance(self._contractors, list):
             generation_method, contractors_number, scaler = self._contractors
             self._contractors = [get_contractor_by_wg(self._wg,
                                                       method=generation_method,
diff --git a/sampo/pipeline/preparation.py b/sampo/pipeline/preparation.py
index 51a7299..1681f7d 100644
--- a/sampo/pipeline/preparation.py
+++ b/sampo/pipeline/preparation.py
@@ -1,5 +1,6 @@
 import pandas as pd
 
+from sampo.generator.environment import ContractorGenerationMethod
 from sampo.schemas import WorkGraph, Contractor, WorkTimeEstimator
 from sampo.schemas.structure_estimator import StructureEstimator
 from sampo.schemas.time_estimator import DefaultWorkEstimator
@@ -14,7 +15,7 @@ class PreparationPipeline:
                  history: str | pd.DataFrame | None = None,
                  contractors: str | pd.DataFrame | list[Contractor] | None = None):
         self._wg = wg
-        self._contractors = contractors
+        self._contractors = contractors if contractors is not None else (ContractorGenerationMethod.AVG, 1, 1)
         self._history = history if history is not None else pd.DataFrame(columns=['marker_for_glue', 'work_name',
                                                                                   'first_day', 'last_day',
                                                                                   'upper_works', 'work_name_clear_old',
diff --git a/sampo/userinput/parser/csv_parser.py b/sampo/userinput/parser/csv_parser.py
index 2924c66..7a9e576 100644
--- a/sampo/userinput/parser/csv_parser.py
+++ b/sampo/userinput/parser/csv_parser.py
@@ -136,9 +136,33 @@ class CSVParser:
 
         return work_graph
 
+    @staticmethod
+    def read_contractors(contractor_info: str | pd.DataFrame) -> list[Contractor]:
+        """
+        Gets contractors from file .csv or from a frame of the same schema.
+
+        :param contractor_info: path to contractor info .csv file or the contractor info
+        :return: list of Contractors
+        """
+        contractor_df = pd.read_csv(contractor_info, sep=';', header=0) if isinstance(contractor_info,
+                                                                                      str) else contractor_info
+        contractors = []
+        for index, row in contractor_df.iterrows():
+            specified_id = 'contractor_id' in contractor_df.columns
+            column_lag = 2 if specified_id else 1
+            contractor_id = str(row['contractor_id']) if specified_id else str(uuid4())
+            contractors.append(
+                Contractor(id=contractor_id,
+                           name=row['name'],
+                           workers={item[0]: Worker(str(ind), str(item[0]), int(item[1])) for ind, item in
+                                    enumerate(row[column_lag:].items())},
+                           equipments=dict())
+            )
+        return contractors
+
     @staticmethod
     def work_graph_and_contractors(works_info: pd.DataFrame,
-                                   contractor_info: str | list[Contractor] | tuple[ContractorGenerationMethod, int, float]
+                                   contractor_info: str | pd.DataFrame | list[Contractor] | tuple[ContractorGenerationMethod, int, float]
                                    = (ContractorGenerationMethod.AVG, 1, 1),
                                    contractor_types: list[int] | None = None,
                                    name_mapper: NameMapper | None = None,
@@ -175,21 +199,9 @@ class CSVParser:
 
         if isinstance(contractor_info, list):
             contractors = contractor_info
-        elif isinstance(contractor_info, str):
+        elif isinstance(contractor_info, (str, pd.DataFrame)):
             # if contractor info is given or contractor info and work resource estimator are received simultaneously
-            contractor_df = pd.read_csv(contractor_info, sep=';', header=0) if isinstance(contractor_info,
-                                                                                          str) else contractor_info
-            for index, row in contractor_df.iterrows():
-                specified_id = 'contractor_id' in contractor_df.columns
-                column_lag = 2 if specified_id else 1
-                contractor_id = row['contractor_id'] if specified_id else str(uuid4())
-                contractors.append(
-                    Contractor(id=contractor_id,
-                               name=row['name'],
-                               workers={item[0]: Worker(str(ind), str(item[0]), int(item[1])) for ind, item in
-                                        enumerate(row[column_lag:].items())},
-                               equipments=dict())
-                )
+            contractors = CSVParser.read_contractors(contractor_info)
 
         work_graph = CSVParser.work_graph(works_info, name_mapper, work_resource_estimator)
 
-- 
2.43.0


From 840b1a1e156a63bf880830d84f8787d6fdb4eb2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:32 +0000
Subject: [PATCH 073/119] fix: Do not turn the index of a saved frame into a
 column

---
 sampo/utilities/serializers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sampo/utilities/serializers.py b/sampo/utilities/serializers.py
index 8fd24a8..38a1e77 100644
--- a/sampo/utilities/serializers.py
+++ b/sampo/utilities/serializers.py
@@ -92,7 +92,7 @@ def default_dataframe_serializer(df: pd.DataFrame) -> str:
 
 
 def default_dataframe_deserializer(str_repr: str) -> pd.DataFrame:
-    return pd.read_csv(StringIO(str_repr), encoding='utf-8')
+    return pd.read_csv(StringIO(str_repr), encoding='utf-8', index_col=0)
 
 
 def default_np_int_serializer(n) -> int:
-- 
2.43.0


From 2246e5fa49906ae7874c89020c534d157db56095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:17 +0000
Subject: [PATCH 074/119] fix: Keep the cost of united works a plain number, so
 that the schedule can be saved

---
 sampo/schemas/schedule.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sampo/schemas/schedule.py b/sampo/schemas/schedule.py
index a3c0bff..0334517 100644
--- a/sampo/schemas/schedule.py
+++ b/sampo/schemas/schedule.py
@@ -124,7 +124,7 @@ class Schedule(JSONSerializable['Schedule']):
             swork.model_name['granular_name'] = row['granular_name']
             swork.display_name = row['task_name']
             swork.volume = float(row['volume'])
-            swork.cost = row['cost']
+            swork.cost = float(row['cost'])
             swork.start_end_time = Time(int(row['start'])), Time(int(row['finish']))
             return row
 
-- 
2.43.0


From a05c9a13164eee478a7e25c5fac7fa55d94d09d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:17 +0000
Subject: [PATCH 075/119] fix: Tell the requirements of work stages in the
 frame of a graph

---
 sampo/schemas/graph.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sampo/schemas/graph.py b/sampo/schemas/graph.py
index 2ceda16..5c563fe 100644
--- a/sampo/schemas/graph.py
+++ b/sampo/schemas/graph.py
@@ -393,10 +393,10 @@ class WorkGraph(JSONSerializable['WorkGraph']):
                     max_req_dict = dict()
                     req_volume_dict = dict()
 
-                    for req in node_info_dict['work_unit']['worker_reqs']:
-                        min_req_dict[req['kind']] = req['min_count']
-                        max_req_dict[req['kind']] = req['max_count']
-                        req_volume_dict[req['kind']] = req['volume']['value']
+                    for req in node.work_unit.worker_reqs:
+                        min_req_dict[req.kind] = req.min_count
+                        max_req_dict[req.kind] = req.max_count
+                        req_volume_dict[req.kind] = int(req.volume)
 
                     graph_df_structure['min_req'].append(min_req_dict)
                     graph_df_structure['max_req'].append(max_req_dict)
-- 
2.43.0


From 42f1efe32575cff097359b139b9ad79ec6c7969d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:04 +0000
Subject: [PATCH 076/119] fix: Read None in the cells of links as an empty cell

---
 sampo/userinput/parser/general_build.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sampo/userinput/parser/general_build.py b/sampo/userinput/parser/general_build.py
index f811d6f..b156691 100644
--- a/sampo/userinput/parser/general_build.py
+++ b/sampo/userinput/parser/general_build.py
@@ -148,7 +148,8 @@ def break_loops_in_input_graph(works_info: pd.DataFrame) -> pd.DataFrame:
 
 def fix_df_column_with_arrays(column: pd.Series, cast: Callable[[str], Any] | None = str,
                               none_elem: Any | None = NONE_ELEM) -> pd.Series:
-    new_column = column.copy().astype(str).apply(
+    # a cell may be empty
+    new_column = column.astype(object).where(column.notna(), math.nan).astype(str).apply(
         lambda elems: [cast(elem) if elem != '' and elem != str(math.nan) else none_elem for elem in
                        elems.split(',')] if (elems != str(math.nan) and elems.split(',') != '') else [none_elem])
     return new_column
-- 
2.43.0


From 00f849d27c6818728438550595518603ae3e2f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:04 +0000
Subject: [PATCH 077/119] fix: Keep the links of a file with ids such as 1 and
 1.1

---
 sampo/userinput/parser/csv_parser.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sampo/userinput/parser/csv_parser.py b/sampo/userinput/parser/csv_parser.py
index 7a9e576..660238b 100644
--- a/sampo/userinput/parser/csv_parser.py
+++ b/sampo/userinput/parser/csv_parser.py
@@ -75,8 +75,10 @@ class CSVParser:
         :param sep_history: separating character. It's mandatory if you send the HistoryData .csv file path
         :return: preprocessed info about works
         """
-        graph_df = pd.read_csv(project_info, sep=sep_wg, header=0) if isinstance(project_info,
-                                                                                 str) else project_info.copy()
+        # ids are kept as they are written: '1' and '1.1' of one file are not numbers
+        graph_df = pd.read_csv(project_info, sep=sep_wg, header=0,
+                               dtype={'activity_id': str, 'predecessor_ids': str}) if isinstance(project_info, str) \
+            else project_info.copy()
         history_df = pd.read_csv(history_data, sep=sep_history) if isinstance(history_data,
                                                                               str) else history_data.copy()
 
-- 
2.43.0


From 1323e9cdba2bef539e3c550426a547d2265011b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:04 +0000
Subject: [PATCH 078/119] fix: Read contractors whatever the order of columns
 is

---
 sampo/userinput/parser/csv_parser.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/sampo/userinput/parser/csv_parser.py b/sampo/userinput/parser/csv_parser.py
index 660238b..c76e1b1 100644
--- a/sampo/userinput/parser/csv_parser.py
+++ b/sampo/userinput/parser/csv_parser.py
@@ -151,13 +151,12 @@ class CSVParser:
         contractors = []
         for index, row in contractor_df.iterrows():
             specified_id = 'contractor_id' in contractor_df.columns
-            column_lag = 2 if specified_id else 1
             contractor_id = str(row['contractor_id']) if specified_id else str(uuid4())
             contractors.append(
                 Contractor(id=contractor_id,
                            name=row['name'],
                            workers={item[0]: Worker(str(ind), str(item[0]), int(item[1])) for ind, item in
-                                    enumerate(row[column_lag:].items())},
+                                    enumerate(row.drop(['contractor_id', 'name'], errors='ignore').items())},
                            equipments=dict())
             )
         return contractors
-- 
2.43.0


From a344bc46dd6aef246bf717544842678a77c6facb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:12 +0000
Subject: [PATCH 079/119] fix: Generate graphs within the borders on the number
 of works

---
 sampo/generator/pipeline/project.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/sampo/generator/pipeline/project.py b/sampo/generator/pipeline/project.py
index a8031de..0dd4b9d 100644
--- a/sampo/generator/pipeline/project.py
+++ b/sampo/generator/pipeline/project.py
@@ -107,6 +107,10 @@ def get_graph(mode: SyntheticGraphType | None = SyntheticGraphType.GENERAL,
         checkpoints, roads, count_works = _get_cluster_graph(f'{cluster_name_prefix}{masters_clusters_ind}',
                                                              addition_cluster_probability=addition_cluster_probability,
                                                              rand=rand)
+        if 0 < top_border < works_generated + count_works:
+            # this cluster does not fit
+            break
+
         root_stage = get_root_stage(stages, branching_probability, rand)
         if root_stage is not None:
             for checkpoint in checkpoints:
@@ -120,8 +124,8 @@ def get_graph(mode: SyntheticGraphType | None = SyntheticGraphType.GENERAL,
                 or 0 < cluster_counts <= (len(stages) - 1)):
             break
 
-    if len(stages) == 1:
-        return get_small_graph(cluster_name=f'{cluster_name_prefix}1')
+    if len(stages) <= 1 and bottom_border == 0:
+        return get_small_graph(cluster_name=f'{cluster_name_prefix}1', rand=rand)
 
     nodes = [road for _, roads in stages for road in roads.values()]
     nodes.extend([c for c, _ in stages])
-- 
2.43.0


From 689146ae730a1a9fa291a94db01cb52eb616bb93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:12 +0000
Subject: [PATCH 080/119] fix: Generate the same graphs and works for the same
 seed

---
 sampo/generator/pipeline/extension.py   | 4 ++--
 sampo/generator/pipeline/project.py     | 4 ++--
 sampo/utilities/sampler/requirements.py | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/sampo/generator/pipeline/extension.py b/sampo/generator/pipeline/extension.py
index a91237d..f4661d3 100644
--- a/sampo/generator/pipeline/extension.py
+++ b/sampo/generator/pipeline/extension.py
@@ -23,7 +23,7 @@ def _extend_str_fields(new_uniq_count: int, wg: WorkGraph, rand: Random,
 
 
 def _get_uniq_resource_kinds(wg: WorkGraph) -> list[str]:
-    uniq_res_kinds = list(set(req.kind for req in chain(*[n.work_unit.worker_reqs for n in wg.nodes])))
+    uniq_res_kinds = sorted(set(req.kind for req in chain(*[n.work_unit.worker_reqs for n in wg.nodes])))
     return uniq_res_kinds
 
 
@@ -39,7 +39,7 @@ def _update_resource_names(node: GraphNode, name_to_suffixes: dict[str, list[str
 
 def _get_uniq_work_names(wg: WorkGraph) -> list[str]:
     start_finish_names = {wg.start.work_unit.name, wg.finish.work_unit.name}
-    uniq_work_names = list(set(node.work_unit.name for node in wg.nodes) - start_finish_names)
+    uniq_work_names = sorted(set(node.work_unit.name for node in wg.nodes) - start_finish_names)
     return uniq_work_names
 
 
diff --git a/sampo/generator/pipeline/project.py b/sampo/generator/pipeline/project.py
index 0dd4b9d..891969d 100644
--- a/sampo/generator/pipeline/project.py
+++ b/sampo/generator/pipeline/project.py
@@ -25,7 +25,7 @@ def get_small_graph(cluster_name: str | None = 'C1', rand: Random | None = None)
     c1, c_nodes, _ = get_cluster_works(cluster_name=cluster_name, pipe_nodes_count=pipe_nodes_count,
                                        pipe_net_count=pipe_net_count, light_masts_count=light_masts_count,
                                        borehole_counts=[borehole_count], rand=rand)
-    return WorkGraph.from_nodes(list(c_nodes.values()) + [c1])
+    return WorkGraph.from_nodes(list(c_nodes.values()) + [c1], rand)
 
 
 def _get_cluster_graph(cluster_name: str, pipe_nodes_count: int | None = None,
@@ -129,7 +129,7 @@ def get_graph(mode: SyntheticGraphType | None = SyntheticGraphType.GENERAL,
 
     nodes = [road for _, roads in stages for road in roads.values()]
     nodes.extend([c for c, _ in stages])
-    return WorkGraph.from_nodes(nodes)
+    return WorkGraph.from_nodes(nodes, rand)
 
 
 def _graph_mode_to_callable(mode: SyntheticGraphType) -> \
diff --git a/sampo/utilities/sampler/requirements.py b/sampo/utilities/sampler/requirements.py
index 2bbeb2d..d9a6971 100644
--- a/sampo/utilities/sampler/requirements.py
+++ b/sampo/utilities/sampler/requirements.py
@@ -19,7 +19,7 @@ def get_worker_reqs_list(rand: random.Random,
                          volume: Optional[MinMax[int]] = MinMax[int](1, 50),
                          worker_count: Optional[MinMax[int]] = MinMax[int](1, 100)
                          ) -> list[WorkerReq]:
-    names: list[WorkerSpecialization] = list(WORKER_TYPES)
+    names: list[WorkerSpecialization] = sorted(WORKER_TYPES)
     rand.shuffle(names)
     req_count = rand.randint(1, len(names))
     names = names[:req_count]
-- 
2.43.0


From a753706ddb566f3e12a3b2610c47d974a03a63f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:12 +0000
Subject: [PATCH 081/119] fix: Set as many kinds of materials as the borders
 ask for, the same for the same seed

---
 sampo/generator/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sampo/generator/base.py b/sampo/generator/base.py
index c34f3ce..e17d46d 100644
--- a/sampo/generator/base.py
+++ b/sampo/generator/base.py
@@ -101,7 +101,7 @@ class SimpleSynthetic:
 
         for node in wg.nodes:
             if not node.work_unit.is_service_unit:
-                work_materials = list(set(self._rand.choices(materials_name, k=self._rand.randint(bottom_border, top_border))))
+                work_materials = self._rand.sample(materials_name, k=self._rand.randint(bottom_border, top_border))
                 node.work_unit.material_reqs = [MaterialReq(name, self._rand.randint(52, 345), name) for name in
                                                 work_materials]
 
-- 
2.43.0


From c82a9169aa2085d8cbb5da2f4496d1f3af7b2d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:30 +0000
Subject: [PATCH 082/119] fix: Give each landscape node an id of its own when
 none is passed

---
 sampo/schemas/landscape_graph.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sampo/schemas/landscape_graph.py b/sampo/schemas/landscape_graph.py
index 441f5c4..4fd878c 100644
--- a/sampo/schemas/landscape_graph.py
+++ b/sampo/schemas/landscape_graph.py
@@ -38,7 +38,7 @@ class ResourceStorageUnit:
 
 class LandGraphNode:
     def __init__(self,
-                 id: str = str(uuid.uuid4()),
+                 id: str | None = None,
                  name: str = 'platform',
                  resource_storage_unit: ResourceStorageUnit = ResourceStorageUnit(),
                  neighbour_nodes: list[tuple['LandGraphNode', float, int]] | None = None,
@@ -50,7 +50,7 @@ class LandGraphNode:
         :param resource_storage_unit: object that saves info about the resources in the current node
         (in other words platform)
         """
-        self.id = id
+        self.id = id if id is not None else str(uuid.uuid4())
         self.name = name
         self._roads: list[LandEdge] = []
         if not (neighbour_nodes is None):
-- 
2.43.0


From 361f606533a4a829aa489b988f9b1e5b7da6ce55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:30 +0000
Subject: [PATCH 083/119] fix: Tell the neighbours of a landscape node added
 after the first look

---
 sampo/schemas/landscape_graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sampo/schemas/landscape_graph.py b/sampo/schemas/landscape_graph.py
index 4fd878c..ab26ee9 100644
--- a/sampo/schemas/landscape_graph.py
+++ b/sampo/schemas/landscape_graph.py
@@ -63,7 +63,7 @@ class LandGraphNode:
     def __hash__(self):
         return hash(self.id)
 
-    @cached_property
+    @property
     def neighbours(self) -> list['LandGraphNode']:
         if self._roads:
             return [neighbour_edge.finish for neighbour_edge in self._roads]
-- 
2.43.0


From 6a4c435211d2353d552709d040d3327ce4f2a3e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:04 +0000
Subject: [PATCH 084/119] fix: Extend the names of works, not the common
 placeholder

---
 sampo/generator/pipeline/extension.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/sampo/generator/pipeline/extension.py b/sampo/generator/pipeline/extension.py
index f4661d3..e8550a7 100644
--- a/sampo/generator/pipeline/extension.py
+++ b/sampo/generator/pipeline/extension.py
@@ -38,16 +38,21 @@ def _update_resource_names(node: GraphNode, name_to_suffixes: dict[str, list[str
 
 
 def _get_uniq_work_names(wg: WorkGraph) -> list[str]:
-    start_finish_names = {wg.start.work_unit.name, wg.finish.work_unit.name}
-    uniq_work_names = sorted(set(node.work_unit.name for node in wg.nodes) - start_finish_names)
+    service_nodes = (wg.start, wg.finish)
+    uniq_work_names = sorted(set(node.work_unit.model_name['granular_name'] for node in wg.nodes
+                                 if node not in service_nodes))
     return uniq_work_names
 
 
 def _update_work_name(node: GraphNode, name_to_suffixes: dict[str, list[str]], rand: Random) -> None:
-    name = node.work_unit.name
+    work_unit = node.work_unit
+    name = work_unit.model_name['granular_name']
     if name in name_to_suffixes:
         options = name_to_suffixes[name]
-        node.work_unit.name = name + options[rand.randint(0, len(options)-1)]
+        new_name = name + options[rand.randint(0, len(options)-1)]
+        if work_unit.display_name == name:
+            work_unit.display_name = new_name
+        work_unit.model_name = {**work_unit.model_name, 'granular_name': new_name}
 
 
 def extend_resources(uniq_resources: int, wg: WorkGraph, rand: Random) -> WorkGraph:
-- 
2.43.0


From e5e74e962029bdedf06528d12f162c658de065e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:38 +0000
Subject: [PATCH 085/119] fix: Order the works of one topological level
 regardless of string hashing

---
 sampo/scheduler/topological/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sampo/scheduler/topological/base.py b/sampo/scheduler/topological/base.py
index da31daa..f2fd8bc 100644
--- a/sampo/scheduler/topological/base.py
+++ b/sampo/scheduler/topological/base.py
@@ -36,7 +36,7 @@ class TopologicalScheduler(GenericScheduler):
         :param nodes: list of nodes
         :return: list of shuffled indices
         """
-        return list(nodes)
+        return sorted(nodes)
 
     # noinspection PyMethodMayBeStatic
     def _topological_sort(self,
@@ -132,7 +132,7 @@ class RandomizedTopologicalScheduler(TopologicalScheduler):
         :param nodes: list of nodes
         :return: list of shuffled indices
         """
-        nds = list(nodes)
+        nds = sorted(nodes)
         indices = np.arange(len(nds))
         self._random_state.shuffle(indices)
         return [nds[ind] for ind in indices]
-- 
2.43.0


From dbd5cbfd9b951231ada80ecfcbc177bb345d6ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:38 +0000
Subject: [PATCH 086/119] fix: Draw the works of randomized LFT regardless of
 string hashing

---
 sampo/scheduler/lft/prioritization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sampo/scheduler/lft/prioritization.py b/sampo/scheduler/lft/prioritization.py
index c36d256..5a6e9a8 100644
--- a/sampo/scheduler/lft/prioritization.py
+++ b/sampo/scheduler/lft/prioritization.py
@@ -86,7 +86,7 @@ def lft_randomized_prioritization_core(head_nodes: list[GraphNode],
     candidates = {head_nodes[0].id}
 
     while candidates:
-        eligibles = [node_id for node_id in candidates if is_eligible(node_id)]
+        eligibles = [node_id for node_id in sorted(candidates) if is_eligible(node_id)]
         min_group_priority = min(node_id2group_priority[node_id] for node_id in eligibles)
         eligibles = [node_id for node_id in eligibles if node_id2group_priority[node_id] == min_group_priority]
 
-- 
2.43.0


From 00b2aa25405d6dea4bb66ab1d596c05b0363432f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:38 +0000
Subject: [PATCH 087/119] fix: Choose the contractor of a work without workers
 regardless of string hashing

---
 sampo/scheduler/genetic/converter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sampo/scheduler/genetic/converter.py b/sampo/scheduler/genetic/converter.py
index 893baf6..1730550 100644
--- a/sampo/scheduler/genetic/converter.py
+++ b/sampo/scheduler/genetic/converter.py
@@ -77,7 +77,7 @@ def convert_schedule_to_chromosome(work_id2index: dict[str, int],
             contractor_list = spec[node_id].contractors
             if not contractor_list:
                 contractor_list = contractor2index.keys()
-            random_contractor = list(contractor_list)[0]
+            random_contractor = next(contractor for contractor in contractor2index if contractor in contractor_list)
             resource_chromosome[index, -1] = contractor2index[random_contractor]
 
     resource_border_chromosome = np.copy(contractor_borders)
-- 
2.43.0


From 0ce63e59036847c61bb3d2767699abe008b96a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:38 +0000
Subject: [PATCH 088/119] fix: Order works that start together regardless of
 string hashing

---
 sampo/schemas/schedule.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/sampo/schemas/schedule.py b/sampo/schemas/schedule.py
index 0334517..e577a06 100644
--- a/sampo/schemas/schedule.py
+++ b/sampo/schemas/schedule.py
@@ -203,13 +203,13 @@ def order_nodes_by_start_time(works: Iterable[ScheduledWork], wg: WorkGraph) ->
                            sorted(works, key=lambda item: item.start_time)]
 
     cur_time = 0
-    cur_class: set[GraphNode] = set()
+    cur_class: list[GraphNode] = []
     for start_time, work in order_by_start_time:
         node = wg[work]
         if len(cur_class) == 0:
             cur_time = start_time
         if start_time == cur_time:
-            cur_class.add(node)
+            cur_class.append(node)
             continue
         # TODO Perform real toposort
         cur_not_added: set[GraphNode] = set(cur_class)
@@ -219,9 +219,9 @@ def order_nodes_by_start_time(works: Iterable[ScheduledWork], wg: WorkGraph) ->
                     continue  # we add this node later
                 res.append(cur_node.id)
                 cur_not_added.remove(cur_node)
-            cur_class = set(cur_not_added)
+            cur_class = [cur_node for cur_node in cur_class if cur_node in cur_not_added]
         cur_time = start_time
-        cur_class = {node}
+        cur_class = [node]
 
     cur_not_added: set[GraphNode] = set(cur_class)
     while len(cur_not_added) > 0:
@@ -230,6 +230,6 @@ def order_nodes_by_start_time(works: Iterable[ScheduledWork], wg: WorkGraph) ->
                 continue  # we add this node later
             res.append(cur_node.id)
             cur_not_added.remove(cur_node)
-        cur_class = set(cur_not_added)
+        cur_class = [cur_node for cur_node in cur_class if cur_node in cur_not_added]
 
     return res
-- 
2.43.0


From 3a4212c7b4953357e030f103f4c38b214172b887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:38 +0000
Subject: [PATCH 089/119] fix: Choose among equally critical works regardless
 of string hashing

---
 sampo/scheduler/utils/critical_path.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sampo/scheduler/utils/critical_path.py b/sampo/scheduler/utils/critical_path.py
index 371eca6..8367cd3 100644
--- a/sampo/scheduler/utils/critical_path.py
+++ b/sampo/scheduler/utils/critical_path.py
@@ -98,6 +98,6 @@ def _critical_path(nodes: list[GraphNode],
         # sorted_nodes = sorted(node.children, key=lambda x: cum_weights[x.id])
         # [(node, cum_weights[node.id]) for node in critical_path]
         # node = sorted_nodes[0]
-        node = node_dict[min(node_id2child_ids[node.id], key=lambda x: cum_weights[x])]
+        node = node_dict[min(sorted(node_id2child_ids[node.id]), key=lambda x: cum_weights[x])]
 
     return critical_path
-- 
2.43.0


From ce733da5f9daf5b4061443dec2e3bf0bf0f43119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:43 +0000
Subject: [PATCH 090/119] fix: Let the deadline search answer when no
 contractor is sufficient

---
 sampo/scheduler/resources_in_time/average_binary_search.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sampo/scheduler/resources_in_time/average_binary_search.py b/sampo/scheduler/resources_in_time/average_binary_search.py
index 1d9765c..11ce0cc 100644
--- a/sampo/scheduler/resources_in_time/average_binary_search.py
+++ b/sampo/scheduler/resources_in_time/average_binary_search.py
@@ -42,7 +42,8 @@ class AverageBinarySearchResourceOptimizingScheduler:
                 return (None, Time.inf(), None, None), inner_spec
 
         def fitness(k: float, inner_spec: ScheduleSpec):
-            result = call_scheduler(k, inner_spec)[0][0].execution_time
+            schedule = call_scheduler(k, inner_spec)[0][0]
+            result = schedule.execution_time if schedule is not None else Time.inf()
             # if result > deadline:
             #     result = Time.inf()
             return result
-- 
2.43.0


From a5d0788f10c64f12535392b97eeb2e52807174fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:50 +0000
Subject: [PATCH 091/119] fix: Give the order of works when making a population
 of heuristic schedules

---
 sampo/hybrid/population.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sampo/hybrid/population.py b/sampo/hybrid/population.py
index 0c635da..6a2401a 100644
--- a/sampo/hybrid/population.py
+++ b/sampo/hybrid/population.py
@@ -49,6 +49,8 @@ class HeuristicPopulationScheduler(PopulationScheduler):
         toolbox = create_toolbox(wg=wg, contractors=contractors,
                                  spec=spec, assigned_parent_time=assigned_parent_time,
                                  landscape=landscape)
-        return [toolbox.Individual(toolbox.schedule_to_chromosome(schedule=schedule))
+        return [toolbox.Individual(toolbox.schedule_to_chromosome(schedule=schedule, order=node_order))
                 for scheduler in self._schedulers
-                for schedule in scheduler.schedule(wg, contractors, spec, landscape=landscape)]
+                for schedule, _, _, node_order in scheduler.schedule_with_cache(wg, contractors, spec,
+                                                                                assigned_parent_time=assigned_parent_time,
+                                                                                landscape=landscape)]
-- 
2.43.0


From 77b84bca0fdc829c243af0175976ddda589a2bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:50 +0000
Subject: [PATCH 092/119] fix: Tell the backend about the project before
 evaluating the population of a hybrid scheduler

---
 sampo/hybrid/cycle.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sampo/hybrid/cycle.py b/sampo/hybrid/cycle.py
index 79e2204..1eb2ecf 100644
--- a/sampo/hybrid/cycle.py
+++ b/sampo/hybrid/cycle.py
@@ -34,6 +34,10 @@ class CycleHybridScheduler:
             spec: ScheduleSpec = ScheduleSpec(),
             assigned_parent_time: Time = Time(0),
             landscape: LandscapeConfiguration = LandscapeConfiguration()) -> ChromosomeType:
+        # the starting scheduler may leave the backend without the information about this project
+        SAMPO.backend.cache_scheduler_info(wg, contractors, landscape, spec)
+        SAMPO.backend.cache_genetic_info(assigned_parent_time=assigned_parent_time)
+
         pop = self._starting_scheduler.schedule([], wg, contractors, spec, assigned_parent_time, landscape)
 
         cur_fitness = Time.inf().value
-- 
2.43.0


From 59c2acaf38fbf49cbf860d4855a93a04844b4930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:50 +0000
Subject: [PATCH 093/119] fix: Choose the best individual of a hybrid scheduler
 by the whole fitness value

---
 sampo/hybrid/cycle.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/sampo/hybrid/cycle.py b/sampo/hybrid/cycle.py
index 1eb2ecf..c22b017 100644
--- a/sampo/hybrid/cycle.py
+++ b/sampo/hybrid/cycle.py
@@ -1,5 +1,3 @@
-import numpy as np
-
 from sampo.api.genetic_api import FitnessFunction, ChromosomeType, ScheduleGenerationScheme
 from sampo.base import SAMPO
 from sampo.hybrid.population import PopulationScheduler
@@ -26,7 +24,7 @@ class CycleHybridScheduler:
 
     def _get_best_individual(self, pop: list[ChromosomeType]) -> ChromosomeType:
         fitness = SAMPO.backend.compute_chromosomes(self._fitness, pop)
-        return pop[np.argmin(fitness)]
+        return pop[fitness.index(min(fitness))]
 
     def run(self,
             wg: WorkGraph,
-- 
2.43.0


From 58a9aa44f48cf159895ec4cb9544216552904f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:50 +0000
Subject: [PATCH 094/119] fix: Let the genetic scheduler upgrade an empty
 population

---
 sampo/scheduler/genetic/base.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/sampo/scheduler/genetic/base.py b/sampo/scheduler/genetic/base.py
index 4712f73..0b232e7 100644
--- a/sampo/scheduler/genetic/base.py
+++ b/sampo/scheduler/genetic/base.py
@@ -224,6 +224,14 @@ class GeneticScheduler(Scheduler):
         mutate_order, mutate_resources, mutate_zones, size_of_population = self.get_params(wg.vertex_count)
         deadline = None if self._optimize_resources else self._deadline
 
+        init_schedules = {}
+        if not pop:
+            # there is nothing to upgrade, so start from the first population
+            pop = None
+            init_schedules = GeneticScheduler.generate_first_population(wg, contractors, landscape, spec,
+                                                                        self.work_estimator, self._deadline,
+                                                                        self._weights)
+
         _, new_pop = build_schedules_with_cache(wg,
                                                 contractors,
                                                 size_of_population,
@@ -231,7 +239,7 @@ class GeneticScheduler(Scheduler):
                                                 mutate_order,
                                                 mutate_resources,
                                                 mutate_zones,
-                                                {},
+                                                init_schedules,
                                                 self.rand,
                                                 spec,
                                                 self._weights,
-- 
2.43.0


From 159a6e0e990f4bfeabdd7817487f91e5b7f31a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:07 +0000
Subject: [PATCH 095/119] fix: Keep resource borders valid when mating
 individuals with different ones

---
 sampo/scheduler/genetic/operators.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sampo/scheduler/genetic/operators.py b/sampo/scheduler/genetic/operators.py
index 7e6d657..649caa1 100644
--- a/sampo/scheduler/genetic/operators.py
+++ b/sampo/scheduler/genetic/operators.py
@@ -642,7 +642,8 @@ def mate_resources(ind1: Individual, ind2: Individual, rand: random.Random,
 
     res1[mate_positions], res2[mate_positions] = res2[mate_positions], res1[mate_positions]
 
-    if optimize_resources:
+    # borders may differ even if they are not optimized now, e.g. the population was made by another algorithm
+    if optimize_resources or (child1[2] != child2[2]).any():
         for res, child in zip([res1, res2], [child1, child2]):
             mated_resources = res[mate_positions]
             # take contractors from mated positions
-- 
2.43.0


From 843164bf1143ec8ca7ec67ba7b92d454b16b2a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:41 +0000
Subject: [PATCH 096/119] fix: Name a work by its model name instead of a
 placeholder

---
 sampo/schemas/works.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sampo/schemas/works.py b/sampo/schemas/works.py
index 815ffa3..58f100e 100644
--- a/sampo/schemas/works.py
+++ b/sampo/schemas/works.py
@@ -50,7 +50,7 @@ class WorkUnit(AutoJSONSerializable['WorkUnit'], Identifiable):
 
         self.model_name = model_name
 
-        super(WorkUnit, self).__init__(id, 'dummy')
+        super(WorkUnit, self).__init__(id, model_name.get('granular_name', display_name))
 
         if material_reqs is None:
             material_reqs = []
-- 
2.43.0


From b82c503c4fdf26b3963544014df42d9f08c5675a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:41 +0000
Subject: [PATCH 097/119] fix: Let the works missing in the given probabilities
 have no sub works

---
 sampo/schemas/structure_estimator.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sampo/schemas/structure_estimator.py b/sampo/schemas/structure_estimator.py
index fc461c7..ae81114 100644
--- a/sampo/schemas/structure_estimator.py
+++ b/sampo/schemas/structure_estimator.py
@@ -26,7 +26,10 @@ class DefaultStructureGenerationEstimator(StructureGenerationEstimator):
         self._volume = IntervalGaussian(5, 2, 0.1, 10, self._rand)
 
     def set_probabilities(self, defect_probabilities: dict[str, dict[str, float]]) -> 'DefaultStructureGenerationEstimator':
-        self._gen_probabilities = defect_probabilities
+        # works that are not mentioned have no sub works
+        self._gen_probabilities = defaultdict(lambda: defaultdict(float),
+                                              {parent: defaultdict(float, children)
+                                               for parent, children in defect_probabilities.items()})
         return self
 
     def set_probability(self, parent: str, child: str, probability: float) -> 'DefaultStructureGenerationEstimator':
-- 
2.43.0


From b4cf57c2fb88c34929daaecfca9b4da770158940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:41 +0000
Subject: [PATCH 098/119] fix: Apply the structure estimator when preparing the
 graph with contractors

---
 sampo/pipeline/preparation.py        |  3 ++-
 sampo/userinput/parser/csv_parser.py | 12 +++++++++++-
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/sampo/pipeline/preparation.py b/sampo/pipeline/preparation.py
index 1681f7d..2f4b2a0 100644
--- a/sampo/pipeline/preparation.py
+++ b/sampo/pipeline/preparation.py
@@ -97,5 +97,6 @@ class PreparationPipeline:
             works_info=self._prepare_works_info(),
             name_mapper=self._name_mapper,
             contractor_info=self._contractors,
-            work_resource_estimator=self._work_estimator
+            work_resource_estimator=self._work_estimator,
+            structure_estimator=self._structure_estimator
         )
diff --git a/sampo/userinput/parser/csv_parser.py b/sampo/userinput/parser/csv_parser.py
index c76e1b1..3a531b0 100644
--- a/sampo/userinput/parser/csv_parser.py
+++ b/sampo/userinput/parser/csv_parser.py
@@ -1,5 +1,6 @@
 import math
 from itertools import chain
+from typing import TYPE_CHECKING
 from uuid import uuid4
 
 import pandas as pd
@@ -15,6 +16,9 @@ from sampo.userinput.parser.general_build import add_graph_info, topsort_graph_d
 from sampo.userinput.parser.history import set_connections_info
 from sampo.utilities.name_mapper import NameMapper
 
+if TYPE_CHECKING:
+    from sampo.schemas.structure_estimator import StructureEstimator
+
 
 class CSVParser:
 
@@ -167,7 +171,8 @@ class CSVParser:
                                    = (ContractorGenerationMethod.AVG, 1, 1),
                                    contractor_types: list[int] | None = None,
                                    name_mapper: NameMapper | None = None,
-                                   work_resource_estimator: WorkTimeEstimator = DefaultWorkEstimator()) \
+                                   work_resource_estimator: WorkTimeEstimator = DefaultWorkEstimator(),
+                                   structure_estimator: 'StructureEstimator | None' = None) \
             -> tuple[WorkGraph, list[Contractor]]:
         """
         Gets a info about WorkGraph and Contractors from file .csv.
@@ -189,6 +194,7 @@ class CSVParser:
         for a generation
         :param contractor_info: path to contractor info .csv file or list of Contractors
         :param work_resource_estimator: work estimator that finds necessary resources, based on the history data
+        :param structure_estimator: estimator that adds sub works to the read structure
         :return: WorkGraph and list of Contractors
         """
 
@@ -206,6 +212,10 @@ class CSVParser:
 
         work_graph = CSVParser.work_graph(works_info, name_mapper, work_resource_estimator)
 
+        # the works added to the structure have to be considered when generating contractors
+        if structure_estimator is not None:
+            work_graph = structure_estimator.restruct(work_graph)
+
         # if we have no info about contractors or the user send an empty .csv file
         if len(contractors) == 0:
             generation_method, contractors_number, scaler = contractor_info
-- 
2.43.0


From 2c19f38e6b99e6540dbe3424d5a2df30f60d1dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:11 +0000
Subject: [PATCH 099/119] fix: BlockGraph.to_work_graph returned unlinked
 nodes, a copy of BlockGraph had its edges reversed

---
 sampo/scheduler/multi_agency/block_graph.py | 27 +++++++++------------
 1 file changed, 12 insertions(+), 15 deletions(-)

diff --git a/sampo/scheduler/multi_agency/block_graph.py b/sampo/scheduler/multi_agency/block_graph.py
index a8a808e..0a0c088 100644
--- a/sampo/scheduler/multi_agency/block_graph.py
+++ b/sampo/scheduler/multi_agency/block_graph.py
@@ -56,7 +56,7 @@ class BlockGraph:
         return len(self.nodes)
 
     def __copy__(self) -> 'BlockGraph':
-        parent_ids = [[parent.id for parent in node.blocks_to] for node in self.nodes]
+        parent_ids = [[parent.id for parent in node.blocks_from] for node in self.nodes]
         nodes = [BlockNode(old_node.wg, old_node.obstruction) for old_node in self.nodes]
         nodes_index = build_index(nodes, attrgetter('id'))
 
@@ -70,23 +70,20 @@ class BlockGraph:
         """
         Construct 'WorkGraph' that is equal to the `BlockGraph`.
         """
-        copied_graph = self.__copy__()
-        copied_nodes = copied_graph.nodes
-
-        # nodes are copied as follows, since recursion occurs when attempting to copy WorkGraph normally
-        for node in copied_nodes:
-            node.wg = WorkGraph._deserialize(node.wg._serialize())
-
-        nodes_without_children = []
+        # nodes are copied as follows, since recursion occurs when attempting to copy WorkGraph normally,
+        # and nodes of temporary WorkGraphs would be unlinked when these WorkGraphs are removed
+        copied_blocks = {node.id: WorkGraph._deserialize_nodes(node.wg._serialize()) for node in self.nodes}
 
         global_start = GraphNode(WorkUnit('start', 'start', is_service_unit=True), [])
 
-        for end in copied_nodes:
-            end.wg.start.add_parents([start.wg.finish for start in end.blocks_to])
-            if len(end.wg.start.parents) == 0:
-                end.wg.start.add_parents([global_start])
-            if len(end.wg.finish.children) == 0:
-                nodes_without_children.append(end.wg.finish)
+        for node in self.nodes:
+            block_start, _ = copied_blocks[node.id]
+            block_start.add_parents([copied_blocks[parent.id][1] for parent in node.blocks_from])
+            if len(block_start.parents) == 0:
+                block_start.add_parents([global_start])
+
+        nodes_without_children = [block_finish for _, block_finish in copied_blocks.values()
+                                  if len(block_finish.children) == 0]
 
         global_end = GraphNode(WorkUnit('finish', 'finish', is_service_unit=True), nodes_without_children)
 
-- 
2.43.0


From 734e341ad9a0f282a2967fd9694df5e4c16d11cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:11 +0000
Subject: [PATCH 100/119] fix: generate_blocks asked graph types for a name
 they do not have and never returned

---
 sampo/scheduler/multi_agency/block_generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sampo/scheduler/multi_agency/block_generator.py b/sampo/scheduler/multi_agency/block_generator.py
index 6038225..8efda21 100644
--- a/sampo/scheduler/multi_agency/block_generator.py
+++ b/sampo/scheduler/multi_agency/block_generator.py
@@ -93,7 +93,7 @@ def generate_blocks(graph_type: SyntheticBlockGraphType, n_blocks: int, type_pro
             bg.add_edge(global_start, node)
             bg.add_edge(node, global_end)
 
-    logger(f'{graph_type.name} ' + ' '.join([str(mode.model_name) for i, mode in enumerate(modes)
+    logger(f'{graph_type.name} ' + ' '.join([str(mode.name) for i, mode in enumerate(modes)
                                              if nodes[i].vertex_count != EMPTY_GRAPH_VERTEX_COUNT]))
     return bg
 
-- 
2.43.0


From c1d9e09d1d2f90a2245e74d944026f056499bfb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:11 +0000
Subject: [PATCH 101/119] fix: OneInsertObstruction linked the inserted graph
 to itself or left its nodes unlinked

---
 sampo/scheduler/utils/obstruction.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/sampo/scheduler/utils/obstruction.py b/sampo/scheduler/utils/obstruction.py
index 2bfcad2..df4e799 100644
--- a/sampo/scheduler/utils/obstruction.py
+++ b/sampo/scheduler/utils/obstruction.py
@@ -51,16 +51,15 @@ class OneInsertObstruction(Obstruction):
     def apply(self, wg: WorkGraph):
         # get the insert graph
         insert_wg = self._insert_wg_getter(self._rand)
-        # get the insert point
-        insert_node: GraphNode = self._rand.sample(wg.nodes, 1)[0]
+        # nodes are copied, since nodes of the inserted WorkGraph are unlinked when it is removed
+        insert_start, insert_finish = WorkGraph._deserialize_nodes(insert_wg._serialize())
+        # get the insert point, nothing can be inserted after the finish of the given WorkGraph
+        insert_node: GraphNode = self._rand.sample([node for node in wg.nodes if node.children], 1)[0]
+        # get the insert end point
+        insert_node_child: GraphNode = self._rand.sample(insert_node.children, 1)[0]
         # insert
-        insert_wg.start.add_parents([insert_node])
-
-        if insert_node.children:
-            # get the insert end point
-            insert_node_child: GraphNode = self._rand.sample(insert_node.children, 1)[0]
-            # insert
-            insert_node_child.add_parents([insert_wg.start])
+        insert_start.add_parents([insert_node])
+        insert_node_child.add_parents([insert_finish])
 
         wg.reinit()
 
-- 
2.43.0


From 7e0d811047a00c170cb7106a4899e59935a6c0f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:11 +0000
Subject: [PATCH 102/119] fix: metric_longest_path called prioritization with
 arguments it does not take

---
 sampo/scheduler/selection/metrics.py | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/sampo/scheduler/selection/metrics.py b/sampo/scheduler/selection/metrics.py
index b60eec7..610d48c 100644
--- a/sampo/scheduler/selection/metrics.py
+++ b/sampo/scheduler/selection/metrics.py
@@ -4,7 +4,6 @@ from math import ceil
 import numpy as np
 import torch
 
-from sampo.scheduler.topological.base import TopologicalScheduler
 from sampo.schemas.graph import WorkGraph
 
 
@@ -76,15 +75,10 @@ def metric_graph_parallelism_degree(wg: WorkGraph) -> list[float]:
 
 
 def metric_longest_path(wg: WorkGraph) -> float:
-    scheduler = TopologicalScheduler()
-    stack = scheduler.prioritization(wg, None)
+    dist = {node.id: 0 for node in wg.nodes}
 
-    dist = {}
-    for node in stack:
-        dist[node.id] = 0
-
-    while stack:
-        node = stack.pop()
+    # nodes of WorkGraph are in topological order
+    for node in wg.nodes:
         for child in node.children:
             dist[child.id] = max(dist[child.id], dist[node.id] + 1)
 
-- 
2.43.0


From adf4f7b8a11ec8c3666b087ba8b7dabb39b477bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:18 +0000
Subject: [PATCH 103/119] fix: Momentum timeline failed when a start was found
 with another estimate of the execution time

---
 sampo/scheduler/timeline/momentum_timeline.py | 28 +++++++++++--------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/sampo/scheduler/timeline/momentum_timeline.py b/sampo/scheduler/timeline/momentum_timeline.py
index e19c766..49b4f8d 100644
--- a/sampo/scheduler/timeline/momentum_timeline.py
+++ b/sampo/scheduler/timeline/momentum_timeline.py
@@ -135,7 +135,9 @@ class MomentumTimeline(Timeline):
             max_parent_time = max(max_parent_time, max_material_time, max_zone_time)
             return max_parent_time, max_parent_time, exec_times
 
-        if assigned_start_time is not None:
+        # the execution time could be estimated anew since the given start time was found (e.g. the stochastic
+        # productivity mode), so the slot can be too short, then the next suitable one is searched
+        if assigned_start_time is not None and self._is_free(assigned_start_time + exec_time, exec_time, worker_team):
             st = assigned_start_time
         else:
             # we can't just use max() of all times we found from different constraints
@@ -464,12 +466,12 @@ class MomentumTimeline(Timeline):
                                                                         curr_time - start_time)
         return curr_time
 
-    def _validate(self,
-                  finish_time: Time,
-                  exec_time: Time,
-                  worker_team: list[Worker]):
+    def _is_free(self,
+                 finish_time: Time,
+                 exec_time: Time,
+                 worker_team: list[Worker]) -> bool:
         if exec_time == 0:
-            return
+            return True
 
         start = finish_time - exec_time
         end = finish_time
@@ -477,9 +479,13 @@ class MomentumTimeline(Timeline):
             state = self._timeline[w.contractor_id][w.name]
             start_idx = state.bisect_right(start)
             end_idx = state.bisect_left((end, -1, EventType.INITIAL))
-            available_workers_count = state[start_idx - 1].available_workers_count
-            # updating all events in between the start and the end of our current task
-            for event in state[start_idx: end_idx]:
-                assert event.available_workers_count >= w.count
+            # all events in between the start and the end of our current task
+            if any(event.available_workers_count < w.count for event in state[start_idx - 1: end_idx]):
+                return False
+        return True
 
-            assert available_workers_count >= w.count
+    def _validate(self,
+                  finish_time: Time,
+                  exec_time: Time,
+                  worker_team: list[Worker]):
+        assert self._is_free(finish_time, exec_time, worker_team)
-- 
2.43.0


From d5fa9e130e75acd1e8a6915c0a3528f3d963711a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:46 +0000
Subject: [PATCH 104/119] fix: metric_graph_parallelism_degree depended on
 hashes of identifiers of works

---
 sampo/scheduler/selection/metrics.py | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/sampo/scheduler/selection/metrics.py b/sampo/scheduler/selection/metrics.py
index 610d48c..31daf52 100644
--- a/sampo/scheduler/selection/metrics.py
+++ b/sampo/scheduler/selection/metrics.py
@@ -48,17 +48,11 @@ def metric_graph_parallelism_degree(wg: WorkGraph) -> list[float]:
         tmp_stack = set()
         parallelism_coef = 0
 
-        for i in range(len(stack)):
-            if stack[i] == 0:
-                continue
-            for j in range(i + 1, len(stack)):
-                if stack[j] == 0:
-                    continue
-                if stack[j] in stack[i].children:
-                    stack[j] = 0
+        # works that follow other works of the batch belong to the next ones, regardless of the order in the batch
+        following = {child for node in stack for child in node.children}
 
         for node in stack:
-            if node == 0:
+            if node in following:
                 continue
             parallelism_coef += 1
             for child in node.children:
-- 
2.43.0


From 13ea43c0b25eff277a79fdd1f4dd2e95d3ed8565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:22 +0000
Subject: [PATCH 105/119] fix: chart of WorkGraph failed on names of works and
 on max_deep

---
 sampo/utilities/visualization/work_graph.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/sampo/utilities/visualization/work_graph.py b/sampo/utilities/visualization/work_graph.py
index 45a546a..d966877 100644
--- a/sampo/utilities/visualization/work_graph.py
+++ b/sampo/utilities/visualization/work_graph.py
@@ -99,10 +99,10 @@ def collect_jobs(start: GraphNode, max_deep: Optional[int] = None) -> tuple[list
         max_volume = max(max_volume, volume)
         id_to_job[unit.id] = len(jobs)
         jobs.append(
-            dict(job_id=len(jobs), work_id=str(unit.id), task=unit.model_name, start=X_PERIOD * deep,
+            dict(job_id=len(jobs), work_id=str(unit.id), task=unit.display_name, start=X_PERIOD * deep,
                  children=node.children, parents=node.parents,
                  group=unit.group, color=color_from_str(unit.group), volume=volume,
-                 cluster=extract_cluster_name(unit.model_name)))
+                 cluster=extract_cluster_name(unit.display_name)))
         colors[unit.group] = color_from_str(unit.group)
         for child in node.children:
             work_id = child.id
@@ -141,11 +141,12 @@ def setup_jobs(start: GraphNode, jobs: list[dict], id_to_job: dict[str, int]) ->
     def dfs(v_ind: int, y_pos: int) -> int:
         jobs[v_ind]['y_position'] = y_pos
 
-        used = [id_to_job[child.id] for child in jobs[v_ind]['children'] if id_to_job[child.id] in max_y_pos]
+        # children that are deeper than `max_deep` have no jobs
+        children = [id_to_job[child.id] for child in jobs[v_ind]['children'] if child.id in id_to_job]
+        used = [c_ind for c_ind in children if c_ind in max_y_pos]
         y_pos = max([y_pos] + [max_y_pos[c_ind] for c_ind in used] or [y_pos])
 
-        for child in jobs[v_ind]['children']:
-            c_ind = id_to_job[child.id]
+        for c_ind in children:
             if c_ind not in max_y_pos:
                 y_pos = dfs(c_ind, y_pos) + 1
 
-- 
2.43.0


From f7ef934f5f75d2d422c4083bc0b367238b72cc27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:22 +0000
Subject: [PATCH 106/119] fix: gantt chart failed without deliveries and zones,
 and with them when coloured by priority or critical path

---
 sampo/utilities/visualization/schedule.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/sampo/utilities/visualization/schedule.py b/sampo/utilities/visualization/schedule.py
index 4fe814c..3cc37d1 100644
--- a/sampo/utilities/visualization/schedule.py
+++ b/sampo/utilities/visualization/schedule.py
@@ -33,6 +33,7 @@ def schedule_gant_chart_fig(schedule_dataframe: pd.DataFrame,
     schedule_dataframe = schedule_dataframe.rename({'workers': 'workers_dict'}, axis=1)
     schedule_dataframe.loc[:, 'workers'] = schedule_dataframe.loc[:, 'workers_dict']\
         .apply(lambda x: x.replace(", '", ", <br>'"))
+    schedule_dataframe.loc[:, 'task_name_mapped'] = schedule_dataframe.loc[:, 'task_name']
 
     schedule_start = schedule_dataframe.loc[:, 'start'].min()
     schedule_finish = schedule_dataframe.loc[:, 'finish'].max()
@@ -113,11 +114,13 @@ def schedule_gant_chart_fig(schedule_dataframe: pd.DataFrame,
         schedule_dataframe['color'] = schedule_dataframe[['task_name', 'contractor']] \
             .apply(lambda r: 'Defect' if ':' in r['task_name'] else r['contractor'], axis=1)
     elif color_type == 'priority':
-        schedule_dataframe['color'] = schedule_dataframe['scheduled_work_object'].apply(lambda x: f'Priority {x.priority}')
+        schedule_dataframe['color'] = schedule_dataframe[['scheduled_work_object', 'task_id', 'contractor']] \
+            .apply(lambda r: f'Priority {r['scheduled_work_object'].priority}' if r['task_id'] != 'None' else r['contractor'], axis=1)
     elif color_type == 'critical_path':
         critical_path_nodes = set(map(attrgetter('id'), critical_path))
-        schedule_dataframe['color'] = schedule_dataframe['scheduled_work_object'] \
-                .apply(lambda x: 'Critical path' if x.id in critical_path_nodes else 'Not critical path')
+        schedule_dataframe['color'] = schedule_dataframe[['scheduled_work_object', 'task_id', 'contractor']] \
+            .apply(lambda r: r['contractor'] if r['task_id'] == 'None' else
+                   'Critical path' if r['scheduled_work_object'].id in critical_path_nodes else 'Not critical path', axis=1)
 
     schedule_dataframe['idx'] = (schedule_dataframe[['idx', 'task_name']]
                                  .apply(lambda r: schedule_dataframe[schedule_dataframe['task_name'] ==
-- 
2.43.0


From a492bd3d65c5fc0e2a232e157ea9716dd1f76133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:22 +0000
Subject: [PATCH 107/119] fix: gantt chart lost deliveries of one material and
 shifted deliveries and zones of schedules that start late

---
 sampo/utilities/visualization/schedule.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/sampo/utilities/visualization/schedule.py b/sampo/utilities/visualization/schedule.py
index 3cc37d1..79bf9d3 100644
--- a/sampo/utilities/visualization/schedule.py
+++ b/sampo/utilities/visualization/schedule.py
@@ -36,6 +36,9 @@ def schedule_gant_chart_fig(schedule_dataframe: pd.DataFrame,
     schedule_dataframe.loc[:, 'task_name_mapped'] = schedule_dataframe.loc[:, 'task_name']
 
     schedule_start = schedule_dataframe.loc[:, 'start'].min()
+    # the date of zero moment, the schedule may start later
+    time_zero = schedule_dataframe.loc[:, 'finish'].iloc[0] \
+        - timedelta(int(schedule_dataframe.loc[:, 'scheduled_work_object'].iloc[0].finish_time))
     schedule_finish = schedule_dataframe.loc[:, 'finish'].max()
     visualization_start_delta = timedelta(days=2)
     visualization_finish_delta = timedelta(days=(schedule_finish - schedule_start).days // 3)
@@ -53,8 +56,8 @@ def schedule_gant_chart_fig(schedule_dataframe: pd.DataFrame,
                 'task_name_mapped': mat_name,
                 'task_name': '',
                 'zone_information': '',
-                'start': timedelta(material[1].value) + schedule_start,
-                'finish': timedelta(material[2].value) + schedule_start}
+                'start': timedelta(material[1].value) + time_zero,
+                'finish': timedelta(material[2].value) + time_zero}
 
     sworks = schedule_dataframe['scheduled_work_object'].copy()
     idx = schedule_dataframe['idx'].copy()
@@ -70,8 +73,8 @@ def schedule_gant_chart_fig(schedule_dataframe: pd.DataFrame,
     for i, swork in zip(idx, sworks):
         delivery = swork.materials.delivery
         for name, mat_info in delivery.items():
-            if delivery:
-                mat_delivery_row.append(create_delivery_row(i, name, mat_info[0]))
+            for material in mat_info:
+                mat_delivery_row.append(create_delivery_row(i, name, material))
 
     def create_zone_row(i, zone_names, zone) -> dict:
         return {'idx': i,
@@ -86,8 +89,8 @@ def schedule_gant_chart_fig(schedule_dataframe: pd.DataFrame,
                 'task_name_mapped': zone_names,
                 'task_name': '',
                 'zone_information': '',
-                'start': timedelta(int(zone.start_time)) + schedule_start,
-                'finish': timedelta(int(zone.end_time)) + schedule_start}
+                'start': timedelta(int(zone.start_time)) + time_zero,
+                'finish': timedelta(int(zone.end_time)) + time_zero}
 
     sworks = schedule_dataframe['scheduled_work_object'].copy()
     idx = schedule_dataframe['idx'].copy()
-- 
2.43.0


From 432fff80d15618a26b2cd56dcb8f24e4ec723b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:22 +0000
Subject: [PATCH 108/119] fix: charts of employment failed on Schedule and did
 not add employment up

---
 sampo/utilities/visualization/resources.py | 37 ++++++++++------------
 1 file changed, 16 insertions(+), 21 deletions(-)

diff --git a/sampo/utilities/visualization/resources.py b/sampo/utilities/visualization/resources.py
index e42e393..ecb7cfe 100644
--- a/sampo/utilities/visualization/resources.py
+++ b/sampo/utilities/visualization/resources.py
@@ -89,7 +89,7 @@ def create_employment_fig(resources: Union[DataFrame, ResourceSchedule],
             fig.update_traces(textposition='inside')
         return visualize(fig, vis_mode, file_name)
 
-    assert isinstance(resources, ResourceSchedule), \
+    assert isinstance(resources, dict), \
         f'Wrong data format. Expected ResourceSchedule, got {type(resources)} instead.'
 
     # 1. tune plot parameters according to the data size
@@ -103,7 +103,7 @@ def create_employment_fig(resources: Union[DataFrame, ResourceSchedule],
     fig, ax = plt.subplots(figsize=size, dpi=dpi)
     for name, worker_schedule in resources.items():
         for worker_time in worker_schedule:
-            ax.barh(name, left=worker_time[0], width=worker_time[1] - worker_time[0])
+            ax.barh(name, left=int(worker_time[0]), width=int(worker_time[1] - worker_time[0]))
 
     for i in range(len(resources) + 1):
         ax.axhline(i - 0.5, color='black')
@@ -184,7 +184,7 @@ def get_schedule_df(schedule: ScheduleWorkDict, fig_type: EmploymentFigType, pro
             for worker in resources:
                 if worker.name not in resource_schedule:
                     resource_schedule[worker.name] = np.array([0] * int(max_time))
-                resource_schedule[worker.name][start:finish + 1] += worker.count
+                resource_schedule[worker.name][int(start):int(finish) + 1] += worker.count
 
         data = list(chain(*[[(timedelta(days=i), timedelta(days=i + 1), r, c) for i, c in enumerate(s) if c > 0]
                             for r, s in resource_schedule.items()]))
@@ -218,27 +218,22 @@ def get_workers_intervals(schedule: Schedule, group_workers_by_specializations:
         finish: Time = item.finish_time
         workers: list[Worker] = item.workers
         for worker in workers:
-            resources_time_intervals_dict[start][worker.name] -= worker.count
-            resources_time_intervals_dict[finish][worker.name] += worker.count
-
-    min_resources: dict[str, int] = defaultdict(int)
-    for milestone, resources in resources_time_intervals_dict.items():
-        resources_time_intervals_dict[milestone] = dict(resources)
-        for name in resources:
-            min_resources[name] = min(min_resources[name], resources[name])
-    resources_time_intervals_dict = dict(resources_time_intervals_dict)
-
-    resources_time_intervals: list[Time, dict[str, int]] = list(resources_time_intervals_dict.items())
-    resources_time_intervals = sorted(resources_time_intervals, key=itemgetter(0))
+            resources_time_intervals_dict[start][worker.name] += worker.count
+            resources_time_intervals_dict[finish][worker.name] -= worker.count
+
+    milestones: list[tuple[Time, dict[str, int]]] = sorted(resources_time_intervals_dict.items(), key=itemgetter(0))
+    # counts of workers that are employed since the current milestone
+    employed: dict[str, int] = defaultdict(int)
     workers_intervals = defaultdict(list)
-    for index, (start, resources) in enumerate(resources_time_intervals[:-1]):
-        finish = resources_time_intervals[index + 1]
-        for name in resources:
-            resources[name] -= min_resources[name]
+    for (start, changes), (finish, _) in zip(milestones, milestones[1:]):
+        for name, change in changes.items():
+            employed[name] += change
+        for name, count in employed.items():
             if group_workers_by_specializations:
-                workers_intervals[name].append((start, finish))
+                if count > 0:
+                    workers_intervals[name].append((start, finish))
             else:
-                for w_index in range(resources[name]):
+                for w_index in range(count):
                     workers_intervals[f'{name}{SPLITTER}{w_index}'].append((start, finish))
 
     if group_workers_by_specializations:
-- 
2.43.0


From ce5b7510e6bb7cd3710521f2e726cd5a186fdd4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:46 +0000
Subject: [PATCH 109/119] fix: chart of WorkGraph lost works whose parents are
 not shown

---
 sampo/utilities/visualization/work_graph.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sampo/utilities/visualization/work_graph.py b/sampo/utilities/visualization/work_graph.py
index d966877..61f169b 100644
--- a/sampo/utilities/visualization/work_graph.py
+++ b/sampo/utilities/visualization/work_graph.py
@@ -116,7 +116,8 @@ def collect_jobs(start: GraphNode, max_deep: Optional[int] = None) -> tuple[list
 def setup_jobs(start: GraphNode, jobs: list[dict], id_to_job: dict[str, int]) -> list[dict]:
     cluster_deep_counts: dict[str, dict[int, int]] = defaultdict(lambda: defaultdict(int))
 
-    not_used_parents = {job['job_id']: len(job['parents']) for job in jobs}
+    # parents that are deeper than `max_deep` or are not reachable from `start` have no jobs
+    not_used_parents = {job['job_id']: sum(parent.id in id_to_job for parent in job['parents']) for job in jobs}
 
     q = queue.Queue()
     start_ind = id_to_job[start.id]
-- 
2.43.0


From 16541b04b9e75ad6ca67169c8a4be37869de62ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:46 +0000
Subject: [PATCH 110/119] fix: gantt chart failed on works with zones

---
 sampo/utilities/visualization/schedule.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sampo/utilities/visualization/schedule.py b/sampo/utilities/visualization/schedule.py
index 79bf9d3..d76bc60 100644
--- a/sampo/utilities/visualization/schedule.py
+++ b/sampo/utilities/visualization/schedule.py
@@ -96,7 +96,7 @@ def schedule_gant_chart_fig(schedule_dataframe: pd.DataFrame,
     idx = schedule_dataframe['idx'].copy()
 
     def get_zone_usage_info(swork) -> str:
-        return '<br>' + '<br>'.join([f'{zone.model_name}: {zone.to_status}' for zone in swork.zones_pre])
+        return '<br>' + '<br>'.join([f'{zone.name}: {zone.to_status}' for zone in swork.zones_pre])
 
     schedule_dataframe['zone_information'] = sworks.apply(get_zone_usage_info)
 
@@ -104,10 +104,10 @@ def schedule_gant_chart_fig(schedule_dataframe: pd.DataFrame,
 
     # create zone information
     for i, swork in zip(idx, sworks):
-        zone_names = '<br>' + '<br>'.join([zone.model_name for zone in swork.zones_pre])
+        zone_names = '<br>' + '<br>'.join([zone.name for zone in swork.zones_pre])
         for zone in swork.zones_pre:
             access_cards.append(create_zone_row(i, zone_names, zone))
-        zone_names = '<br>' + '<br>'.join([zone.model_name for zone in swork.zones_post])
+        zone_names = '<br>' + '<br>'.join([zone.name for zone in swork.zones_post])
         for zone in swork.zones_post:
             access_cards.append(create_zone_row(i, zone_names, zone))
 
-- 
2.43.0


From c7a7a2a204cf7d78db5ce87d34c475db35685c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:59 +0000
Subject: [PATCH 111/119] fix: charts of employment failed on plans without
 workers

---
 sampo/utilities/visualization/resources.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/sampo/utilities/visualization/resources.py b/sampo/utilities/visualization/resources.py
index ecb7cfe..95b25e9 100644
--- a/sampo/utilities/visualization/resources.py
+++ b/sampo/utilities/visualization/resources.py
@@ -145,7 +145,8 @@ def convert_schedule_df(schedule: DataFrame, fig_type: EmploymentFigType,
                                       for r, s in additional.items()]))
             data.extend(additional)
         result = DataFrame.from_records(data, columns=['time_start', 'time_end', 'resource', 'count'])
-        result.loc[:, ['time_start', 'time_end']] += first_day
+        if data:
+            result.loc[:, ['time_start', 'time_end']] += first_day
         result = result.sort_values(by='resource', ascending=False)
         return result
 
@@ -169,7 +170,8 @@ def convert_schedule_df(schedule: DataFrame, fig_type: EmploymentFigType,
         data = list(chain(*[[(timedelta(days=i), timedelta(days=i + 1), w, r, c) for i, w, c in s]
                             for r, s in resource_schedule.items()]))
         result = DataFrame.from_records(data, columns=['time_start', 'time_end', 'work', 'resource', 'count'])
-        result.loc[:, ['time_start', 'time_end']] += first_day
+        if data:
+            result.loc[:, ['time_start', 'time_end']] += first_day
         return result
 
 
@@ -189,7 +191,8 @@ def get_schedule_df(schedule: ScheduleWorkDict, fig_type: EmploymentFigType, pro
         data = list(chain(*[[(timedelta(days=i), timedelta(days=i + 1), r, c) for i, c in enumerate(s) if c > 0]
                             for r, s in resource_schedule.items()]))
         result = DataFrame.from_records(data, columns=['time_start', 'time_end', 'resource', 'count'])
-        result.loc[:, ['time_start', 'time_end']] += project_start
+        if data:
+            result.loc[:, ['time_start', 'time_end']] += project_start
         return result
 
     if fig_type == EmploymentFigType.WorkLabeled:
@@ -206,7 +209,8 @@ def get_schedule_df(schedule: ScheduleWorkDict, fig_type: EmploymentFigType, pro
         data = list(chain(*[[(timedelta(days=i), timedelta(days=i + 1), w, r, c) for i, w, c in s]
                             for r, s in resource_schedule.items()]))
         result = DataFrame.from_records(data, columns=['time_start', 'time_end', 'work', 'resource', 'count'])
-        result.loc[:, ['time_start', 'time_end']] += project_start
+        if data:
+            result.loc[:, ['time_start', 'time_end']] += project_start
         return result
 
 
-- 
2.43.0


From 88087fe5390fe5ef5d95e54bbcf749057deabbaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:09 +0000
Subject: [PATCH 112/119] fix: ToStartSupplyTimeline sent vehicles without
 taking them from the depot

---
 sampo/scheduler/timeline/to_start_supply_timeline.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sampo/scheduler/timeline/to_start_supply_timeline.py b/sampo/scheduler/timeline/to_start_supply_timeline.py
index c6336b8..deff55e 100644
--- a/sampo/scheduler/timeline/to_start_supply_timeline.py
+++ b/sampo/scheduler/timeline/to_start_supply_timeline.py
@@ -196,7 +196,7 @@ class ToStartSupplyTimeline(BaseSupplyTimeline):
                                                                           route_start_time,
                                                                           exec_return_time + exec_ahead_time)
 
-                yield depot_vehicle_start_time, exec_ahead_time, exec_return_time, depot, deliveries
+                yield depot_vehicle_start_time, exec_ahead_time, exec_return_time, depot, selected_vehicles, deliveries
 
         delivery = MaterialDelivery(node.id)
 
@@ -224,7 +224,8 @@ class ToStartSupplyTimeline(BaseSupplyTimeline):
             start_delivery_time += 1
 
             local_min_start_time = Time.inf()
-            for depot_vehicle_start_time, exec_ahead_time, exec_return_time, depot, deliveries in get_finish_time(start_delivery_time):
+            for depot_vehicle_start_time, exec_ahead_time, exec_return_time, depot, vehicles, deliveries \
+                    in get_finish_time(start_delivery_time):
                 if local_min_start_time > depot_vehicle_start_time and (finish_delivery_time > deadline
                                                                         and depot_vehicle_start_time + exec_ahead_time < finish_delivery_time
                                                                         or finish_delivery_time < deadline):
@@ -234,6 +235,7 @@ class ToStartSupplyTimeline(BaseSupplyTimeline):
                     local_min_start_time = depot_vehicle_start_time
                     finish_delivery_time = depot_vehicle_start_time + exec_ahead_time
                     selected_depot = depot
+                    selected_vehicles = vehicles
 
                     road_deliveries = deliveries
 
-- 
2.43.0


From 924b14a7fa61874d28a896b7b368c3310bd82a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:09 +0000
Subject: [PATCH 113/119] fix: ToStartSupplyTimeline did not take materials
 that are on the platform when others are delivered

---
 sampo/scheduler/timeline/to_start_supply_timeline.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sampo/scheduler/timeline/to_start_supply_timeline.py b/sampo/scheduler/timeline/to_start_supply_timeline.py
index deff55e..63d075d 100644
--- a/sampo/scheduler/timeline/to_start_supply_timeline.py
+++ b/sampo/scheduler/timeline/to_start_supply_timeline.py
@@ -259,7 +259,9 @@ class ToStartSupplyTimeline(BaseSupplyTimeline):
                 update_timeline_info[road_id].append(res_info)
 
         node_mat_req = {mat.name: mat.count for mat in node.work_unit.need_materials()}
-        update_mat_req_info = [(mat.name, node_mat_req[mat.name] - mat.count, finish_delivery_time) for mat in materials]
+        delivered_mat = {mat.name: mat.count for mat in materials}
+        update_mat_req_info = [(mat_name, mat_count - delivered_mat.get(mat_name, 0), finish_delivery_time)
+                               for mat_name, mat_count in node_mat_req.items()]
         self._platform_timeline.update_timeline(platform.id, update_mat_req_info)
 
         self._update_timeline(update_timeline_info)
-- 
2.43.0


From e87e07d903997f7fb3eb845ca2036370c020e147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:59 +0000
Subject: [PATCH 114/119] fix: deliveries checked roads for a moment other than
 vehicles leave at

---
 .../timeline/hybrid_supply_timeline.py        | 26 ++++++++++++-------
 .../timeline/to_start_supply_timeline.py      | 20 +++++++++-----
 2 files changed, 29 insertions(+), 17 deletions(-)

diff --git a/sampo/scheduler/timeline/hybrid_supply_timeline.py b/sampo/scheduler/timeline/hybrid_supply_timeline.py
index e971a51..4c3f4b5 100644
--- a/sampo/scheduler/timeline/hybrid_supply_timeline.py
+++ b/sampo/scheduler/timeline/hybrid_supply_timeline.py
@@ -219,16 +219,22 @@ class HybridSupplyTimeline(BaseSupplyTimeline):
                 vehicle_count_need = self._get_necessary_vehicles_amount(depot, materials)
                 selected_vehicles = depot.vehicles[:vehicle_count_need]
 
-                # get information about route: start time, deliveries,
-                # time of vehicles routing to platform and back separately
-                route_start_time, deliveries, exec_ahead_time, exec_return_time = \
-                    self._get_route_with_additional(depot.node, platform, selected_vehicles, depot_mat_start_time)
-
-                # get the minimum start time that all required vehicles are available
-                depot_vehicle_start_time = self._find_earliest_start_time(self._timeline[depot.id]['vehicles'],
-                                                                          vehicle_count_need,
-                                                                          route_start_time,
-                                                                          exec_return_time + exec_ahead_time)
+                while True:
+                    # get information about route: start time, deliveries,
+                    # time of vehicles routing to platform and back separately
+                    route_start_time, deliveries, exec_ahead_time, exec_return_time = \
+                        self._get_route_with_additional(depot.node, platform, selected_vehicles, depot_mat_start_time)
+
+                    # get the minimum start time that all required vehicles are available
+                    depot_vehicle_start_time = self._find_earliest_start_time(self._timeline[depot.id]['vehicles'],
+                                                                              vehicle_count_need,
+                                                                              route_start_time,
+                                                                              exec_return_time + exec_ahead_time)
+
+                    if depot_vehicle_start_time <= route_start_time:
+                        break
+                    # vehicles leave later than the roads were checked for, so check the roads again
+                    depot_mat_start_time = depot_vehicle_start_time
 
                 yield depot_vehicle_start_time, exec_ahead_time, exec_return_time, depot, selected_vehicles, deliveries
 
diff --git a/sampo/scheduler/timeline/to_start_supply_timeline.py b/sampo/scheduler/timeline/to_start_supply_timeline.py
index 63d075d..609751e 100644
--- a/sampo/scheduler/timeline/to_start_supply_timeline.py
+++ b/sampo/scheduler/timeline/to_start_supply_timeline.py
@@ -188,13 +188,19 @@ class ToStartSupplyTimeline(BaseSupplyTimeline):
                 vehicle_state = self._timeline[depot.id]['vehicles']
                 selected_vehicles = depot.vehicles[:vehicle_count_need]
 
-                route_start_time, deliveries, exec_ahead_time, exec_return_time = \
-                    self._get_route_info(depot.node, platform, selected_vehicles, depot_mat_start_time)
-
-                depot_vehicle_start_time = self._find_earliest_start_time(vehicle_state,
-                                                                          vehicle_count_need,
-                                                                          route_start_time,
-                                                                          exec_return_time + exec_ahead_time)
+                while True:
+                    route_start_time, deliveries, exec_ahead_time, exec_return_time = \
+                        self._get_route_info(depot.node, platform, selected_vehicles, depot_mat_start_time)
+
+                    depot_vehicle_start_time = self._find_earliest_start_time(vehicle_state,
+                                                                              vehicle_count_need,
+                                                                              route_start_time,
+                                                                              exec_return_time + exec_ahead_time)
+
+                    if depot_vehicle_start_time <= route_start_time:
+                        break
+                    # vehicles leave later than the roads were checked for, so check the roads again
+                    depot_mat_start_time = depot_vehicle_start_time
 
                 yield depot_vehicle_start_time, exec_ahead_time, exec_return_time, depot, selected_vehicles, deliveries
 
-- 
2.43.0


From 468e990547bbc89b734a6abbf2296a7b90f5f6d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:47 +0000
Subject: [PATCH 115/119] fix: contractors with fewer workers than the
 specification assigns were chosen

---
 sampo/scheduler/generic.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sampo/scheduler/generic.py b/sampo/scheduler/generic.py
index 211ca5b..068938d 100644
--- a/sampo/scheduler/generic.py
+++ b/sampo/scheduler/generic.py
@@ -85,6 +85,10 @@ class GenericScheduler(Scheduler):
                 if len(workers) != len(node.work_unit.worker_reqs):
                     return assigned_parent_time, Time.inf(), []
 
+                if any(spec.assigned_workers.get(worker.name, 0) > worker.count for worker in workers):
+                    # the contractor has fewer workers than the specification assigns
+                    return assigned_parent_time, Time.inf(), []
+
                 workers = [worker.copy() for worker in workers]
 
                 # apply worker team spec
-- 
2.43.0


From 61a452c6e5cfa7be996ae090752805f3c239a514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:50 +0000
Subject: [PATCH 116/119] fix: end statuses of zones were recorded as changing
 while the zone is still used

---
 sampo/scheduler/timeline/zone_timeline.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sampo/scheduler/timeline/zone_timeline.py b/sampo/scheduler/timeline/zone_timeline.py
index d230569..da321b5 100644
--- a/sampo/scheduler/timeline/zone_timeline.py
+++ b/sampo/scheduler/timeline/zone_timeline.py
@@ -291,8 +291,8 @@ class ZoneTimeline:
                 sworks.append(ZoneTransition(name=zone.name,
                                              from_status=latest_status,
                                              to_status=zone.status,
-                                             start_time=latest_time - change_cost,
-                                             end_time=latest_time))
+                                             start_time=latest_time,
+                                             end_time=finish_time))
 
             global_finish_time = max(global_finish_time, finish_time)
 
-- 
2.43.0


From e5b45f9b031595afa0ccfb21fed1075b2851e3a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:50 +0000
Subject: [PATCH 117/119] fix: momentum timeline failed to tell if an
 independent work can be scheduled at a moment

---
 sampo/scheduler/timeline/momentum_timeline.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/sampo/scheduler/timeline/momentum_timeline.py b/sampo/scheduler/timeline/momentum_timeline.py
index 49b4f8d..f7d5492 100644
--- a/sampo/scheduler/timeline/momentum_timeline.py
+++ b/sampo/scheduler/timeline/momentum_timeline.py
@@ -310,11 +310,8 @@ class MomentumTimeline(Timeline):
         if spec.is_independent:
             # squash all the timeline to the last point
             for worker in worker_team:
-                worker_timeline = self._timeline[(worker.contractor_id, worker.name)]
-                last_cpkt_time, _ = worker_timeline[0]
-                if last_cpkt_time >= start_time:
+                if self._timeline[worker.contractor_id][worker.name][-1].time > start_time:
                     return False
-            return True
         else:
             start = start_time
             end = start_time + exec_time
@@ -336,13 +333,13 @@ class MomentumTimeline(Timeline):
                 if not state[0].available_workers_count >= available_workers_count:
                     return False
 
-            if not self._material_timeline.can_schedule_at_the_moment(node, start_time,
-                                                                      node.work_unit.need_materials()):
-                return False
-            if not self.zone_timeline.can_schedule_at_the_moment(node.work_unit.zone_reqs, start_time, exec_time):
-                return False
+        if not self._material_timeline.can_schedule_at_the_moment(node, start_time,
+                                                                  node.work_unit.need_materials()):
+            return False
+        if not self.zone_timeline.can_schedule_at_the_moment(node.work_unit.zone_reqs, start_time, exec_time):
+            return False
 
-            return True
+        return True
 
     def update_timeline(self,
                         finish_time: Time,
-- 
2.43.0


From b6fb4702466908bbe2014ec710a24992aff277e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:02 +0000
Subject: [PATCH 118/119] fix: ids of contractors in files were read as numbers

---
 sampo/userinput/parser/csv_parser.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sampo/userinput/parser/csv_parser.py b/sampo/userinput/parser/csv_parser.py
index 3a531b0..f29328b 100644
--- a/sampo/userinput/parser/csv_parser.py
+++ b/sampo/userinput/parser/csv_parser.py
@@ -150,8 +150,10 @@ class CSVParser:
         :param contractor_info: path to contractor info .csv file or the contractor info
         :return: list of Contractors
         """
-        contractor_df = pd.read_csv(contractor_info, sep=';', header=0) if isinstance(contractor_info,
-                                                                                      str) else contractor_info
+        # ids and names are kept as they are written: '007' is not a number
+        contractor_df = pd.read_csv(contractor_info, sep=';', header=0,
+                                    dtype={'contractor_id': str, 'name': str}) if isinstance(contractor_info, str) \
+            else contractor_info
         contractors = []
         for index, row in contractor_df.iterrows():
             specified_id = 'contractor_id' in contractor_df.columns
-- 
2.43.0


From 68d0dc8b2bf87ed48d5aeb4966364c48cad790d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:41 +0000
Subject: [PATCH 119/119] fix: contractors could not be read from a table of
 workers

---
 sampo/userinput/parser/general_build.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sampo/userinput/parser/general_build.py b/sampo/userinput/parser/general_build.py
index b156691..4811c6a 100644
--- a/sampo/userinput/parser/general_build.py
+++ b/sampo/userinput/parser/general_build.py
@@ -304,8 +304,8 @@ def get_graph_contractors(path: str, contractor_name: str | None = 'ООО "***"
         list[Contractor], dict[str, float]):
     contractor_id = str(uuid4())
     workers_df = pd.read_csv(path, index_col='name')
-    workers = {(name, 0): Worker(str(uuid4()), name, count * 2, contractor_id)
+    workers = {name: Worker(str(uuid4()), name, count * 2, contractor_id)
                for name, count in zip(workers_df.index, workers_df['count'])}
     workers_max_count = workers_df['count'].to_dict()
-    contractors = [Contractor(contractor_id, contractor_name, list(workers_max_count.keys()), [], workers, {})]
+    contractors = [Contractor(contractor_id, contractor_name, workers, {})]
     return contractors, workers_max_count
-- 
2.43.0

