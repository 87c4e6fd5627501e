From 6175b3f57a630853ea832db512a436ebbe3772ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:00 +0000
Subject: [PATCH 01/96] fix: genetic contractor borders follow the worker-kind
 index

prepare_optimized_data_structures filled a contractor's row by the position of
its workers dictionary, while every other structure indexes columns by
worker_name2index, so contractors with different or differently ordered worker
kinds got wrong borders (crashes and over-used resources).
---
 sampo/scheduler/genetic/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sampo/scheduler/genetic/utils.py b/sampo/scheduler/genetic/utils.py
index abd6406..f932bf6 100644
--- a/sampo/scheduler/genetic/utils.py
+++ b/sampo/scheduler/genetic/utils.py
@@ -50,8 +50,8 @@ def prepare_optimized_data_structures(wg: WorkGraph,
 
     contractor_borders = np.zeros((len(contractor2index), len(worker_name2index)), dtype=int)
     for ind, contractor in enumerate(contractors):
-        for ind_worker, worker in enumerate(contractor.workers.values()):
-            contractor_borders[ind, ind_worker] = worker.count
+        for worker_name, worker in contractor.workers.items():
+            contractor_borders[ind, worker_name2index[worker_name]] = worker.count
 
     nodes, node_id2parent_ids, node_id2child_ids = get_head_nodes_with_connections_mappings(wg)
     node_indices = list(range(len(nodes)))
-- 
2.43.0


From 88a3090fe757deec111a309c9fc53ab139027859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:00 +0000
Subject: [PATCH 02/96] fix: copying a Worker keeps its cost_one_unit

Schedulers work on copies, so a user-defined cost was silently replaced by the
default one in the resulting schedule's cost.
---
 sampo/schemas/resources.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sampo/schemas/resources.py b/sampo/schemas/resources.py
index ce96871..9f3c3ca 100644
--- a/sampo/schemas/resources.py
+++ b/sampo/schemas/resources.py
@@ -81,7 +81,8 @@ class Worker(Resource):
                       name=self.name,
                       count=self.count,
                       contractor_id=self.contractor_id,
-                      productivity=self.productivity)
+                      productivity=self.productivity,
+                      cost_one_unit=self.cost_one_unit)
 
     def with_count(self, count: int) -> 'Worker':
         """
-- 
2.43.0


From d9a91166292d7898bf95ac19632f4fe53bbd2f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:28 +0000
Subject: [PATCH 03/96] fix: schedulers accept a partially specified worker
 team

A work whose ScheduleSpec fixes only some of its worker kinds crashed with
'truth value of an array is ambiguous', and the search could leave a fixed kind
at a count other than the specified one.
---
 sampo/scheduler/generic.py                     | 6 ++++++
 sampo/scheduler/resource/average_req.py        | 2 +-
 sampo/scheduler/resource/coordinate_descent.py | 2 +-
 sampo/utilities/base_opt.py                    | 2 +-
 4 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/sampo/scheduler/generic.py b/sampo/scheduler/generic.py
index 211ca5b..c1509e2 100644
--- a/sampo/scheduler/generic.py
+++ b/sampo/scheduler/generic.py
@@ -85,6 +85,12 @@ class GenericScheduler(Scheduler):
                 if len(workers) != len(node.work_unit.worker_reqs):
                     return assigned_parent_time, Time.inf(), []
 
+                # the team sizes fixed by the spec are not to be searched
+                for i, worker in enumerate(workers):
+                    assigned_count = spec.assigned_workers.get(worker.name, 0)
+                    if assigned_count > 0:
+                        min_count_worker_team[i] = max_count_worker_team[i] = assigned_count
+
                 workers = [worker.copy() for worker in workers]
 
                 # apply worker team spec
diff --git a/sampo/scheduler/resource/average_req.py b/sampo/scheduler/resource/average_req.py
index bd71886..2cb1c94 100644
--- a/sampo/scheduler/resource/average_req.py
+++ b/sampo/scheduler/resource/average_req.py
@@ -37,7 +37,7 @@ class AverageReqResourceOptimizer(ResourceOptimizer):
         :param get_finish_time: optimization function that should give execution time based on worker team
         """
 
-        if optimize_array:
+        if optimize_array is not None:
             for worker, up, down, optimize in zip(worker_team, up_border, down_border, optimize_array):
                 if optimize:
                     worker.count = max(0, down) + int((up - down) / self.k)
diff --git a/sampo/scheduler/resource/coordinate_descent.py b/sampo/scheduler/resource/coordinate_descent.py
index c884c94..807121b 100644
--- a/sampo/scheduler/resource/coordinate_descent.py
+++ b/sampo/scheduler/resource/coordinate_descent.py
@@ -50,7 +50,7 @@ class CoordinateDescentResourceOptimizer(ResourceOptimizer):
                                                self.one_dimension_optimizer,
                                                fitness,
                                                optimize_array)
-        if optimize_array:
+        if optimize_array is not None:
             for i, worker in enumerate(worker_team):
                 if optimize_array[i]:
                     worker.count = count_worker_team[i]
diff --git a/sampo/utilities/base_opt.py b/sampo/utilities/base_opt.py
index 484353f..aec86f9 100644
--- a/sampo/utilities/base_opt.py
+++ b/sampo/utilities/base_opt.py
@@ -46,7 +46,7 @@ def coordinate_descent(down: np.ndarray, up: np.ndarray,
                        optimize_array: Optional[np.ndarray]) -> np.ndarray:
     cur = down.copy()
     for i in range(down.size):
-        if optimize_array and not optimize_array[i]:
+        if optimize_array is not None and not optimize_array[i]:
             continue
 
         def part(x) -> Time:
-- 
2.43.0


From 7814581fe3dea742bf91c981e1b227f29fc7ec6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:28 +0000
Subject: [PATCH 04/96] fix: do not choose a contractor that cannot supply the
 assigned team

With several contractors GenericScheduler could give a work, whose team is fixed
by ScheduleSpec, to a contractor having fewer workers: the result over-used the
contractor (JustInTimeTimeline) or the scheduler crashed (MomentumTimeline).
---
 sampo/scheduler/generic.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sampo/scheduler/generic.py b/sampo/scheduler/generic.py
index c1509e2..d484a6f 100644
--- a/sampo/scheduler/generic.py
+++ b/sampo/scheduler/generic.py
@@ -88,6 +88,9 @@ class GenericScheduler(Scheduler):
                 # the team sizes fixed by the spec are not to be searched
                 for i, worker in enumerate(workers):
                     assigned_count = spec.assigned_workers.get(worker.name, 0)
+                    if assigned_count > worker.count:
+                        # this contractor can't supply the assigned team
+                        return assigned_parent_time, Time.inf(), []
                     if assigned_count > 0:
                         min_count_worker_team[i] = max_count_worker_team[i] = assigned_count
 
-- 
2.43.0


From 4e748752162a31b4f2cd14df058933874ae89a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:04 +0000
Subject: [PATCH 05/96] fix: parallel SGS applies the worker-team spec before
 estimating and keeps per-work durations of a chain

---
 sampo/scheduler/genetic/converter.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sampo/scheduler/genetic/converter.py b/sampo/scheduler/genetic/converter.py
index 4cea529..c220109 100644
--- a/sampo/scheduler/genetic/converter.py
+++ b/sampo/scheduler/genetic/converter.py
@@ -174,6 +174,9 @@ def parallel_schedule_generation_scheme(chromosome: ChromosomeType,
                                          .copy().with_count(worker_count)
                                          for worker_index, worker_count in enumerate(cur_resources)
                                          if worker_count > 0]
+        # apply worker spec
+        Scheduler.optimize_resources_using_spec(cur_node.work_unit, cur_worker_team, cur_work_spec)
+
         if cur_work_spec.assigned_time is not None:
             cur_exec_time = cur_work_spec.assigned_time
         else:
@@ -194,9 +197,6 @@ def parallel_schedule_generation_scheme(chromosome: ChromosomeType,
         idx, (work_idx, node, worker_team, contractor, exec_time, work_spec) = args
 
         if timeline.can_schedule_at_the_moment(node, worker_team, work_spec, node2swork, start_time, exec_time):
-            # apply worker spec
-            Scheduler.optimize_resources_using_spec(node.work_unit, worker_team, work_spec)
-
             st = start_time
             if idx == 0:  # we are scheduling the work `start of the project`
                 st = assigned_parent_time  # this work should always have st = 0, so we just re-assign it
@@ -207,7 +207,7 @@ def parallel_schedule_generation_scheme(chromosome: ChromosomeType,
 
             # finish using time spec
             timeline.schedule(node, node2swork, worker_team, contractor, work_spec,
-                              st, exec_time, assigned_parent_time, work_estimator)
+                              st, work_spec.assigned_time, assigned_parent_time, work_estimator)
 
             if idx == len(works_order) - 1:  # we are scheduling the work `end of the project`
                 node2swork[node].zones_pre = finalizing_zones
-- 
2.43.0


From a84f0354a6f94018d05bc3afc12bbb096cc0db1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:29 +0000
Subject: [PATCH 06/96] fix: momentum timeline searches the slot for the
 assigned execution time

---
 sampo/scheduler/timeline/momentum_timeline.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/sampo/scheduler/timeline/momentum_timeline.py b/sampo/scheduler/timeline/momentum_timeline.py
index ae64168..343bb18 100644
--- a/sampo/scheduler/timeline/momentum_timeline.py
+++ b/sampo/scheduler/timeline/momentum_timeline.py
@@ -112,9 +112,15 @@ class MomentumTimeline(Timeline):
 
         exec_time: Time = Time(0)
         exec_times: dict[GraphNode, tuple[Time, Time]] = {}  # node: (lag, exec_time)
+        # the slot should be searched for the execution time that the work will really take
+        assigned_exec_times = {} if spec.assigned_time is None else \
+            get_exec_times_from_assigned_time_for_chain(inseparable_chain, spec.assigned_time)
         for chain_node in inseparable_chain:
-            node_exec_time: Time = Time(0) if len(chain_node.work_unit.worker_reqs) == 0 else \
-                work_estimator.estimate_time(chain_node.work_unit, worker_team)
+            if chain_node in assigned_exec_times:
+                _, node_exec_time = assigned_exec_times[chain_node]
+            else:
+                node_exec_time: Time = Time(0) if len(chain_node.work_unit.worker_reqs) == 0 else \
+                    work_estimator.estimate_time(chain_node.work_unit, worker_team)
 
             lag_req = nodes_max_parent_times[chain_node] - max_parent_time - exec_time
             lag = lag_req if lag_req > 0 else 0
@@ -402,7 +408,7 @@ class MomentumTimeline(Timeline):
         start_time, _, exec_times = \
             self.find_min_start_time_with_additional(node, workers, node2swork, spec, assigned_start_time,
                                                      assigned_parent_time, work_estimator)
-        if assigned_time is not None:
+        if assigned_time is not None and assigned_time != spec.assigned_time:
             exec_times = get_exec_times_from_assigned_time_for_chain(inseparable_chain, assigned_time)
 
         # TODO Decide how to deal with exec_times(maybe we should remove using pre-computed exec_times)
-- 
2.43.0


From 3354006499226d26664be56ad56201724f92f153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:12 +0000
Subject: [PATCH 07/96] fix: genetic keeps the worker counts fixed by the spec

---
 sampo/scheduler/genetic/utils.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/sampo/scheduler/genetic/utils.py b/sampo/scheduler/genetic/utils.py
index f932bf6..44dc972 100644
--- a/sampo/scheduler/genetic/utils.py
+++ b/sampo/scheduler/genetic/utils.py
@@ -68,14 +68,24 @@ def prepare_optimized_data_structures(wg: WorkGraph,
     resources_border = np.zeros((2, len(worker_pool), len(index2node)))
     contractors_available = np.zeros((len(index2node), len(contractor2index)))
     for work_index, node in index2node.items():
+        work_spec = spec.get_work_spec(node.id)
+        # the team that any contractor of this work should be able to supply
+        assigned_team = np.zeros(len(worker_pool), dtype=int)
         for req in node.work_unit.worker_reqs:
             worker_index = worker_name2index[req.kind]
-            resources_border[0, worker_index, work_index] = req.min_count
-            resources_border[1, worker_index, work_index] = req.max_count
-
-        contractors_spec = spec.get_work_spec(node.id).contractors or map(attrgetter('id'), contractors)
+            assigned_count = work_spec.assigned_workers.get(req.kind, 0)
+            if assigned_count > 0:
+                # the worker count fixed by the spec is not to be mutated
+                assigned_team[worker_index] = assigned_count
+                resources_border[:, worker_index, work_index] = assigned_count
+            else:
+                resources_border[0, worker_index, work_index] = req.min_count
+                resources_border[1, worker_index, work_index] = req.max_count
+
+        contractors_spec = work_spec.contractors or map(attrgetter('id'), contractors)
         for contractor in contractors_spec:
-            contractors_available[work_index, contractor2index[contractor]] = 1
+            if (assigned_team <= contractor_borders[contractor2index[contractor]]).all():
+                contractors_available[work_index, contractor2index[contractor]] = 1
 
     return (worker_pool, index2node, index2zone, work_id2index, worker_name2index, index2contractor_obj,
             worker_pool_indices, contractor2index, contractor_borders, node_indices, priorities, parents,
-- 
2.43.0


From f858a60945e863b9a64b659c5590f05b496e6272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:08 +0000
Subject: [PATCH 08/96] fix: independent works respect precedence and keep
 their resources exclusive

---
 .../timeline/just_in_time_timeline.py         | 53 +++++----------
 sampo/scheduler/timeline/momentum_timeline.py | 66 +++++++++----------
 2 files changed, 46 insertions(+), 73 deletions(-)

diff --git a/sampo/scheduler/timeline/just_in_time_timeline.py b/sampo/scheduler/timeline/just_in_time_timeline.py
index 7115b87..17cc151 100644
--- a/sampo/scheduler/timeline/just_in_time_timeline.py
+++ b/sampo/scheduler/timeline/just_in_time_timeline.py
@@ -142,48 +142,25 @@ class JustInTimeTimeline(Timeline):
                                    node2swork: dict[GraphNode, ScheduledWork],
                                    start_time: Time,
                                    exec_time: Time) -> bool:
-        if spec.is_independent:
-            # squash all the timeline to the last point
-            for worker in worker_team:
-                worker_timeline = self._timeline[(worker.contractor_id, worker.name)]
-                last_cpkt_time, _ = worker_timeline[0]
-                if last_cpkt_time > start_time:
-                    return False
-            return True
-        else:
-            # checking edges
-            chain = set(node.get_inseparable_chain_with_self())
-            for dep_node in chain:
-                if any(p not in chain and p not in node2swork for p in dep_node.parents):
-                    return False
-            if node.min_start_time(node2swork) > start_time:
+        # checking edges
+        chain = set(node.get_inseparable_chain_with_self())
+        for dep_node in chain:
+            if any(p not in chain and p not in node2swork for p in dep_node.parents):
                 return False
+        if node.min_start_time(node2swork) > start_time:
+            return False
 
-            max_agent_time = Time(0)
-            for worker in worker_team:
-                needed_count = worker.count
-                offer_stack = self._timeline[worker.get_agent_id()]
-                # traverse list while not enough resources and grab it
-                ind = len(offer_stack) - 1
-                while needed_count > 0:
-                    offer_time, offer_count = offer_stack[ind]
-                    max_agent_time = max(max_agent_time, offer_time)
-
-                    if needed_count < offer_count:
-                        offer_count = needed_count
-                    needed_count -= offer_count
-                    ind -= 1
-
-            if not max_agent_time <= start_time:
-                return False
+        # checking availability of renewable resources
+        if self._find_min_start_time(worker_team, Time(0), spec) > start_time:
+            return False
 
-            if not self._material_timeline.can_schedule_at_the_moment(node, start_time,
-                                                                      node.work_unit.need_materials()):
-                return False
-            if not self.zone_timeline.can_schedule_at_the_moment(node.work_unit.zone_reqs, start_time, exec_time):
-                return False
+        if not self._material_timeline.can_schedule_at_the_moment(node, start_time,
+                                                                  node.work_unit.need_materials()):
+            return False
+        if not self.zone_timeline.can_schedule_at_the_moment(node.work_unit.zone_reqs, start_time, exec_time):
+            return False
 
-            return True
+        return True
 
     def update_timeline(self,
                         finish_time: Time,
diff --git a/sampo/scheduler/timeline/momentum_timeline.py b/sampo/scheduler/timeline/momentum_timeline.py
index 343bb18..d948e21 100644
--- a/sampo/scheduler/timeline/momentum_timeline.py
+++ b/sampo/scheduler/timeline/momentum_timeline.py
@@ -306,42 +306,36 @@ class MomentumTimeline(Timeline):
                                    node2swork: dict[GraphNode, ScheduledWork],
                                    start_time: Time,
                                    exec_time: Time) -> bool:
-        if spec.is_independent:
-            # squash all the timeline to the last point
-            for worker in worker_team:
-                worker_timeline = self._timeline[(worker.contractor_id, worker.name)]
-                last_cpkt_time, _ = worker_timeline[0]
-                if last_cpkt_time >= start_time:
-                    return False
-            return True
-        else:
-            start = start_time
-            end = start_time + exec_time
-
-            # checking availability of renewable resources
-            for w in worker_team:
-                state = self._timeline[w.contractor_id][w.name]
-                start_idx = state.bisect_right(start)
-                end_idx = state.bisect_left((end, -1, EventType.INITIAL))
-                available_workers_count = state[start_idx - 1].available_workers_count
-                # updating all events in between the start and the end of our current task
-                for event in state[start_idx: end_idx]:
-                    if not event.available_workers_count >= w.count:
-                        return False
-
-                if not available_workers_count >= w.count:
-                    return False
+        start = start_time
+        end = start_time + exec_time
 
-                if not state[0].available_workers_count >= available_workers_count:
+        # checking availability of renewable resources
+        for w in worker_team:
+            state = self._timeline[w.contractor_id][w.name]
+            if spec.is_independent and state[-1].time > start:
+                # independent work should be executed with no parallel users of its resources
+                return False
+            start_idx = state.bisect_right(start)
+            end_idx = state.bisect_left((end, -1, EventType.INITIAL))
+            available_workers_count = state[start_idx - 1].available_workers_count
+            # updating all events in between the start and the end of our current task
+            for event in state[start_idx: end_idx]:
+                if not event.available_workers_count >= w.count:
                     return False
 
-            if not self._material_timeline.can_schedule_at_the_moment(node, start_time,
-                                                                      node.work_unit.need_materials()):
+            if not available_workers_count >= w.count:
                 return False
-            if not self.zone_timeline.can_schedule_at_the_moment(node.work_unit.zone_reqs, start_time, exec_time):
+
+            if not state[0].available_workers_count >= available_workers_count:
                 return False
 
-            return True
+        if not self._material_timeline.can_schedule_at_the_moment(node, start_time,
+                                                                  node.work_unit.need_materials()):
+            return False
+        if not self.zone_timeline.can_schedule_at_the_moment(node.work_unit.zone_reqs, start_time, exec_time):
+            return False
+
+        return True
 
     def update_timeline(self,
                         finish_time: Time,
@@ -373,14 +367,16 @@ class MomentumTimeline(Timeline):
             start_idx = state.bisect_right(start)
             end_idx = state.bisect_left((end, -1, EventType.INITIAL))
             available_workers_count = state[start_idx - 1].available_workers_count
+            # independent work should be executed with no parallel users of its resources
+            count = state[0].available_workers_count if spec.is_independent else w.count
             # updating all events in between the start and the end of our current task
             for event in state[start_idx: end_idx]:
-                assert event.available_workers_count >= w.count
-                event.available_workers_count -= w.count
+                assert event.available_workers_count >= count
+                event.available_workers_count -= count
 
-            assert available_workers_count >= w.count
+            assert available_workers_count >= count
 
-            state.add(ScheduleEvent(task_index, EventType.START, start, None, available_workers_count - w.count))
+            state.add(ScheduleEvent(task_index, EventType.START, start, None, available_workers_count - count))
 
             # move the index on time when resources of the work will be freed
             end_idx = state.bisect_right(end) - 1
@@ -390,7 +386,7 @@ class MomentumTimeline(Timeline):
                 end_count = state[end_idx].available_workers_count
             else:
                 # time when resources will be freed is not in timeline
-                end_count = state[end_idx].available_workers_count + w.count
+                end_count = state[end_idx].available_workers_count + count
 
             state.add(ScheduleEvent(task_index, EventType.END, end, None, end_count))
 
-- 
2.43.0


From 2ed3e12921a6c5afef86ab0372ffee133bc8823f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:45 +0000
Subject: [PATCH 09/96] fix: genetic does not move a work to a contractor
 lacking the requested kind

---
 sampo/scheduler/genetic/utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sampo/scheduler/genetic/utils.py b/sampo/scheduler/genetic/utils.py
index 44dc972..a424154 100644
--- a/sampo/scheduler/genetic/utils.py
+++ b/sampo/scheduler/genetic/utils.py
@@ -84,8 +84,10 @@ def prepare_optimized_data_structures(wg: WorkGraph,
 
         contractors_spec = work_spec.contractors or map(attrgetter('id'), contractors)
         for contractor in contractors_spec:
-            if (assigned_team <= contractor_borders[contractor2index[contractor]]).all():
-                contractors_available[work_index, contractor2index[contractor]] = 1
+            contractor_index = contractor2index[contractor]
+            has_all_kinds = all(contractor in worker_pool[req.kind] for req in node.work_unit.worker_reqs)
+            if has_all_kinds and (assigned_team <= contractor_borders[contractor_index]).all():
+                contractors_available[work_index, contractor_index] = 1
 
     return (worker_pool, index2node, index2zone, work_id2index, worker_name2index, index2contractor_obj,
             worker_pool_indices, contractor2index, contractor_borders, node_indices, priorities, parents,
-- 
2.43.0


From a6ae4b6021d22896f08e7e8ec8ecd5e4f8df885f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:45 +0000
Subject: [PATCH 10/96] fix: parallel first population keeps the order of works

---
 sampo/backend/multiproc.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sampo/backend/multiproc.py b/sampo/backend/multiproc.py
index 691ecd1..e2da645 100644
--- a/sampo/backend/multiproc.py
+++ b/sampo/backend/multiproc.py
@@ -170,7 +170,7 @@ class MultiprocessingComputationalBackend(DefaultComputationalBackend):
                                                                   resource_optimizer=AverageReqResourceOptimizer(k))
                                                   .schedule_with_cache(g_wg, g_contractors, g_spec,
                                                                        landscape=g_landscape))[0]
-                    return schedule, node_order[::-1], g_spec
+                    return schedule, node_order, g_spec
                 except NoSufficientContractorError:
                     return None, None, None
 
@@ -180,7 +180,7 @@ class MultiprocessingComputationalBackend(DefaultComputationalBackend):
                         schedule, _, _, node_order = (scheduler_class(work_estimator=g_work_estimator)
                                                       .schedule_with_cache(g_wg, g_contractors, g_spec,
                                                                            landscape=g_landscape))[0]
-                        return schedule, node_order[::-1], g_spec
+                        return schedule, node_order, g_spec
                     except NoSufficientContractorError:
                         return None, None, None
 
@@ -190,7 +190,7 @@ class MultiprocessingComputationalBackend(DefaultComputationalBackend):
                         (schedule, _, _, node_order), modified_spec = AverageBinarySearchResourceOptimizingScheduler(
                             scheduler_class(work_estimator=g_work_estimator)
                         ).schedule_with_cache(g_wg, g_contractors, g_deadline, g_spec, landscape=g_landscape)
-                        return schedule, node_order[::-1], modified_spec
+                        return schedule, node_order, modified_spec
                     except NoSufficientContractorError:
                         return None, None, None
 
-- 
2.43.0


From 24a232cd1d9e324e39666a444a40ddaba2129ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:45 +0000
Subject: [PATCH 11/96] fix: parallel first population respects the spec

---
 sampo/backend/multiproc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sampo/backend/multiproc.py b/sampo/backend/multiproc.py
index e2da645..cdf67b2 100644
--- a/sampo/backend/multiproc.py
+++ b/sampo/backend/multiproc.py
@@ -161,7 +161,7 @@ class MultiprocessingComputationalBackend(DefaultComputationalBackend):
         def mapper(key: str):
             def randomized_init():
                 schedule, _, _, order = RandomizedTopologicalScheduler(g_work_estimator, int(g_rand.random() * 1000000)) \
-                    .schedule_with_cache(g_wg, g_contractors, landscape=g_landscape)[0]
+                    .schedule_with_cache(g_wg, g_contractors, g_spec, landscape=g_landscape)[0]
                 return schedule, order, g_spec
 
             def init_k_schedule(scheduler_class, k) -> tuple[Schedule | None, list[GraphNode] | None, ScheduleSpec | None]:
-- 
2.43.0


From 8ea9de916e9add3a4485ac9bf78cbf6869cddb19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:45 +0000
Subject: [PATCH 12/96] fix: parallel first population doesn't depend on the
 distribution of tasks among workers

---
 sampo/backend/multiproc.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/sampo/backend/multiproc.py b/sampo/backend/multiproc.py
index cdf67b2..2896382 100644
--- a/sampo/backend/multiproc.py
+++ b/sampo/backend/multiproc.py
@@ -158,9 +158,11 @@ class MultiprocessingComputationalBackend(DefaultComputationalBackend):
         self._ensure_toolbox_created()
         self._ensure_pool_created()
 
-        def mapper(key: str):
+        def mapper(task: tuple[str, int]):
+            key, seed = task
+
             def randomized_init():
-                schedule, _, _, order = RandomizedTopologicalScheduler(g_work_estimator, int(g_rand.random() * 1000000)) \
+                schedule, _, _, order = RandomizedTopologicalScheduler(g_work_estimator, seed) \
                     .schedule_with_cache(g_wg, g_contractors, g_spec, landscape=g_landscape)[0]
                 return schedule, order, g_spec
 
@@ -230,5 +232,8 @@ class MultiprocessingComputationalBackend(DefaultComputationalBackend):
         chromosome_keys = ['heft_end', 'heft_between', '12.5%', '25%', '75%', '87.5%', 'randomized']
         chromosome_types = self._rand.sample(chromosome_keys, k=size_population, counts=counts)
 
-        chromosomes = self.map(mapper, chromosome_types)
+        # seeds are drawn here, so the population doesn't depend on how tasks are distributed among workers
+        seeds = [int(self._rand.random() * 1000000) for _ in chromosome_types]
+
+        chromosomes = self.map(mapper, list(zip(chromosome_types, seeds)))
         return [self._toolbox.Individual(chromosome) for chromosome in chromosomes]
-- 
2.43.0


From 88745b9c6f8b2582f6a6ae6297c7f82b55572adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:48 +0000
Subject: [PATCH 13/96] fix: parallel first population accepts the weights of
 the genetic scheduler

---
 sampo/backend/multiproc.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/sampo/backend/multiproc.py b/sampo/backend/multiproc.py
index 2896382..d829cf4 100644
--- a/sampo/backend/multiproc.py
+++ b/sampo/backend/multiproc.py
@@ -13,6 +13,7 @@ from sampo.backend.default import DefaultComputationalBackend
 from sampo.scheduler.genetic.operators import Individual
 from sampo.scheduler.genetic.utils import create_toolbox_using_cached_chromosomes, init_chromosomes_f
 from sampo.scheduler.heft import HEFTScheduler, HEFTBetweenScheduler
+from sampo.scheduler.lft.base import LFTScheduler
 from sampo.scheduler.resource import AverageReqResourceOptimizer
 from sampo.scheduler.resources_in_time import AverageBinarySearchResourceOptimizingScheduler
 from sampo.scheduler.topological.base import RandomizedTopologicalScheduler
@@ -199,7 +200,15 @@ class MultiprocessingComputationalBackend(DefaultComputationalBackend):
             def convert(schedule: Schedule, priority_list: list[GraphNode], spec: ScheduleSpec):
                 return g_toolbox.schedule_to_chromosome(schedule=schedule, spec=spec, order=priority_list)
 
+            def init_lft_schedule():
+                schedule, _, _, node_order = (LFTScheduler(work_estimator=g_work_estimator)
+                                              .schedule_with_cache(g_wg, g_contractors, g_spec,
+                                                                   landscape=g_landscape))[0]
+                return schedule, node_order, g_spec
+
             match key:
+                case 'lft':
+                    return convert(*init_lft_schedule())
                 case 'heft_end':
                     return convert(*init_schedule(HEFTScheduler))
                 case 'heft_between':
@@ -215,7 +224,7 @@ class MultiprocessingComputationalBackend(DefaultComputationalBackend):
                 case 'randomized':
                     return convert(*randomized_init())
 
-        weights = self._weights or [2, 2, 1, 1, 1, 1]
+        weights = self._weights or [2, 2, 2, 1, 1, 1, 1]
 
         count_for_specified_types = (size_population // 3) // len(weights)
         count_for_specified_types = count_for_specified_types if count_for_specified_types > 0 else 1
@@ -229,7 +238,7 @@ class MultiprocessingComputationalBackend(DefaultComputationalBackend):
         count_for_topological = count_for_topological if count_for_topological > 0 else 1
         counts += [count_for_topological]
 
-        chromosome_keys = ['heft_end', 'heft_between', '12.5%', '25%', '75%', '87.5%', 'randomized']
+        chromosome_keys = ['lft', 'heft_end', 'heft_between', '12.5%', '25%', '75%', '87.5%', 'randomized']
         chromosome_types = self._rand.sample(chromosome_keys, k=size_population, counts=counts)
 
         # seeds are drawn here, so the population doesn't depend on how tasks are distributed among workers
-- 
2.43.0


From 0a50614c97476ef0a1e290b38ed34fccf17f8e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:20 +0000
Subject: [PATCH 14/96] fix: work estimator keeps its settings when it is
 recreated in worker processes

---
 sampo/schemas/time_estimator.py | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/sampo/schemas/time_estimator.py b/sampo/schemas/time_estimator.py
index 441124b..7d375b2 100644
--- a/sampo/schemas/time_estimator.py
+++ b/sampo/schemas/time_estimator.py
@@ -2,7 +2,7 @@ from abc import ABC, abstractmethod
 from enum import Enum
 from operator import attrgetter
 from random import Random
-from typing import Optional, Type, Any
+from typing import Callable, Optional, Type, Any
 
 import numpy.random
 import math
@@ -131,8 +131,22 @@ class DefaultWorkEstimator(WorkTimeEstimator):
             return
         self._productivity[name][contractor] = productivity
 
-    def get_recreate_info(self) -> tuple[Type, tuple]:
-        return DefaultWorkEstimator, ()
+    def get_recreate_info(self) -> tuple[Callable[..., WorkTimeEstimator], tuple]:
+        return DefaultWorkEstimator._recreate, (self.rand, self._use_idle, self._estimation_mode,
+                                                self._productivity_mode, self._productivity)
+
+    @staticmethod
+    def _recreate(rand: Random,
+                  use_idle: bool,
+                  estimation_mode: WorkEstimationMode,
+                  productivity_mode: WorkerProductivityMode,
+                  productivity: dict[str, dict[str, Interval]]) -> 'DefaultWorkEstimator':
+        work_estimator = DefaultWorkEstimator(rand)
+        work_estimator.set_estimation_mode(use_idle, estimation_mode)
+        work_estimator.set_productivity_mode(productivity_mode)
+        for name, contractor2productivity in productivity.items():
+            work_estimator._productivity[name] = dict(contractor2productivity)
+        return work_estimator
 
 
 def communication_coefficient(groups_count: int, max_groups: int) -> float:
-- 
2.43.0


From 355708c240059258c5b17841e190fb03799bc6fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:19 +0000
Subject: [PATCH 15/96] fix: resource optimization to a deadline keeps the
 given spec

---
 sampo/scheduler/resources_in_time/average_binary_search.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sampo/scheduler/resources_in_time/average_binary_search.py b/sampo/scheduler/resources_in_time/average_binary_search.py
index eb0df9f..8771898 100644
--- a/sampo/scheduler/resources_in_time/average_binary_search.py
+++ b/sampo/scheduler/resources_in_time/average_binary_search.py
@@ -48,8 +48,6 @@ class AverageBinarySearchResourceOptimizingScheduler:
             return result
 
         copied_spec = deepcopy(spec)
-        # FIXME Investigate why `spec` given to this method can be saved from previous call and remove this
-        copied_spec._work2spec.clear()
 
         k_min = 1
         k_max = 10000
@@ -65,6 +63,9 @@ class AverageBinarySearchResourceOptimizingScheduler:
             # we can keep the deadline if pass minimum resources,
             # so let's go preventing the works going in parallel
             for node in wg.nodes:
+                if copied_spec.get_work_spec(node.id).is_independent:
+                    # already independent by the given spec
+                    continue
                 copied_spec.get_work_spec(node.id).is_independent = True
                 new_time = fitness(k_max, copied_spec)
                 if new_time > deadline:
-- 
2.43.0


From f5a70e304224d0a06c4e801f15a4898fbf32c4aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:36 +0000
Subject: [PATCH 16/96] fix: equal seeds give equal schedules whatever the
 process hash seed

---
 sampo/scheduler/genetic/converter.py  | 3 ++-
 sampo/scheduler/lft/prioritization.py | 3 ++-
 sampo/scheduler/topological/base.py   | 6 +++---
 3 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/sampo/scheduler/genetic/converter.py b/sampo/scheduler/genetic/converter.py
index c220109..07c4306 100644
--- a/sampo/scheduler/genetic/converter.py
+++ b/sampo/scheduler/genetic/converter.py
@@ -77,7 +77,8 @@ def convert_schedule_to_chromosome(work_id2index: dict[str, int],
             contractor_list = spec[node_id].contractors
             if not contractor_list:
                 contractor_list = contractor2index.keys()
-            random_contractor = list(contractor_list)[0]
+            # the order of contractors should not depend on the order of ids in the set
+            random_contractor = next(contractor for contractor in contractor2index if contractor in contractor_list)
             resource_chromosome[index, -1] = contractor2index[random_contractor]
 
     resource_border_chromosome = np.copy(contractor_borders)
diff --git a/sampo/scheduler/lft/prioritization.py b/sampo/scheduler/lft/prioritization.py
index c36d256..50d983c 100644
--- a/sampo/scheduler/lft/prioritization.py
+++ b/sampo/scheduler/lft/prioritization.py
@@ -86,7 +86,8 @@ def lft_randomized_prioritization_core(head_nodes: list[GraphNode],
     candidates = {head_nodes[0].id}
 
     while candidates:
-        eligibles = [node_id for node_id in candidates if is_eligible(node_id)]
+        # sorting makes the result dependent only on the given `rand`, not on the order of ids in the set
+        eligibles = [node_id for node_id in sorted(candidates) if is_eligible(node_id)]
         min_group_priority = min(node_id2group_priority[node_id] for node_id in eligibles)
         eligibles = [node_id for node_id in eligibles if node_id2group_priority[node_id] == min_group_priority]
 
diff --git a/sampo/scheduler/topological/base.py b/sampo/scheduler/topological/base.py
index da31daa..6dc5770 100644
--- a/sampo/scheduler/topological/base.py
+++ b/sampo/scheduler/topological/base.py
@@ -29,7 +29,7 @@ class TopologicalScheduler(GenericScheduler):
                          optimize_resources_f=self.get_default_res_opt_function(lambda _: Time(0)),
                          work_estimator=work_estimator)
 
-    def _shuffle(self, nodes: set[str]) -> list[str]:
+    def _shuffle(self, nodes: list[str]) -> list[str]:
         """
         Shuffle nodes that are on the same level.
 
@@ -57,7 +57,7 @@ class TopologicalScheduler(GenericScheduler):
                                    for k in priority_group}
             tsorted_node_ids: list[str] = [node_id
                                            for level in toposort(priority_group_dict)
-                                           for node_id in self._shuffle(level)]
+                                           for node_id in self._shuffle(sorted(level))]
 
             ordered_nodes.extend([id2node[node] for node in tsorted_node_ids])
 
@@ -125,7 +125,7 @@ class RandomizedTopologicalScheduler(TopologicalScheduler):
         super().__init__(work_estimator=work_estimator)
         self._random_state = np.random.RandomState(random_seed)
 
-    def _shuffle(self, nodes: set[str]) -> list[str]:
+    def _shuffle(self, nodes: list[str]) -> list[str]:
         """
         Shuffle nodes that are on the same level.
 
-- 
2.43.0


From 4d52437a497f0b37fee371157125841ce1ab68cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:06 +0000
Subject: [PATCH 17/96] fix: an inseparable chain consists of nodes of its own
 graph

---
 sampo/schemas/graph.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/sampo/schemas/graph.py b/sampo/schemas/graph.py
index 771a474..64b9b5d 100644
--- a/sampo/schemas/graph.py
+++ b/sampo/schemas/graph.py
@@ -1,7 +1,7 @@
 from collections import deque
 from dataclasses import dataclass, field
 from enum import Enum
-from functools import cached_property, cache
+from functools import cached_property
 from random import Random
 from typing import Optional
 
@@ -129,14 +129,12 @@ class GraphNode(JSONSerializable['GraphNode']):
         self.__dict__.pop('parents_set', None)
         self.__dict__.pop('inseparable_parent', None)
         self.__dict__.pop('inseparable_son', None)
-        self.get_inseparable_chain.cache_clear()
 
     def invalidate_children_cache(self):
         self.__dict__.pop('children', None)
         self.__dict__.pop('children_set', None)
         self.__dict__.pop('inseparable_parent', None)
         self.__dict__.pop('inseparable_son', None)
-        self.get_inseparable_chain.cache_clear()
 
     def is_inseparable_parent(self) -> bool:
         return self.inseparable_son is not None
@@ -241,7 +239,6 @@ class GraphNode(JSONSerializable['GraphNode']):
     def id(self) -> str:
         return self.work_unit.id
 
-    @cache
     def get_inseparable_chain(self) -> Optional[list['GraphNode']]:
         """
         Gets an ordered list of whole chain of nodes, connected with edges of type INSEPARABLE_FINISH_START =
-- 
2.43.0


From 52a52a90b5743c6c8987339178f2252da7dfbf63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:06 +0000
Subject: [PATCH 18/96] fix: sum of resources usage reads the name of a worker

---
 sampo/utilities/resource_usage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sampo/utilities/resource_usage.py b/sampo/utilities/resource_usage.py
index faab513..05c13e4 100644
--- a/sampo/utilities/resource_usage.py
+++ b/sampo/utilities/resource_usage.py
@@ -47,7 +47,7 @@ def resources_sum(schedule: Schedule, resources_names: Iterable[str] | None = No
     resources_names = set(resources_names) if not is_none else {}
 
     res_sum = sum([sum([worker.count * work.duration.value for worker in work.workers
-                        if worker.model_name in resources_names or is_none], start=0)
+                        if worker.name in resources_names or is_none], start=0)
                    for work in schedule.works])
 
     return res_sum
-- 
2.43.0


From f2f0c0af72ea833cdf0797069da48a5e60e7dfe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:37 +0000
Subject: [PATCH 19/96] fix: genetic with a deadline accepts several fitness
 weights

---
 sampo/scheduler/genetic/schedule_builder.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/sampo/scheduler/genetic/schedule_builder.py b/sampo/scheduler/genetic/schedule_builder.py
index e1eb839..73eb279 100644
--- a/sampo/scheduler/genetic/schedule_builder.py
+++ b/sampo/scheduler/genetic/schedule_builder.py
@@ -188,8 +188,7 @@ def build_schedules_with_cache(wg: WorkGraph,
     # create population of a given size
     if pop is None:
         pop = SAMPO.backend.generate_first_population(population_size)
-    else:
-        pop = [toolbox.Individual(chromosome) for chromosome in pop]
+    pop = [toolbox.Individual(chromosome) for chromosome in pop]
 
     evaluation_start = time.time()
 
-- 
2.43.0


From e7325a5db2b7ee7c266bde132d7eaa646879d95d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:39 +0000
Subject: [PATCH 20/96] fix: order of schedule rows doesn't depend on the
 process hash seed

---
 sampo/schemas/schedule.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/sampo/schemas/schedule.py b/sampo/schemas/schedule.py
index de53fbf..509e317 100644
--- a/sampo/schemas/schedule.py
+++ b/sampo/schemas/schedule.py
@@ -205,13 +205,13 @@ def order_nodes_by_start_time(works: Iterable[ScheduledWork], wg: WorkGraph) ->
                            sorted(works, key=lambda item: item.start_time)]
 
     cur_time = 0
-    cur_class: set[GraphNode] = set()
+    cur_class: list[GraphNode] = []
     for start_time, work in order_by_start_time:
         node = wg[work]
         if len(cur_class) == 0:
             cur_time = start_time
         if start_time == cur_time:
-            cur_class.add(node)
+            cur_class.append(node)
             continue
         # TODO Perform real toposort
         cur_not_added: set[GraphNode] = set(cur_class)
@@ -221,9 +221,9 @@ def order_nodes_by_start_time(works: Iterable[ScheduledWork], wg: WorkGraph) ->
                     continue  # we add this node later
                 res.append(cur_node.id)
                 cur_not_added.remove(cur_node)
-            cur_class = set(cur_not_added)
+            cur_class = [cur_node for cur_node in cur_class if cur_node in cur_not_added]
         cur_time = start_time
-        cur_class = {node}
+        cur_class = [node]
 
     cur_not_added: set[GraphNode] = set(cur_class)
     while len(cur_not_added) > 0:
@@ -232,6 +232,6 @@ def order_nodes_by_start_time(works: Iterable[ScheduledWork], wg: WorkGraph) ->
                 continue  # we add this node later
             res.append(cur_node.id)
             cur_not_added.remove(cur_node)
-        cur_class = set(cur_not_added)
+        cur_class = [cur_node for cur_node in cur_class if cur_node in cur_not_added]
 
     return res
-- 
2.43.0


From 6dbd605c3372c2271e5fa52fd0110b1df969a2a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:32 +0000
Subject: [PATCH 21/96] fix: copied work graph keeps the edges of its nodes

---
 sampo/schemas/graph.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sampo/schemas/graph.py b/sampo/schemas/graph.py
index 64b9b5d..c4f0721 100644
--- a/sampo/schemas/graph.py
+++ b/sampo/schemas/graph.py
@@ -436,6 +436,8 @@ class WorkGraph(JSONSerializable['WorkGraph']):
         object.__setattr__(self, 'start', deserialized.start)
         object.__setattr__(self, 'finish', deserialized.finish)
         self.__post_init__()
+        # the nodes belong to this graph from now on, so the temporary graph must not dispose them
+        deserialized.nodes = []
 
     def __del__(self):
         self.dict_nodes = None
-- 
2.43.0


From 6930e38db83addbea5a6349897d652dfe20ad321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:39 +0000
Subject: [PATCH 22/96] fix: synthetic projects are a function of their seed

---
 sampo/generator/base.py               |  2 +-
 sampo/generator/pipeline/extension.py | 11 ++++++-----
 sampo/generator/pipeline/project.py   |  6 +++---
 3 files changed, 10 insertions(+), 9 deletions(-)

diff --git a/sampo/generator/base.py b/sampo/generator/base.py
index c34f3ce..624149d 100644
--- a/sampo/generator/base.py
+++ b/sampo/generator/base.py
@@ -101,7 +101,7 @@ class SimpleSynthetic:
 
         for node in wg.nodes:
             if not node.work_unit.is_service_unit:
-                work_materials = list(set(self._rand.choices(materials_name, k=self._rand.randint(bottom_border, top_border))))
+                work_materials = list(dict.fromkeys(self._rand.choices(materials_name, k=self._rand.randint(bottom_border, top_border))))
                 node.work_unit.material_reqs = [MaterialReq(name, self._rand.randint(52, 345), name) for name in
                                                 work_materials]
 
diff --git a/sampo/generator/pipeline/extension.py b/sampo/generator/pipeline/extension.py
index a91237d..d4fb2ab 100644
--- a/sampo/generator/pipeline/extension.py
+++ b/sampo/generator/pipeline/extension.py
@@ -23,7 +23,7 @@ def _extend_str_fields(new_uniq_count: int, wg: WorkGraph, rand: Random,
 
 
 def _get_uniq_resource_kinds(wg: WorkGraph) -> list[str]:
-    uniq_res_kinds = list(set(req.kind for req in chain(*[n.work_unit.worker_reqs for n in wg.nodes])))
+    uniq_res_kinds = list(dict.fromkeys(req.kind for req in chain(*[n.work_unit.worker_reqs for n in wg.nodes])))
     return uniq_res_kinds
 
 
@@ -38,16 +38,17 @@ def _update_resource_names(node: GraphNode, name_to_suffixes: dict[str, list[str
 
 
 def _get_uniq_work_names(wg: WorkGraph) -> list[str]:
-    start_finish_names = {wg.start.work_unit.name, wg.finish.work_unit.name}
-    uniq_work_names = list(set(node.work_unit.name for node in wg.nodes) - start_finish_names)
+    start_finish_names = {node.work_unit.model_name['granular_name'] for node in (wg.start, wg.finish)}
+    uniq_work_names = [name for name in dict.fromkeys(node.work_unit.model_name['granular_name'] for node in wg.nodes)
+                       if name not in start_finish_names]
     return uniq_work_names
 
 
 def _update_work_name(node: GraphNode, name_to_suffixes: dict[str, list[str]], rand: Random) -> None:
-    name = node.work_unit.name
+    name = node.work_unit.model_name['granular_name']
     if name in name_to_suffixes:
         options = name_to_suffixes[name]
-        node.work_unit.name = name + options[rand.randint(0, len(options)-1)]
+        node.work_unit.model_name['granular_name'] = name + options[rand.randint(0, len(options)-1)]
 
 
 def extend_resources(uniq_resources: int, wg: WorkGraph, rand: Random) -> WorkGraph:
diff --git a/sampo/generator/pipeline/project.py b/sampo/generator/pipeline/project.py
index a8031de..5e47c99 100644
--- a/sampo/generator/pipeline/project.py
+++ b/sampo/generator/pipeline/project.py
@@ -25,7 +25,7 @@ def get_small_graph(cluster_name: str | None = 'C1', rand: Random | None = None)
     c1, c_nodes, _ = get_cluster_works(cluster_name=cluster_name, pipe_nodes_count=pipe_nodes_count,
                                        pipe_net_count=pipe_net_count, light_masts_count=light_masts_count,
                                        borehole_counts=[borehole_count], rand=rand)
-    return WorkGraph.from_nodes(list(c_nodes.values()) + [c1])
+    return WorkGraph.from_nodes(list(c_nodes.values()) + [c1], rand=rand)
 
 
 def _get_cluster_graph(cluster_name: str, pipe_nodes_count: int | None = None,
@@ -121,11 +121,11 @@ def get_graph(mode: SyntheticGraphType | None = SyntheticGraphType.GENERAL,
             break
 
     if len(stages) == 1:
-        return get_small_graph(cluster_name=f'{cluster_name_prefix}1')
+        return get_small_graph(cluster_name=f'{cluster_name_prefix}1', rand=rand)
 
     nodes = [road for _, roads in stages for road in roads.values()]
     nodes.extend([c for c, _ in stages])
-    return WorkGraph.from_nodes(nodes)
+    return WorkGraph.from_nodes(nodes, rand=rand)
 
 
 def _graph_mode_to_callable(mode: SyntheticGraphType) -> \
-- 
2.43.0


From 3da298373de5c08e665f98f4ed90e5f00c9bc5a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:44 +0000
Subject: [PATCH 23/96] fix: genetic returns the best of all evaluated
 individuals

---
 sampo/scheduler/genetic/schedule_builder.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/sampo/scheduler/genetic/schedule_builder.py b/sampo/scheduler/genetic/schedule_builder.py
index 73eb279..ede53bb 100644
--- a/sampo/scheduler/genetic/schedule_builder.py
+++ b/sampo/scheduler/genetic/schedule_builder.py
@@ -231,10 +231,12 @@ def build_schedules_with_cache(wg: WorkGraph,
 
         evaluation_time += time.time() - evaluation_start
 
+        # the selection can drop non-dominated individuals, so remember the best ones before it
+        hof.update(offspring)
+
         # renewing population
         pop += offspring
         pop = toolbox.select(pop)
-        hof.update(pop)
 
         prev_best_fitness = best_fitness
         best_fitness = hof[0].fitness.values
@@ -322,10 +324,12 @@ def build_schedules_with_cache(wg: WorkGraph,
 
                 evaluation_time += time.time() - evaluation_start
 
+                # the selection can drop non-dominated individuals, so remember the best ones before it
+                hof.update(offspring)
+
                 # renewing population
                 pop += offspring
                 pop = toolbox.select(pop)
-                hof.update(pop)
 
                 prev_best_fitness = best_fitness
                 best_fitness = hof[0].fitness.values
-- 
2.43.0


From a307d7689e7100c22d77e2372f74d00d3d91c72f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:44 +0000
Subject: [PATCH 24/96] fix: genetic with a deadline doesn't exceed the number
 of generations

---
 sampo/scheduler/genetic/schedule_builder.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sampo/scheduler/genetic/schedule_builder.py b/sampo/scheduler/genetic/schedule_builder.py
index ede53bb..a1bbf83 100644
--- a/sampo/scheduler/genetic/schedule_builder.py
+++ b/sampo/scheduler/genetic/schedule_builder.py
@@ -242,12 +242,12 @@ def build_schedules_with_cache(wg: WorkGraph,
         best_fitness = hof[0].fitness.values
         plateau_steps = plateau_steps + 1 if best_fitness == prev_best_fitness else 0
 
+        generation += 1
+
         if have_deadline and best_fitness[0] <= deadline:
             if all([ind.fitness.values[0] <= deadline for ind in pop]):
                 break
 
-        generation += 1
-
     # Second stage to optimize resources if deadline is assigned
 
     if have_deadline:
-- 
2.43.0


From 4909084190826efdb27fab19e3ad031b7a428b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:34 +0000
Subject: [PATCH 25/96] fix: loading a plain representation does not consume it

---
 sampo/schemas/graph.py        | 1 +
 sampo/schemas/schedule.py     | 4 ++--
 sampo/schemas/serializable.py | 3 +--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/sampo/schemas/graph.py b/sampo/schemas/graph.py
index c4f0721..fcf252f 100644
--- a/sampo/schemas/graph.py
+++ b/sampo/schemas/graph.py
@@ -94,6 +94,7 @@ class GraphNode(JSONSerializable['GraphNode']):
 
     @classmethod
     def _deserialize(cls, representation: T) -> dict:
+        representation = dict(representation)
         representation['work_unit'] = WorkUnit._deserialize(representation['work_unit'])
         representation['parent_edges'] = [(e[0], e[1], EdgeType(e[2])) for e in representation['parent_edges']]
         # representation['child_edges'] = [(e[0], e[1], EdgeType(e[2])) for e in representation['child_edges']]
diff --git a/sampo/schemas/schedule.py b/sampo/schemas/schedule.py
index 509e317..145ab99 100644
--- a/sampo/schemas/schedule.py
+++ b/sampo/schemas/schedule.py
@@ -101,8 +101,8 @@ class Schedule(JSONSerializable['Schedule']):
     @classmethod
     def _deserialize(cls, dict_representation: T) -> 'Schedule':
         # Method described in base class
-        dict_representation['works'] = [ScheduledWork._deserialize(sw) for sw in dict_representation['works']]
-        return Schedule.from_scheduled_works(**dict_representation)
+        return Schedule.from_scheduled_works(works=[ScheduledWork._deserialize(sw)
+                                                    for sw in dict_representation['works']])
 
     @lru_cache
     def merged_stages_datetime_df(self, offset: Union[datetime, str]) -> DataFrame:
diff --git a/sampo/schemas/serializable.py b/sampo/schemas/serializable.py
index d158127..baab31a 100644
--- a/sampo/schemas/serializable.py
+++ b/sampo/schemas/serializable.py
@@ -406,7 +406,6 @@ class AutoJSONSerializable(JSONSerializable[AJS], ABC):
         type_hints = {}
         if TYPE_HINTS in dict_representation:
             type_hints = dict_representation[TYPE_HINTS]
-            del dict_representation[TYPE_HINTS]
 
         def deserialize_field(name, value):
             """
@@ -430,7 +429,7 @@ class AutoJSONSerializable(JSONSerializable[AJS], ABC):
         fields = dict({f: None for f in cls.ignored_fields},
                       **{k: deserialize_field(k, v)
                          for k, v in dict_representation.items()
-                         if k not in cls.ignored_fields})
+                         if k not in cls.ignored_fields and k != TYPE_HINTS})
 
         self = cls.__new__(cls)
         try:
-- 
2.43.0


From 81ad770066e7a782d49a4d4647d9e8a0da2afc35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:34 +0000
Subject: [PATCH 26/96] fix: copied work unit keeps its description

---
 sampo/schemas/works.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sampo/schemas/works.py b/sampo/schemas/works.py
index 8af0bf0..c371c36 100644
--- a/sampo/schemas/works.py
+++ b/sampo/schemas/works.py
@@ -150,6 +150,8 @@ class WorkUnit(AutoJSONSerializable['WorkUnit'], Identifiable):
         self.material_reqs = new_work_unit.material_reqs
         self.zone_reqs = new_work_unit.zone_reqs
         self.id = new_work_unit.id
+        self.name = new_work_unit.name
+        self.description = new_work_unit.description
         self.model_name = new_work_unit.model_name
         self.is_service_unit = new_work_unit.is_service_unit
         self.volume = new_work_unit.volume
-- 
2.43.0


From 92e8f89f0b7d00edb31fb31074a673b3590f0af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:34 +0000
Subject: [PATCH 27/96] fix: works with equipment or object requirements can be
 saved

---
 sampo/schemas/works.py | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/sampo/schemas/works.py b/sampo/schemas/works.py
index c371c36..8f5b56c 100644
--- a/sampo/schemas/works.py
+++ b/sampo/schemas/works.py
@@ -84,6 +84,8 @@ class WorkUnit(AutoJSONSerializable['WorkUnit'], Identifiable):
     @custom_serializer('worker_reqs')
     @custom_serializer('zone_reqs')
     @custom_serializer('material_reqs')
+    @custom_serializer('equipment_reqs')
+    @custom_serializer('object_reqs')
     def serialize_serializable_list(self, value) -> list:
         """
         Return serialized list of values.
@@ -138,6 +140,28 @@ class WorkUnit(AutoJSONSerializable['WorkUnit'], Identifiable):
         """
         return [MaterialReq._deserialize(wr) for wr in value]
 
+    @classmethod
+    @custom_serializer('equipment_reqs', deserializer=True)
+    def equipment_reqs_deserializer(cls, value) -> list[EquipmentReq]:
+        """
+        Get list of equipment requirements
+
+        :param value: serialized list of equipment requirements
+        :return: list of equipment requirements
+        """
+        return [EquipmentReq._deserialize(wr) for wr in value]
+
+    @classmethod
+    @custom_serializer('object_reqs', deserializer=True)
+    def object_reqs_deserializer(cls, value) -> list[ConstructionObjectReq]:
+        """
+        Get list of construction object requirements
+
+        :param value: serialized list of construction object requirements
+        :return: list of construction object requirements
+        """
+        return [ConstructionObjectReq._deserialize(wr) for wr in value]
+
     def __getstate__(self):
         # custom method to avoid calling __hash__() on GraphNode objects
         return self._serialize()
-- 
2.43.0


From afc0cde610fa3457b0a48d91661bbd06f0505633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:22 +0000
Subject: [PATCH 28/96] fix: pipeline restructures the graph when lag
 optimization is requested

---
 sampo/pipeline/default.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sampo/pipeline/default.py b/sampo/pipeline/default.py
index 79c1c80..be5ada1 100644
--- a/sampo/pipeline/default.py
+++ b/sampo/pipeline/default.py
@@ -276,7 +276,7 @@ class DefaultInputPipeline(InputPipeline):
                     wg = wg2
                     schedules = schedules2
 
-            case LagOptimizationStrategy.TRUE, LagOptimizationStrategy.FALSE:
+            case LagOptimizationStrategy.TRUE:
                 wg = graph_restructuring(self._wg, self._lag_optimize.value)
                 schedules = scheduler.schedule_with_cache(wg, self._contractors,
                                                           self._spec,
-- 
2.43.0


From 23bf764b90d17b568da3595ae5d267e61b5e156b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:22 +0000
Subject: [PATCH 29/96] fix: graph restructuring doesn't rename the works of
 the original graph

---
 sampo/structurator/base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sampo/structurator/base.py b/sampo/structurator/base.py
index 444cc66..0002b3a 100644
--- a/sampo/structurator/base.py
+++ b/sampo/structurator/base.py
@@ -184,7 +184,9 @@ def split_node_into_stages(origin_node: GraphNode, restructuring_edges: list[tup
         # update id attribute with current stage node id
         wu_attrs['id'] = stage_node_id
         # update name attribute with current index of stage
-        wu_attrs['model_name']['granular_name'] = f'{wu.model_name["granular_name"]}{STAGE_SEP}{stage_i}'
+        wu_attrs['model_name'] = wu.model_name | {
+            'granular_name': f'{wu.model_name["granular_name"]}{STAGE_SEP}{stage_i}'
+        }
         # update volume attribute with passed proportion
         wu_attrs['volume'] = wu.volume * volume_proportion
         # remove because it's unused field from Identifiable
-- 
2.43.0


From 9c1a974c2206bae854be3847bda629fef20a2432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:22 +0000
Subject: [PATCH 30/96] fix: pipeline accepts contractors that lack some kind
 of workers

---
 sampo/pipeline/default.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sampo/pipeline/default.py b/sampo/pipeline/default.py
index be5ada1..3b4a81d 100644
--- a/sampo/pipeline/default.py
+++ b/sampo/pipeline/default.py
@@ -34,7 +34,7 @@ def contractors_can_perform_work_graph(contractors: list[Contractor], wg: WorkGr
         for contractor in contractors:
             offers = contractor.workers
             for req in reqs:
-                if req.min_count > offers[req.kind].count:
+                if req.kind not in offers or req.min_count > offers[req.kind].count:
                     is_at_least_one_contractor_can_perform = False
                     break
             if is_at_least_one_contractor_can_perform:
-- 
2.43.0


From 1db300d843eeb285377fbccd75aaaa486d999c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:55 +0000
Subject: [PATCH 31/96] fix: united work costs as much as all its stages

---
 sampo/schemas/schedule.py   | 1 +
 sampo/utilities/schedule.py | 3 ++-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/sampo/schemas/schedule.py b/sampo/schemas/schedule.py
index 145ab99..7ece058 100644
--- a/sampo/schemas/schedule.py
+++ b/sampo/schemas/schedule.py
@@ -127,6 +127,7 @@ class Schedule(JSONSerializable['Schedule']):
             swork.model_name['granular_name'] = row['granular_name']
             swork.display_name = row['task_name']
             swork.volume = float(row['volume'])
+            swork.cost = row['cost']
             swork.start_end_time = Time(int(row['start'])), Time(int(row['finish']))
             return row
 
diff --git a/sampo/utilities/schedule.py b/sampo/utilities/schedule.py
index 05322be..4b8c578 100644
--- a/sampo/utilities/schedule.py
+++ b/sampo/utilities/schedule.py
@@ -74,8 +74,9 @@ def merge_split_stages(task_df: pd.DataFrame) -> pd.Series:
         for column in ['task_id', 'task_name', 'granular_name']:
             df.loc[0, column] = df.loc[0, column].split(STAGE_SEP)[0]  # fix task id and name
 
-        # sum up volumes through all stages
+        # sum up volumes and costs through all stages
         df.loc[0, 'volume'] = sum(task_df.loc[:, 'volume'])
+        df.loc[0, 'cost'] = sum(task_df.loc[:, 'cost'])
         df.loc[0, 'workers'] = task_df.loc[0, 'workers']
 
         # fix task's start time and duration
-- 
2.43.0


From c45e87e62186a514febb0247ba85ea7b812f135f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:45 +0000
Subject: [PATCH 32/96] fix: specification of a work holds for all its stages
 in the pipeline

---
 sampo/pipeline/default.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/sampo/pipeline/default.py b/sampo/pipeline/default.py
index 3b4a81d..502783d 100644
--- a/sampo/pipeline/default.py
+++ b/sampo/pipeline/default.py
@@ -20,7 +20,7 @@ from sampo.schemas.schedule import Schedule
 from sampo.schemas.schedule_spec import ScheduleSpec
 from sampo.schemas.time import Time
 from sampo.schemas.time_estimator import WorkTimeEstimator, DefaultWorkEstimator
-from sampo.structurator import graph_restructuring
+from sampo.structurator import graph_restructuring, STAGE_SEP
 from sampo.userinput.parser.csv_parser import CSVParser
 from sampo.utilities.name_mapper import NameMapper, read_json
 
@@ -48,6 +48,17 @@ def contractors_can_perform_work_graph(contractors: list[Contractor], wg: WorkGr
     return True
 
 
+def get_spec_for_stages(spec: ScheduleSpec, wg: WorkGraph) -> ScheduleSpec:
+    """
+    Extends the terms specified for works to all the stages which the works are split into by restructuring
+
+    :param spec: specification of the original works
+    :param wg: restructured work graph
+    :return: specification of the works of the restructured graph
+    """
+    return ScheduleSpec({node.id: spec.get_work_spec(node.id.split(STAGE_SEP)[0]) for node in wg.nodes})
+
+
 class DefaultInputPipeline(InputPipeline):
     """
     Default pipeline, that help to use the framework
@@ -249,7 +260,7 @@ class DefaultInputPipeline(InputPipeline):
                 # Searching the best
                 wg1 = graph_restructuring(self._wg, False)
                 schedules = scheduler.schedule_with_cache(wg1, self._contractors,
-                                                          self._spec,
+                                                          get_spec_for_stages(self._spec, wg1),
                                                           landscape=self._landscape_config,
                                                           assigned_parent_time=self._assigned_parent_time,
                                                           validate=validate)
@@ -259,7 +270,7 @@ class DefaultInputPipeline(InputPipeline):
 
                 wg2 = graph_restructuring(self._wg, True)
                 schedules = scheduler.schedule_with_cache(wg2, self._contractors,
-                                                          self._spec,
+                                                          get_spec_for_stages(self._spec, wg2),
                                                           landscape=self._landscape_config,
                                                           assigned_parent_time=self._assigned_parent_time,
                                                           validate=validate)
@@ -279,7 +290,7 @@ class DefaultInputPipeline(InputPipeline):
             case LagOptimizationStrategy.TRUE:
                 wg = graph_restructuring(self._wg, self._lag_optimize.value)
                 schedules = scheduler.schedule_with_cache(wg, self._contractors,
-                                                          self._spec,
+                                                          get_spec_for_stages(self._spec, wg),
                                                           landscape=self._landscape_config,
                                                           assigned_parent_time=self._assigned_parent_time,
                                                           validate=validate)
-- 
2.43.0


From 8f25111435531fe71f4b930597e0397a4c12b9cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:24 +0000
Subject: [PATCH 33/96] fix: order local optimization keeps the topological
 order

---
 sampo/scheduler/utils/local_optimization.py | 27 ++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/sampo/scheduler/utils/local_optimization.py b/sampo/scheduler/utils/local_optimization.py
index 194e5fd..9d1e5d4 100644
--- a/sampo/scheduler/utils/local_optimization.py
+++ b/sampo/scheduler/utils/local_optimization.py
@@ -97,6 +97,29 @@ class SwapOrderLocalOptimizer(OrderLocalOptimizer):
     This performs just small shuffle that not breaks topological order.
     """
 
+    @staticmethod
+    def _is_swap_allowed(node: GraphNode, node_index: int, candidate: GraphNode, node2ind: dict[GraphNode, int]) -> bool:
+        """
+        Checks if given node can be swapped with the earlier candidate without breaking topological order,
+        considering that the nodes in the order represent the whole inseparable chains
+        """
+        candidate_index = node2ind[candidate]
+        # node takes the candidate's place, so there should be all node's parents before it
+        for member in node.get_inseparable_chain_with_self():
+            for parent in member.parents:
+                while parent.is_inseparable_son():
+                    parent = parent.inseparable_parent
+                if parent is not node and node2ind.get(parent, -1) >= candidate_index:
+                    return False
+        # candidate takes the node's place, so there should be all candidate's children after it
+        for member in candidate.get_inseparable_chain_with_self():
+            for child in member.children:
+                while child.is_inseparable_son():
+                    child = child.inseparable_parent
+                if child is not candidate and child in node2ind and node2ind[child] <= node_index:
+                    return False
+        return True
+
     def optimize(self, node_order: list[GraphNode], area: range) -> list[GraphNode]:
         """
         Change order of nodes (not breaks topological order) by swapping several nodes.
@@ -125,7 +148,9 @@ class SwapOrderLocalOptimizer(OrderLocalOptimizer):
             # cur_cost = node2cost[node]
             chain_candidates: list[GraphNode] = node_order[start_index:i]
 
-            accepted_candidates = get_swap_candidates(node, i, chain_candidates, node2ind, processed)
+            accepted_candidates = [candidate for candidate in chain_candidates
+                                   if candidate not in processed
+                                   and self._is_swap_allowed(node, i, candidate, node2ind)]
 
             if accepted_candidates:
                 chain_candidate = accepted_candidates[0]
-- 
2.43.0


From 7e1bc6e2d90784507beca886ac5f061f8021350e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:06 +0000
Subject: [PATCH 34/96] fix: priorities are corrected once per node and for
 whole inseparable chains

---
 sampo/utilities/priority.py | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/sampo/utilities/priority.py b/sampo/utilities/priority.py
index cd23be6..f38e8b9 100644
--- a/sampo/utilities/priority.py
+++ b/sampo/utilities/priority.py
@@ -2,23 +2,29 @@ from sampo.base import SAMPO
 from sampo.schemas import WorkGraph, GraphNode
 
 
-def update_priority(node, priority_value, visited=None):
-    if visited is None:
-        visited = set()
+def update_priority(node, priority_value):
+    visited = set()
+    nodes_to_visit = [node]
 
-    visited.add(node)
+    while nodes_to_visit:
+        node = nodes_to_visit.pop()
+        if node in visited:
+            continue
+        visited.add(node)
 
-    node.work_unit.priority = min(node.work_unit.priority, priority_value)
+        node.work_unit.priority = min(node.work_unit.priority, priority_value)
 
-    for parent in getattr(node, "parents", []):
-        update_priority(parent, priority_value, visited)
+        nodes_to_visit.extend(node.parents)
+        if node.is_inseparable_parent():
+            # inseparable works are planned together
+            nodes_to_visit.append(node.inseparable_son)
 
 
 def check_and_correct_priorities(wg: WorkGraph, verbose: bool = True):
     # check priorities
     for node in wg.nodes:
-        # if node.is_inseparable_son():
-        #     continue
+        if node.is_inseparable_son() and node.inseparable_parent.work_unit.priority < node.work_unit.priority:
+            update_priority(node, node.inseparable_parent.work_unit.priority)
         for parent_node in node.parents:
             if node.work_unit.priority < parent_node.work_unit.priority:
                 if verbose:
-- 
2.43.0


From bdbd4463f492c98bd0a36abb52540e5aa9f78dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:16 +0000
Subject: [PATCH 35/96] fix: validator notices works without the required
 workers

---
 sampo/utilities/validation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sampo/utilities/validation.py b/sampo/utilities/validation.py
index 9eba876..508ba5d 100644
--- a/sampo/utilities/validation.py
+++ b/sampo/utilities/validation.py
@@ -177,3 +177,5 @@ def _check_all_workers_correspond_to_worker_reqs(wg: WorkGraph, schedule: Schedu
         for worker in swork.workers:
             req = worker2req[worker.name]
             assert req.min_count <= worker.count <= req.max_count
+        allocated_kinds = {worker.name for worker in swork.workers}
+        assert all(req.min_count == 0 or kind in allocated_kinds for kind, req in worker2req.items())
-- 
2.43.0


From f0053d593a24d0b0c5a9fb4ad0c32e6e1d3686b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:15 +0000
Subject: [PATCH 36/96] fix: keep priority, description and display name of
 works when a work graph is copied

---
 sampo/structurator/prepare_wg_copy.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sampo/structurator/prepare_wg_copy.py b/sampo/structurator/prepare_wg_copy.py
index 66706cf..8768498 100644
--- a/sampo/structurator/prepare_wg_copy.py
+++ b/sampo/structurator/prepare_wg_copy.py
@@ -21,14 +21,14 @@ def copy_graph_node(node: GraphNode, new_id: int | str | None = None,
         new_id = node.work_unit.id
     wu = node.work_unit
     new_wu = WorkUnit(id=new_id,
-                      model_name=wu.model_name,
+                      model_name=dict(wu.model_name),
                       worker_reqs=deepcopy(wu.worker_reqs),
                       material_reqs=deepcopy(wu.material_reqs),
                       equipment_reqs=deepcopy(wu.equipment_reqs),
                       object_reqs=deepcopy(wu.object_reqs),
                       zone_reqs=deepcopy(wu.zone_reqs),
-                      group=wu.group,
-                      is_service_unit=wu.is_service_unit, volume=wu.volume)
+                      description=wu.description, group=wu.group, priority=wu.priority,
+                      is_service_unit=wu.is_service_unit, volume=wu.volume, display_name=wu.display_name)
     return GraphNode(new_wu, []), (wu.id, new_id)
 
 
-- 
2.43.0


From d9beaa3ea9d5db1327826c2b3762014fe9331f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:16 +0000
Subject: [PATCH 37/96] fix: a work inserted next to plain nodes does not
 overlap them by one time unit

---
 sampo/structurator/insert_wu.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sampo/structurator/insert_wu.py b/sampo/structurator/insert_wu.py
index e904a3d..f5a348a 100644
--- a/sampo/structurator/insert_wu.py
+++ b/sampo/structurator/insert_wu.py
@@ -42,8 +42,8 @@ def _new_edges(copied_nodes: dict[str, GraphNode], original_old_to_new_ids: dict
 
 def _reduce_to_tuple_type(edges: list[GraphNode] or list[tuple[GraphNode, float, EdgeType]]) \
         -> list[tuple[GraphNode, float, EdgeType]]:
-    if isinstance(edges[0], GraphNode):
-        return [(edge, -1, EdgeType.FinishStart) for edge in edges]
+    if edges and isinstance(edges[0], GraphNode):
+        return [(edge, 0, EdgeType.FinishStart) for edge in edges]
     else:
         return edges
 
-- 
2.43.0


From daee19fe57df0e7eacc650a707048b874a83a2cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:16 +0000
Subject: [PATCH 38/96] fix: pass change_id of graph_in_graph_insertion as
 change_id, not as use_ids_simplification

---
 sampo/structurator/graph_insertion.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sampo/structurator/graph_insertion.py b/sampo/structurator/graph_insertion.py
index cc05c6b..d7378fe 100644
--- a/sampo/structurator/graph_insertion.py
+++ b/sampo/structurator/graph_insertion.py
@@ -16,7 +16,8 @@ def graph_in_graph_insertion(master_wg: WorkGraph, master_start: GraphNode, mast
     :return: new union WorkGraph
     """
     master_nodes, master_old_to_new_ids = prepare_work_graph_copy(master_wg, change_id=change_id)
-    slave_nodes, slave_old_to_new = prepare_work_graph_copy(slave_wg, [slave_wg.start, slave_wg.finish], change_id)
+    slave_nodes, slave_old_to_new = prepare_work_graph_copy(slave_wg, [slave_wg.start, slave_wg.finish],
+                                                            change_id=change_id)
 
     # add parent links from slave_wg's nodes to master_start node from slave_wg's nodes
     master_start = master_nodes[master_old_to_new_ids[master_start.id]]
-- 
2.43.0


From 67ac873e41bad3e69a21eda6d344c13e97d9ab65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:16 +0000
Subject: [PATCH 39/96] fix: respect change_id in work_graph_ids_simplification

---
 sampo/structurator/light_modifications.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sampo/structurator/light_modifications.py b/sampo/structurator/light_modifications.py
index 2ea8872..3caa759 100644
--- a/sampo/structurator/light_modifications.py
+++ b/sampo/structurator/light_modifications.py
@@ -11,7 +11,8 @@ def work_graph_ids_simplification(wg: WorkGraph, id_offset: int = 0, change_id:
     :param change_id: Do IDs in the new graph need to be changed
     :return: new WorkGraph with numeric ids
     """
-    nodes, old_to_new_ids = prepare_work_graph_copy(wg, [], use_ids_simplification=True, id_offset=id_offset)
+    nodes, old_to_new_ids = prepare_work_graph_copy(wg, [], use_ids_simplification=True, id_offset=id_offset,
+                                                    change_id=change_id)
     start = nodes[old_to_new_ids[wg.start.id]]
     finish = nodes[old_to_new_ids[wg.finish.id]]
     return WorkGraph(start, finish)
-- 
2.43.0


From efb1afa12ea2540b02348bd95bdf5f9933dc792a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:54 +0000
Subject: [PATCH 40/96] fix: delete_graph_node deletes the whole inseparable
 chain, given any of its members

---
 sampo/structurator/delete_graph_node.py | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/sampo/structurator/delete_graph_node.py b/sampo/structurator/delete_graph_node.py
index a13d85a..f36150a 100644
--- a/sampo/structurator/delete_graph_node.py
+++ b/sampo/structurator/delete_graph_node.py
@@ -16,16 +16,10 @@ def delete_graph_node(original_wg: WorkGraph, remove_gn_id: str, change_id: bool
 
     copied_remove_gn = copied_nodes[old_to_new_ids[remove_gn_id]]
 
-    inseparable_chain = copied_remove_gn.get_inseparable_chain()
-    if inseparable_chain is not None:
-        copied_remove_gn = inseparable_chain[len(inseparable_chain) - 1]
-        parent_to_delete = copied_remove_gn.inseparable_parent
-        while parent_to_delete is not None:
-            copied_remove_gn = parent_to_delete
-            parent_to_delete = copied_remove_gn.inseparable_parent
-            _node_deletion(copied_remove_gn, copied_nodes)
-    else:
-        _node_deletion(copied_remove_gn, copied_nodes)
+    while copied_remove_gn.inseparable_parent is not None:
+        copied_remove_gn = copied_remove_gn.inseparable_parent
+    for node in copied_remove_gn.get_inseparable_chain_with_self():
+        _node_deletion(node, copied_nodes)
 
     start, finish = new_start_finish(original_wg, copied_nodes, old_to_new_ids)
 
-- 
2.43.0


From ea69c151c77ce518c12c4eb8d95b2bef0cec7517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:54 +0000
Subject: [PATCH 41/96] fix: deleting a node removes all of its edges, of every
 type, and adds each new edge once

---
 sampo/structurator/delete_graph_node.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/sampo/structurator/delete_graph_node.py b/sampo/structurator/delete_graph_node.py
index f36150a..436dd79 100644
--- a/sampo/structurator/delete_graph_node.py
+++ b/sampo/structurator/delete_graph_node.py
@@ -30,17 +30,15 @@ def _node_deletion(remove_gn: GraphNode, nodes: dict[str, GraphNode]):
     parents = remove_gn.parents
     children = remove_gn.children
 
-    for parent in parents:
-        for edge in parent.edges_from:
-            if edge.finish.id == remove_gn.id:
-                parent.edges_from.remove(edge)
+    for edge in remove_gn.edges_to:
+        edge.start.edges_from.remove(edge)
+        edge.start.invalidate_children_cache()
 
-    for child in children:
-        for edge in child.edges_to:
-            if edge.start.id == remove_gn.id:
-                child.edges_to.remove(edge)
+    for edge in remove_gn.edges_from:
+        edge.finish.edges_to.remove(edge)
+        edge.finish.invalidate_parents_cache()
 
     nodes.pop(remove_gn.id)
 
     for child in children:
-        child.add_parents(parents)
+        child.add_parents([parent for parent in dict.fromkeys(parents) if parent not in child.parents_set])
-- 
2.43.0


From 996f51e83d8251c0d7af94d6290515e374310b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:54 +0000
Subject: [PATCH 42/96] fix: OneInsertObstruction puts the inserted works
 before the end point and keeps their edges

---
 sampo/scheduler/utils/obstruction.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/sampo/scheduler/utils/obstruction.py b/sampo/scheduler/utils/obstruction.py
index 2bfcad2..976262e 100644
--- a/sampo/scheduler/utils/obstruction.py
+++ b/sampo/scheduler/utils/obstruction.py
@@ -51,16 +51,19 @@ class OneInsertObstruction(Obstruction):
     def apply(self, wg: WorkGraph):
         # get the insert graph
         insert_wg = self._insert_wg_getter(self._rand)
-        # get the insert point
-        insert_node: GraphNode = self._rand.sample(wg.nodes, 1)[0]
+        # get the insert point, nothing can be inserted after the finish or inside an inseparable chain
+        insert_node: GraphNode = self._rand.sample([node for node in wg.nodes if self._get_insert_ends(node)], 1)[0]
+        # get the insert end point
+        insert_node_child: GraphNode = self._rand.sample(self._get_insert_ends(insert_node), 1)[0]
         # insert
         insert_wg.start.add_parents([insert_node])
-
-        if insert_node.children:
-            # get the insert end point
-            insert_node_child: GraphNode = self._rand.sample(insert_node.children, 1)[0]
-            # insert
-            insert_node_child.add_parents([insert_wg.start])
+        insert_node_child.add_parents([insert_wg.finish])
 
         wg.reinit()
+        # the nodes belong to the given graph from now on, so the inserted graph must not dispose them
+        insert_wg.nodes = []
+
+    @staticmethod
+    def _get_insert_ends(node: GraphNode) -> list[GraphNode]:
+        return [child for child in node.children if child != node.inseparable_son]
 
-- 
2.43.0


From 52e82b8e3a5c73437bbbbac40545266074fb192d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:54 +0000
Subject: [PATCH 43/96] fix: WorkGraph.to_frame takes the name and the
 measurement from the model name of a work

---
 sampo/schemas/graph.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sampo/schemas/graph.py b/sampo/schemas/graph.py
index fcf252f..7d4d98c 100644
--- a/sampo/schemas/graph.py
+++ b/sampo/schemas/graph.py
@@ -383,9 +383,9 @@ class WorkGraph(JSONSerializable['WorkGraph']):
                 # Get information about tasks from graph nodes (work units)
                 graph_df_structure['activity_id'].append(node_info_dict['work_unit']['id'])
                 graph_df_structure['activity_name'].append(node_info_dict['work_unit']['display_name'])
-                graph_df_structure['granular_name'].append(node_info_dict['work_unit']['name'])
+                graph_df_structure['granular_name'].append(node_info_dict['work_unit']['model_name']['granular_name'])
                 graph_df_structure['volume'].append(node_info_dict['work_unit']['volume'])
-                graph_df_structure['measurement'].append(node_info_dict['work_unit']['volume_type'])
+                graph_df_structure['measurement'].append(node_info_dict['work_unit']['model_name']['measurement'])
                 graph_df_structure['priority'].append(node_info_dict['work_unit']['priority'])
 
                 if save_req:
-- 
2.43.0


From d50c3370cfb3620d060108f8a22deab51700cde9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:09 +0000
Subject: [PATCH 44/96] fix: number 0 is an id like any other when ids are
 simplified

---
 sampo/structurator/prepare_wg_copy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sampo/structurator/prepare_wg_copy.py b/sampo/structurator/prepare_wg_copy.py
index 8768498..0310d09 100644
--- a/sampo/structurator/prepare_wg_copy.py
+++ b/sampo/structurator/prepare_wg_copy.py
@@ -15,7 +15,7 @@ def copy_graph_node(node: GraphNode, new_id: int | str | None = None,
     :return: copy of GraphNode and pair(old node id, new node id)
     """
     if change_id:
-        new_id = new_id or uuid_str()
+        new_id = uuid_str() if new_id is None else new_id
         new_id = str(new_id) if isinstance(new_id, int) else new_id
     else:
         new_id = node.work_unit.id
-- 
2.43.0


From ef1eacc0f09b6c1fad53d606ca8fdc396cfaf976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:55 +0000
Subject: [PATCH 45/96] fix: tables of works without model_name or
 granular_name, as documented, can be read

---
 sampo/userinput/parser/general_build.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/sampo/userinput/parser/general_build.py b/sampo/userinput/parser/general_build.py
index 23fb7bc..3a0ceee 100644
--- a/sampo/userinput/parser/general_build.py
+++ b/sampo/userinput/parser/general_build.py
@@ -168,15 +168,23 @@ def preprocess_graph_df(frame: pd.DataFrame,
             frame[col] = temp_lst
 
     if 'model_name' not in frame.columns:
-        frame['model_name'] = ''
+        frame['model_name'] = '{}'
 
     def map_activity(row):
         model_name_dict = eval(row['model_name'])
         if 'granular_name' not in model_name_dict:
-            model_name_dict['granular_name'] = name_mapper[row['activity_name']]
+            if 'granular_name' in row:
+                model_name_dict['granular_name'] = row['granular_name']
+            else:
+                model_name_dict['granular_name'] = name_mapper[row['activity_name']] if name_mapper \
+                    else row['activity_name']
+        if 'measurement' not in model_name_dict and 'measurement' in row:
+            model_name_dict['measurement'] = row['measurement']
         return str(model_name_dict)
 
-    frame['model_name'] = frame[['activity_name', 'model_name']].apply(map_activity, axis=1)
+    frame['model_name'] = frame.apply(map_activity, axis=1)
+    if 'granular_name' not in frame.columns:
+        frame['granular_name'] = [eval(model_name)['granular_name'] for model_name in frame['model_name']]
 
     frame['activity_id'] = frame['activity_id'].astype(str)
     frame['volume'] = [float(x.replace(',', '.')) if isinstance(x, str) else float(x) for x in frame['volume']]
-- 
2.43.0


From e967857c0a76f28102ea77695dccfacdbe4785dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:55 +0000
Subject: [PATCH 46/96] fix: a work read from a table gets its model name, not
 the text of the cell as granular name

---
 sampo/userinput/parser/general_build.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sampo/userinput/parser/general_build.py b/sampo/userinput/parser/general_build.py
index 3a0ceee..ac4e1b1 100644
--- a/sampo/userinput/parser/general_build.py
+++ b/sampo/userinput/parser/general_build.py
@@ -272,7 +272,7 @@ def build_work_graph(frame: pd.DataFrame, resource_names: list[str], work_estima
         group = row['group'] if 'group' in frame.columns else 'main project'
         priority = row['priority'] if 'priority' in frame.columns else 1
 
-        work_unit = WorkUnit(row['activity_id'], row['model_name'], reqs, group=group,
+        work_unit = WorkUnit(row['activity_id'], eval(row['model_name']), reqs, group=group,
                              description=description, volume=row['volume'],
                              is_service_unit=is_service_unit, display_name=row['activity_name_original'],
                              zone_reqs=zone_reqs, priority=priority)
-- 
2.43.0


From 573ef313e763f5d69c7f24a5d3d0d790b6ea1922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:55 +0000
Subject: [PATCH 47/96] fix: read all the requirements given in a table, from a
 file too

---
 sampo/userinput/parser/general_build.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sampo/userinput/parser/general_build.py b/sampo/userinput/parser/general_build.py
index ac4e1b1..3b353de 100644
--- a/sampo/userinput/parser/general_build.py
+++ b/sampo/userinput/parser/general_build.py
@@ -192,6 +192,8 @@ def preprocess_graph_df(frame: pd.DataFrame,
     if 'min_req' in frame.columns and 'max_req' in frame.columns:
         frame['min_req'] = [literal_eval(x) if isinstance(x, str) else x for x in frame['min_req']]
         frame['max_req'] = [literal_eval(x) if isinstance(x, str) else x for x in frame['max_req']]
+        if 'req_volume' in frame.columns:
+            frame['req_volume'] = [literal_eval(x) if isinstance(x, str) else x for x in frame['req_volume']]
 
     frame['predecessor_ids'] = fix_df_column_with_arrays(frame['predecessor_ids'], cast=normalize_if_number)
     frame['connection_types'] = fix_df_column_with_arrays(frame['connection_types'],
@@ -254,8 +256,8 @@ def build_work_graph(frame: pd.DataFrame, resource_names: list[str], work_estima
     for _, row in frame.iterrows():
         if 'min_req' in frame.columns and 'max_req' in frame.columns and 'req_volume' in frame.columns:
             reqs = []
-            for res_name in resource_names:
-                if res_name in row['min_req'] and res_name in row['max_req']:
+            for res_name in row['min_req']:
+                if res_name in row['max_req']:
                     if 0 < row['min_req'][res_name] <= row['max_req'][res_name]:
                         reqs.append(WorkerReq(res_name, Time(int(row['req_volume'][res_name])),
                                               row['min_req'][res_name],
-- 
2.43.0


From 491d034f556115dcadd2c03d1b7e32a240d62c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:55 +0000
Subject: [PATCH 48/96] fix: a predecessor with a fractional id such as 1.5 is
 not taken for another work

---
 sampo/userinput/parser/general_build.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sampo/userinput/parser/general_build.py b/sampo/userinput/parser/general_build.py
index 3b353de..03aa75f 100644
--- a/sampo/userinput/parser/general_build.py
+++ b/sampo/userinput/parser/general_build.py
@@ -156,9 +156,11 @@ def fix_df_column_with_arrays(column: pd.Series, cast: Callable[[str], Any] | No
 
 def preprocess_graph_df(frame: pd.DataFrame,
                         name_mapper: NameMapper | None = None) -> pd.DataFrame:
+    activity_ids = set(frame['activity_id'].astype(str))
+
     def normalize_if_number(s):
         return str(int(float(s))) \
-            if s.replace('.', '', 1).isdigit() \
+            if s not in activity_ids and s.replace('.', '', 1).isdigit() and float(s).is_integer() \
             else s
 
     temp_lst = [math.nan] * frame.shape[0]
-- 
2.43.0


From 9208f91ccbf22c447f81f70c200bda7e5084d011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:55 +0000
Subject: [PATCH 49/96] fix: works read from a table keep the same order in
 every process

---
 sampo/userinput/parser/general_build.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/sampo/userinput/parser/general_build.py b/sampo/userinput/parser/general_build.py
index 03aa75f..4fd79c0 100644
--- a/sampo/userinput/parser/general_build.py
+++ b/sampo/userinput/parser/general_build.py
@@ -284,8 +284,7 @@ def build_work_graph(frame: pd.DataFrame, resource_names: list[str], work_estima
         node = GraphNode(work_unit, parents)
         id_to_node[row['activity_id']] = node
 
-    all_nodes = [id_to_node[index] for index in list(set(id_to_node.keys()))]
-    return WorkGraph.from_nodes(all_nodes)
+    return WorkGraph.from_nodes(list(id_to_node.values()))
 
 
 def get_graph_contractors(path: str, contractor_name: str | None = 'ООО "***"') -> (
-- 
2.43.0


From 9fcabff2b8fcfed9152f6d5ad84c9b42a71322a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:55 +0000
Subject: [PATCH 50/96] fix: contractors can be given as a data frame, as
 documented

---
 sampo/userinput/parser/csv_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sampo/userinput/parser/csv_parser.py b/sampo/userinput/parser/csv_parser.py
index aae71e4..793ce2a 100644
--- a/sampo/userinput/parser/csv_parser.py
+++ b/sampo/userinput/parser/csv_parser.py
@@ -175,7 +175,7 @@ class CSVParser:
 
         if isinstance(contractor_info, list):
             contractors = contractor_info
-        elif isinstance(contractor_info, str):
+        elif isinstance(contractor_info, (str, pd.DataFrame)):
             # if contractor info is given or contractor info and work resource estimator are received simultaneously
             contractor_df = pd.read_csv(contractor_info, sep=';', header=0) if isinstance(contractor_info,
                                                                                           str) else contractor_info
-- 
2.43.0


From 26a82774e2071d998c66531bf6ea2184caab4e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:01 +0000
Subject: [PATCH 51/96] fix: the estimator gets the model name of a work read
 from a table, not its text

---
 sampo/userinput/parser/csv_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sampo/userinput/parser/csv_parser.py b/sampo/userinput/parser/csv_parser.py
index 793ce2a..0cdc846 100644
--- a/sampo/userinput/parser/csv_parser.py
+++ b/sampo/userinput/parser/csv_parser.py
@@ -124,7 +124,7 @@ class CSVParser:
             works_info.activity_name = works_info.activity_name.apply(lambda name: name_mapper[name])
 
         resources = [dict((worker_req.kind, int(worker_req.volume))
-                          for worker_req in work_resource_estimator.find_work_resources(model_name=w[0],
+                          for worker_req in work_resource_estimator.find_work_resources(model_name=eval(w[0]),
                                                                                         work_volume=float(w[1])))
                      for w in works_info.loc[:, ['model_name', 'volume']].to_numpy()]
 
-- 
2.43.0


From ca49b6af1fc5474d0b081361ff8066f57224d21a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:01 +0000
Subject: [PATCH 52/96] fix: ids of contractors read from a table are strings,
 as documented

---
 sampo/userinput/parser/csv_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sampo/userinput/parser/csv_parser.py b/sampo/userinput/parser/csv_parser.py
index 0cdc846..5b126c9 100644
--- a/sampo/userinput/parser/csv_parser.py
+++ b/sampo/userinput/parser/csv_parser.py
@@ -182,7 +182,7 @@ class CSVParser:
             for index, row in contractor_df.iterrows():
                 specified_id = 'contractor_id' in contractor_df.columns
                 column_lag = 2 if specified_id else 1
-                contractor_id = row['contractor_id'] if specified_id else str(uuid4())
+                contractor_id = str(row['contractor_id']) if specified_id else str(uuid4())
                 contractors.append(
                     Contractor(id=contractor_id,
                                name=row['name'],
-- 
2.43.0


From c3883ca686949790337f0c8ed31b8b3f4cc063f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:50 +0000
Subject: [PATCH 53/96] fix: works in zones never overlap changes of statuses
 and works with other statuses

The zone timeline booked the work without the time its status change takes, let
works start while the status was changing, mixed up events of one moment and
crashed on configured end statuses.
---
 sampo/scheduler/timeline/zone_timeline.py | 240 +++++++---------------
 1 file changed, 77 insertions(+), 163 deletions(-)

diff --git a/sampo/scheduler/timeline/zone_timeline.py b/sampo/scheduler/timeline/zone_timeline.py
index 50cf0f9..b166753 100644
--- a/sampo/scheduler/timeline/zone_timeline.py
+++ b/sampo/scheduler/timeline/zone_timeline.py
@@ -8,6 +8,9 @@ from sampo.schemas.types import EventType, ScheduleEvent
 from sampo.schemas.zones import ZoneConfiguration, Zone, ZoneTransition
 from sampo.utilities.collections_util import build_index
 
+# the status of a zone which is being changed from one status to another
+CHANGING_STATUS = -1
+
 
 class ZoneTimeline:
 
@@ -17,11 +20,12 @@ class ZoneTimeline:
                 if event.event_type is EventType.INITIAL:
                     return Time(-1), -1, event.event_type.priority
 
-                return event.time, event.seq_id, event.event_type.priority
+                # a status that begins at the moment when another one is released holds since that moment
+                return event.time, int(event.event_type is EventType.START), event.seq_id
 
             if isinstance(event, Time):
-                # instances of Time must be greater than almost all ScheduleEvents with same time point
-                return event, Time.inf().value, 2
+                # instances of Time must be greater than all ScheduleEvents with same time point
+                return event, 2, -1
 
             if isinstance(event, tuple):
                 return event
@@ -32,6 +36,7 @@ class ZoneTimeline:
                                            key=event_cmp)
                           for zone, status in config.start_statuses.items()}
         self._config = config
+        self._task_index = 0
 
     def find_min_start_time(self, zones: list[ZoneReq], parent_time: Time, exec_time: Time) -> Time:
         # here we look for the earliest time slot that can satisfy all the zones
@@ -77,33 +82,10 @@ class ZoneTimeline:
                 scheduled_wreqs.append(wreq)
                 start = max(start, found_start)
 
-        # This should be uncommented when there are problems with zone scheduling correctness
-        # for w in zones:
-        #     self._validate(start, exec_time, self._timeline[w.kind], w.required_status)
-
         return start
 
     def _match_status(self, target: int, match: int) -> bool:
-        return self._config.statuses.match_status(target, match)
-
-    def _validate(self, start_time: Time, exec_time: Time, state: SortedList[ScheduleEvent], required_status: int):
-        # === THE INNER VALIDATION ===
-
-        start_idx = state.bisect_right(start_time)
-        end_idx = state.bisect_right(start_time + exec_time)
-        start_status = state[start_idx - 1].available_workers_count
-
-        # updating all events in between the start and the end of our current task
-        for event in state[start_idx: end_idx]:
-            assert self._config.statuses.match_status(event.available_workers_count, required_status)
-
-        assert state[start_idx - 1].event_type == EventType.END \
-               or (state[start_idx - 1].event_type == EventType.START
-                   and self._config.statuses.match_status(start_status, required_status)) \
-               or state[start_idx - 1].event_type == EventType.INITIAL, \
-            f'{state[start_idx - 1].time} {state[start_idx - 1].event_type} {required_status} {start_status}'
-
-        # === END OF INNER VALIDATION ===
+        return target != CHANGING_STATUS and self._config.statuses.match_status(target, match)
 
     def _find_earliest_time_slot(self,
                                  state: SortedList[ScheduleEvent],
@@ -111,192 +93,124 @@ class ZoneTimeline:
                                  exec_time: Time,
                                  required_status: int) -> Time:
         """
-        Searches for the earliest time starting from start_time, when a time slot
-        of exec_time is available, when required_worker_count of resources is available
+        Searches for the earliest time starting from start_time, when the zone can have
+        the required status during exec_time
 
-        :param state: stores Timeline for the certain resource
+        :param state: stores Timeline for the certain zone
         :param parent_time: the minimum start time starting from the end of the parent task
         :param exec_time: execution time of work
         :param required_status: requirements status of zone
         :return: the earliest start time
         """
+        # the status of the zone doesn't matter
+        if required_status == 0:
+            return parent_time
+
         current_start_time = parent_time
-        current_start_idx = state.bisect_right(current_start_time) - 1
+        last_event = state[-1]
 
-        # the condition means we have reached the end of schedule for this contractor subject to specialization (wreq)
-        # as long as we assured that this contractor has enough capacity at all to handle the task
-        # we can stop and put the task at the very end
-        i = 0
-        while len(state[current_start_idx:]) > 0:
-            if i > 0 and i % 50 == 0:
-                print(f'Warning! Probably cycle in looking for earliest time slot: {i} iteration')
-                print(f'Current start time: {current_start_time}, current start idx: {current_start_idx}')
-            i += 1
+        # before the last planned event we can only use periods when the zone already has the required status,
+        # because the next works in the zone rely on the status they were planned with
+        while current_start_time < last_event.time:
+            current_start_idx = state.bisect_right(current_start_time) - 1
+            end_idx = max(state.bisect_left((current_start_time + exec_time, 0, -1)), current_start_idx + 1)
 
-            current_start_status = state[current_start_idx].available_workers_count
-            end_idx = state.bisect_right(current_start_time + exec_time)
-
-            if not self._match_status(current_start_status, required_status):
-                if current_start_idx == len(state) - 1:
-                    current_start_time += max(0, self._config.time_costs[current_start_status, required_status]
-                                              - (current_start_time - state[-1].time))
-                    break  # if we are in the very end, break
-
-                # if we are inside the interval with wrong status
-                # we should go right and search the better begin
-                if state[current_start_idx].event_type == EventType.START \
-                        and not self._match_status(current_start_status, required_status):
-                    current_start_idx += 1
-                    current_start_time = state[current_start_idx].time
-                    continue
-
-                # here we are outside the all intervals or inside the interval with right status
-                # if we are outside intervals, we can be in right or wrong status, so let's check it
-                # else we are inside the interval with right status so let
-
-                if self._is_inside_interval(state, current_start_idx):
-                    if not self._match_status(current_start_status, required_status):
-                        # we are inside the interval with wrong status, so we can't change it, go next
-                        current_start_idx += 1
-                        current_start_time = state[current_start_idx].time
-                        continue
-                else:
-                    # we are outside the interval, should change status
-                    # check that we can do it
-                    current_start_time += self._config.time_costs[current_start_status, required_status]
-                    end_idx = state.bisect_right(current_start_time + exec_time)
-
-            # here we are guaranteed that current_start_time is in right status
-            # so go right and check matching statuses
-            # this step performed like in MomentumTimeline
-            not_compatible_status_found = False
             for idx in range(end_idx - 1, current_start_idx - 1, -1):
                 if not self._match_status(state[idx].available_workers_count, required_status):
-                    # we're trying to find a new slot that would start with
-                    # either the last index passing the quantity check
-                    # or the index after the execution interval
-                    # we need max here to process a corner case when the problem arises
-                    # on current_start_idx - 1
-                    # without max it would get into infinite cycle
-                    current_start_idx = max(idx, current_start_idx) + 1
-                    not_compatible_status_found = True
+                    current_start_idx = idx + 1
                     break
+            else:
+                return current_start_time
 
-            if not not_compatible_status_found:
-                break
-
-            if current_start_idx >= len(state):
-                # This should be uncommented when there are problems with zone scheduling correctness
-
-                # cur_cpkt = state[-1]
-                # if cur_cpkt.time == current_start_time and not self._match_status(cur_cpkt.available_workers_count,
-                #                                                                   required_status):
-                #     # print('Problem!')
-                #     current_start_time = max(parent_time, state[-1].time + 1)
-                current_start_time = max(parent_time, state[-1].time + 1)
+            if current_start_idx == len(state):
+                current_start_time = last_event.time
                 break
-
             current_start_time = state[current_start_idx].time
 
-        # This should be uncommented when there are problems with zone scheduling correctness
-        self._validate(current_start_time, exec_time, state, required_status)
+        # after the last planned event the status can be changed
+        if not self._match_status(last_event.available_workers_count, required_status):
+            change_cost = self._config.time_costs[last_event.available_workers_count, required_status]
+            current_start_time = max(current_start_time, last_event.time + int(change_cost))
 
         return current_start_time
 
-    # noinspection PyMethodMayBeStatic
-    def _is_inside_interval(self, state: SortedList[ScheduleEvent], idx: int) -> bool:
-        # TODO Make better algorithms to check that we can change status in point `start_time - change_cost`
-        starts_count = 0
-        ends_count = 0
-        # checking from end because it's more realistic to call this function at the almost end of timeline
-        for cpkt in state[idx:]:
-            if cpkt.event_type == EventType.START:
-                starts_count += 1
-            else:
-                ends_count += 1
-        # we are inside the interval with incompatible status, break
-        return starts_count == ends_count
-
     def can_schedule_at_the_moment(self, zones: list[ZoneReq], start_time: Time, exec_time: Time):
-        for zone in zones:
-            state = self._timeline[zone.kind]
-
-            start_idx = state.bisect_right(start_time)
-            end_idx = state.bisect_right(start_time + exec_time)
-            start_status = state[start_idx - 1].available_workers_count
-
-            if not self._match_status(start_status, zone.required_status):
-                # starting status don't match, trying to change status
-                change_cost = self._config.time_costs[start_status, zone.required_status]
-                new_start_idx = state.bisect_right(start_time - change_cost)
-                if new_start_idx != start_idx:
-                    # we have incompatible status inside our interval, break
-                    return False
-
-                if not self._is_inside_interval(state, start_idx):
-                    return False
-
-            # checking all events in between the start and the end of our current task
-            for event in state[start_idx: end_idx]:
-                if not self._match_status(event.available_workers_count, zone.required_status):
-                    return False
-
-        return True
+        return all(self._find_earliest_time_slot(self._timeline[zone.kind], start_time, exec_time,
+                                                 zone.required_status) == start_time
+                   for zone in zones)
 
     def update_timeline(self, index: int, zones: list[Zone], start_time: Time, exec_time: Time) -> list[ZoneTransition]:
         sworks = []
 
         for zone in zones:
-            state = self._timeline[zone.name]
-            start_idx = state.bisect_right(start_time)
-            start_status = state[start_idx - 1].available_workers_count
+            # the status of the zone doesn't matter
+            if zone.status == 0:
+                continue
 
-            # This should be uncommented when there are problems with zone scheduling correctness
-            self._validate(start_time, exec_time, state, zone.status)
-
-            change_cost = self._config.time_costs[start_status, zone.status] \
-                if not self._config.statuses.match_status(start_status, zone.status) \
-                else 0
+            state = self._timeline[zone.name]
+            start_status = self._get_status(state, start_time)
+            change_cost, status = self._change_status(start_status, zone.status)
 
-            state.add(ScheduleEvent(index, EventType.START, start_time - change_cost, None, zone.status))
-            state.add(ScheduleEvent(index, EventType.END, start_time - change_cost + exec_time, None, zone.status))
+            self._add_status(state, status, start_time, start_time + exec_time, change_cost)
 
-            if start_status != zone.status and zone.status != 0:
+            if start_status != status:
                 # if we need to change status, record it
                 sworks.append(ZoneTransition(name=zone.name,
                                              from_status=start_status,
-                                             to_status=zone.status,
+                                             to_status=status,
                                              start_time=start_time - change_cost,
                                              end_time=start_time))
         return sworks
 
+    def _change_status(self, from_status: int, required_status: int) -> tuple[int, int]:
+        """
+        :return: the time needed to meet the required status and the status the zone will have
+        """
+        if self._match_status(from_status, required_status):
+            return 0, from_status
+        return int(self._config.time_costs[from_status, required_status]), required_status
+
+    @staticmethod
+    def _get_status(state: SortedList[ScheduleEvent], time: Time) -> int:
+        idx = state.bisect_right(time) - 1
+        while state[idx].available_workers_count == CHANGING_STATUS:
+            idx -= 1
+        return state[idx].available_workers_count
+
+    def _add_status(self, state: SortedList[ScheduleEvent], status: int, start_time: Time, end_time: Time,
+                    change_cost: int):
+        task_index = self._task_index
+        self._task_index += 1
+        if change_cost > 0:
+            # nobody can use the zone while its status is changing
+            state.add(ScheduleEvent(task_index, EventType.START, start_time - change_cost, None, CHANGING_STATUS))
+        state.add(ScheduleEvent(task_index, EventType.START, start_time, None, status))
+        state.add(ScheduleEvent(task_index, EventType.END, end_time, None, status))
+
     def append_statuses(self, zones: list[Zone]) -> tuple[Time, list[ZoneTransition]]:
         global_finish_time = Time(0)
         sworks = []
 
         for zone in zones:
             state = self._timeline[zone.name]
-            latest_time = state[-1].time + 1
-            latest_status = state[-1].available_workers_time
-            change_cost = self._config.time_costs[latest_status, zone.status] \
-                if not self._config.statuses.match_status(latest_status, zone.status) \
-                else 0
+            latest_time = state[-1].time
+            latest_status = state[-1].available_workers_count
+            change_cost, status = self._change_status(latest_status, zone.status)
             finish_time = latest_time + change_cost
 
-            state.add(ScheduleEvent(Time.inf().value, EventType.START, latest_time, None, zone.status))
-            state.add(ScheduleEvent(Time.inf().value, EventType.END, finish_time, None, zone.status))
+            self._add_status(state, status, finish_time, finish_time, change_cost)
 
-            if latest_status != zone.status and zone.status != 0:
+            if latest_status != status:
                 # if we need to change status, record it
                 sworks.append(ZoneTransition(name=zone.name,
                                              from_status=latest_status,
-                                             to_status=zone.status,
-                                             start_time=latest_time - change_cost,
-                                             end_time=latest_time))
+                                             to_status=status,
+                                             start_time=latest_time,
+                                             end_time=finish_time))
 
             global_finish_time = max(global_finish_time, finish_time)
 
         return global_finish_time, sworks
 
     def finish_statuses(self) -> tuple[Time, list[ZoneTransition]]:
-        return self.append_statuses([Zone(*v) for v in self._config.end_statuses])
+        return self.append_statuses([Zone(*v) for v in self._config.end_statuses.items()])
-- 
2.43.0


From c8b26943a4577220dd67df986b6f743a88f25576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:50 +0000
Subject: [PATCH 54/96] fix: momentum timeline returns the finish time and
 checks zones for the time materials are ready

The serial scheme crashed on any landscape with zones because the finish time was None.
---
 sampo/scheduler/timeline/momentum_timeline.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/sampo/scheduler/timeline/momentum_timeline.py b/sampo/scheduler/timeline/momentum_timeline.py
index d948e21..cb994f1 100644
--- a/sampo/scheduler/timeline/momentum_timeline.py
+++ b/sampo/scheduler/timeline/momentum_timeline.py
@@ -131,10 +131,10 @@ class MomentumTimeline(Timeline):
         if len(worker_team) == 0:
             max_material_time = self._material_timeline.find_min_material_time(node, max_parent_time,
                                                                                node.work_unit.need_materials())
-            max_zone_time = self.zone_timeline.find_min_start_time(node.work_unit.zone_reqs, max_parent_time, exec_time)
+            # the slot in the zones should be found for the time when materials are ready
+            max_zone_time = self.zone_timeline.find_min_start_time(node.work_unit.zone_reqs, max_material_time, exec_time)
 
-            max_parent_time = max(max_parent_time, max_material_time, max_zone_time)
-            return max_parent_time, max_parent_time, exec_times
+            return max_zone_time, max_zone_time, exec_times
 
         if assigned_start_time is not None:
             st = assigned_start_time
@@ -408,8 +408,8 @@ class MomentumTimeline(Timeline):
             exec_times = get_exec_times_from_assigned_time_for_chain(inseparable_chain, assigned_time)
 
         # TODO Decide how to deal with exec_times(maybe we should remove using pre-computed exec_times)
-        self._schedule_with_inseparables(node, node2swork, inseparable_chain, spec,
-                                         workers, contractor, start_time, exec_times)
+        return self._schedule_with_inseparables(node, node2swork, inseparable_chain, spec,
+                                                workers, contractor, start_time, exec_times)
 
     def _schedule_with_inseparables(self,
                                     node: GraphNode,
@@ -454,6 +454,7 @@ class MomentumTimeline(Timeline):
         zones = [zone_req.to_zone() for zone_req in node.work_unit.zone_reqs]
         node2swork[node].zones_pre = self.zone_timeline.update_timeline(len(node2swork), zones, start_time,
                                                                         curr_time - start_time)
+        return curr_time
 
     def _validate(self,
                   finish_time: Time,
-- 
2.43.0


From c8fd284eef2f9eb4557356868118c109d945e6e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:50 +0000
Subject: [PATCH 55/96] fix: just-in-time timeline keeps zones for the time the
 chain really takes

---
 sampo/scheduler/timeline/just_in_time_timeline.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/sampo/scheduler/timeline/just_in_time_timeline.py b/sampo/scheduler/timeline/just_in_time_timeline.py
index 17cc151..9ea0c6f 100644
--- a/sampo/scheduler/timeline/just_in_time_timeline.py
+++ b/sampo/scheduler/timeline/just_in_time_timeline.py
@@ -72,6 +72,8 @@ class JustInTimeTimeline(Timeline):
         inseparable_chain = node.get_inseparable_chain_with_self()
 
         new_finish_time = cur_start_time
+        assigned_exec_times = {} if spec.assigned_time is None else \
+            get_exec_times_from_assigned_time_for_chain(inseparable_chain, spec.assigned_time)
         for dep_node in inseparable_chain:
             # set start time as finish time of original work
             # set finish time as finish time + working time of current node with identical resources
@@ -81,7 +83,10 @@ class JustInTimeTimeline(Timeline):
             dep_parent_time = dep_node.min_start_time(node2swork)
 
             dep_st = max(new_finish_time, dep_parent_time)
-            working_time = work_estimator.estimate_time(dep_node.work_unit, worker_team)
+            if dep_node in assigned_exec_times:
+                _, working_time = assigned_exec_times[dep_node]
+            else:
+                working_time = work_estimator.estimate_time(dep_node.work_unit, worker_team)
             new_finish_time = dep_st + working_time
 
         exec_time = new_finish_time - cur_start_time
@@ -157,7 +162,10 @@ class JustInTimeTimeline(Timeline):
         if not self._material_timeline.can_schedule_at_the_moment(node, start_time,
                                                                   node.work_unit.need_materials()):
             return False
-        if not self.zone_timeline.can_schedule_at_the_moment(node.work_unit.zone_reqs, start_time, exec_time):
+        # works of the chain can wait for their own parents, the zones should be kept meanwhile
+        waiting_time = max(dep_node.min_start_time(node2swork) for dep_node in chain) - start_time
+        if not self.zone_timeline.can_schedule_at_the_moment(node.work_unit.zone_reqs, start_time,
+                                                             exec_time + max(Time(0), waiting_time)):
             return False
 
         return True
-- 
2.43.0


From 560cccf921934053015bde460610903b12c3a87e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:50 +0000
Subject: [PATCH 56/96] fix: serial scheme finishes the statuses of zones as
 all other schedulers do

---
 sampo/scheduler/genetic/converter.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/sampo/scheduler/genetic/converter.py b/sampo/scheduler/genetic/converter.py
index 07c4306..f16a192 100644
--- a/sampo/scheduler/genetic/converter.py
+++ b/sampo/scheduler/genetic/converter.py
@@ -297,6 +297,10 @@ def serial_schedule_generation_scheme(chromosome: ChromosomeType,
         if order_index == 0:  # we are scheduling the work `start of the project`
             st = assigned_parent_time  # this work should always have st = 0, so we just re-assign it
 
+        if order_index == len(works_order) - 1:  # we are scheduling the work `end of the project`
+            finish_time, finalizing_zones = timeline.zone_timeline.finish_statuses()
+            st = max(st, finish_time)
+
         # finish using time spec
         ft = timeline.schedule(node, node2swork, worker_team, contractor, work_spec,
                                st, work_spec.assigned_time, assigned_parent_time, work_estimator)
@@ -311,6 +315,9 @@ def serial_schedule_generation_scheme(chromosome: ChromosomeType,
                                                                                  [z.to_zone() for z in zone_reqs],
                                                                                  zone_start_time, 0)
 
+        if order_index == len(works_order) - 1:  # we are scheduling the work `end of the project`
+            node2swork[node].zones_pre = finalizing_zones
+
     schedule_start_time = min((swork.start_time for swork in node2swork.values() if
                                len(swork.workers) != 0), default=assigned_parent_time)
 
-- 
2.43.0


From e060bb3a2409d58599ca9bb804afee09cf0e6179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:02 +0000
Subject: [PATCH 57/96] fix: works are not inserted before later works of the
 platform, that rely on its materials

---
 sampo/scheduler/timeline/platform_timeline.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sampo/scheduler/timeline/platform_timeline.py b/sampo/scheduler/timeline/platform_timeline.py
index 8a94fa8..d17fbb8 100644
--- a/sampo/scheduler/timeline/platform_timeline.py
+++ b/sampo/scheduler/timeline/platform_timeline.py
@@ -62,7 +62,8 @@ class PlatformTimeline:
             start = platform_state[mat.name].bisect_right(start_time)
             finish = len(platform_state[mat.name])
 
-            if finish - start > 1:
+            # the later works on the platform rely on the amount of material they were planned with
+            if finish - start > 0:
                 return False
 
         return True
-- 
2.43.0


From 627b879ed441d0de5ce45f09598d7b0a52cc354a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:03 +0000
Subject: [PATCH 58/96] fix: supply timelines take from the platform all
 materials of the work, not only delivered ones

---
 sampo/scheduler/timeline/hybrid_supply_timeline.py   | 4 +++-
 sampo/scheduler/timeline/to_start_supply_timeline.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/sampo/scheduler/timeline/hybrid_supply_timeline.py b/sampo/scheduler/timeline/hybrid_supply_timeline.py
index 60be8b5..9307054 100644
--- a/sampo/scheduler/timeline/hybrid_supply_timeline.py
+++ b/sampo/scheduler/timeline/hybrid_supply_timeline.py
@@ -296,7 +296,9 @@ class HybridSupplyTimeline(BaseSupplyTimeline):
 
         # update the platform timeline
         node_mat_req = {mat.name: mat.count for mat in node.work_unit.need_materials()}
-        update_mat_req_info = [(mat.name, node_mat_req[mat.name] - mat.count, finish_delivery_time) for mat in materials]
+        delivered = {mat.name: mat.count for mat in materials}
+        update_mat_req_info = [(name, count - delivered.get(name, 0), finish_delivery_time)
+                               for name, count in node_mat_req.items()]
         self._platform_timeline.update_timeline(platform.id, update_mat_req_info)
 
         # update the supply timeline
diff --git a/sampo/scheduler/timeline/to_start_supply_timeline.py b/sampo/scheduler/timeline/to_start_supply_timeline.py
index c6336b8..fb76294 100644
--- a/sampo/scheduler/timeline/to_start_supply_timeline.py
+++ b/sampo/scheduler/timeline/to_start_supply_timeline.py
@@ -257,7 +257,9 @@ class ToStartSupplyTimeline(BaseSupplyTimeline):
                 update_timeline_info[road_id].append(res_info)
 
         node_mat_req = {mat.name: mat.count for mat in node.work_unit.need_materials()}
-        update_mat_req_info = [(mat.name, node_mat_req[mat.name] - mat.count, finish_delivery_time) for mat in materials]
+        delivered = {mat.name: mat.count for mat in materials}
+        update_mat_req_info = [(name, count - delivered.get(name, 0), finish_delivery_time)
+                               for name, count in node_mat_req.items()]
         self._platform_timeline.update_timeline(platform.id, update_mat_req_info)
 
         self._update_timeline(update_timeline_info)
-- 
2.43.0


From 3b43dab37f8279dd53fcd7f93e6e61123f461677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:03 +0000
Subject: [PATCH 59/96] fix: vehicles of deliveries are booked, roads are
 planned for the time when vehicles really go, by depots with enough vehicles

---
 .../timeline/hybrid_supply_timeline.py        | 34 ++++++++++++-------
 .../timeline/to_start_supply_timeline.py      | 28 ++++++++++-----
 2 files changed, 41 insertions(+), 21 deletions(-)

diff --git a/sampo/scheduler/timeline/hybrid_supply_timeline.py b/sampo/scheduler/timeline/hybrid_supply_timeline.py
index 9307054..4860a6d 100644
--- a/sampo/scheduler/timeline/hybrid_supply_timeline.py
+++ b/sampo/scheduler/timeline/hybrid_supply_timeline.py
@@ -168,7 +168,10 @@ class HybridSupplyTimeline(BaseSupplyTimeline):
                     if holder_state[material.name][ind].available_workers_count >= material.count:
                         materials_available += 1
             #  if all materials are available, great!
-            if materials_available == len(materials):
+            # the depot should have enough vehicles to carry them
+            holder = self._holder_id2holder[holder_id]
+            if materials_available == len(materials) \
+                    and self._get_necessary_vehicles_amount(holder, materials) <= len(holder.vehicles):
                 holders_can_supply_materials.append(holder_id)
 
         if not holders_can_supply_materials:
@@ -219,18 +222,23 @@ class HybridSupplyTimeline(BaseSupplyTimeline):
                 vehicle_count_need = self._get_necessary_vehicles_amount(depot, materials)
                 selected_vehicles = depot.vehicles[:vehicle_count_need]
 
-                # get information about route: start time, deliveries,
-                # time of vehicles routing to platform and back separately
-                route_start_time, deliveries, exec_ahead_time, exec_return_time = \
-                    self._get_route_with_additional(depot.node, platform, selected_vehicles, depot_mat_start_time)
+                while True:
+                    # get information about route: start time, deliveries,
+                    # time of vehicles routing to platform and back separately
+                    route_start_time, deliveries, exec_ahead_time, exec_return_time = \
+                        self._get_route_with_additional(depot.node, platform, selected_vehicles, depot_mat_start_time)
 
-                # get the minimum start time that all required vehicles are available
-                depot_vehicle_start_time = self._find_earliest_start_time(self._timeline[depot.id]['vehicles'],
-                                                                          vehicle_count_need,
-                                                                          route_start_time,
-                                                                          exec_return_time + exec_ahead_time)
+                    # get the minimum start time that all required vehicles are available
+                    depot_vehicle_start_time = self._find_earliest_start_time(self._timeline[depot.id]['vehicles'],
+                                                                              vehicle_count_need,
+                                                                              route_start_time,
+                                                                              exec_return_time + exec_ahead_time)
+                    if depot_vehicle_start_time == route_start_time:
+                        break
+                    # the roads should be free when the vehicles really go
+                    depot_mat_start_time = depot_vehicle_start_time
 
-                yield depot_vehicle_start_time, exec_ahead_time, exec_return_time, depot, deliveries
+                yield depot_vehicle_start_time, exec_ahead_time, exec_return_time, depot, deliveries, selected_vehicles
 
         delivery = MaterialDelivery(node.id)
 
@@ -264,7 +272,8 @@ class HybridSupplyTimeline(BaseSupplyTimeline):
             start_delivery_time += 1
 
             # iterate over depots and find the earliest time when the depot could supply resources
-            for depot_vehicle_start_time, exec_ahead_time, exec_return_time, depot, deliveries in get_finish_time(start_delivery_time):
+            for depot_vehicle_start_time, exec_ahead_time, exec_return_time, depot, deliveries, vehicles \
+                    in get_finish_time(start_delivery_time):
                 # choose the current depot if only it could supply resources earlier than the previous one
                 if finish_delivery_time > deadline and depot_vehicle_start_time + exec_ahead_time < finish_delivery_time \
                         or finish_delivery_time < deadline:
@@ -274,6 +283,7 @@ class HybridSupplyTimeline(BaseSupplyTimeline):
                     selected_depot = depot
 
                     road_deliveries = deliveries
+                    selected_vehicles = vehicles
 
         for mat in materials:
             delivery.add_delivery(mat.name, mat.count, min_depot_time, finish_delivery_time, selected_depot.name)
diff --git a/sampo/scheduler/timeline/to_start_supply_timeline.py b/sampo/scheduler/timeline/to_start_supply_timeline.py
index fb76294..b1e7603 100644
--- a/sampo/scheduler/timeline/to_start_supply_timeline.py
+++ b/sampo/scheduler/timeline/to_start_supply_timeline.py
@@ -140,7 +140,10 @@ class ToStartSupplyTimeline(BaseSupplyTimeline):
                     ind = holder_state[material.name].bisect_left((Time.inf(), -1, EventType.INITIAL)) - 1
                     if holder_state[material.name][ind].available_workers_count >= material.count:
                         materials_available += 1
-            if materials_available == len(materials):
+            # the depot should have enough vehicles to carry them
+            holder = self._holder_id2holder[holder_id]
+            if materials_available == len(materials) \
+                    and self._get_vehicles_need(holder, materials) <= len(holder.vehicles):
                 holders_can_supply_materials.append(holder_id)
 
         if not holders_can_supply_materials:
@@ -188,15 +191,20 @@ class ToStartSupplyTimeline(BaseSupplyTimeline):
                 vehicle_state = self._timeline[depot.id]['vehicles']
                 selected_vehicles = depot.vehicles[:vehicle_count_need]
 
-                route_start_time, deliveries, exec_ahead_time, exec_return_time = \
-                    self._get_route_info(depot.node, platform, selected_vehicles, depot_mat_start_time)
+                while True:
+                    route_start_time, deliveries, exec_ahead_time, exec_return_time = \
+                        self._get_route_info(depot.node, platform, selected_vehicles, depot_mat_start_time)
 
-                depot_vehicle_start_time = self._find_earliest_start_time(vehicle_state,
-                                                                          vehicle_count_need,
-                                                                          route_start_time,
-                                                                          exec_return_time + exec_ahead_time)
+                    depot_vehicle_start_time = self._find_earliest_start_time(vehicle_state,
+                                                                              vehicle_count_need,
+                                                                              route_start_time,
+                                                                              exec_return_time + exec_ahead_time)
+                    if depot_vehicle_start_time == route_start_time:
+                        break
+                    # the roads should be free when the vehicles really go
+                    depot_mat_start_time = depot_vehicle_start_time
 
-                yield depot_vehicle_start_time, exec_ahead_time, exec_return_time, depot, deliveries
+                yield depot_vehicle_start_time, exec_ahead_time, exec_return_time, depot, deliveries, selected_vehicles
 
         delivery = MaterialDelivery(node.id)
 
@@ -224,7 +232,8 @@ class ToStartSupplyTimeline(BaseSupplyTimeline):
             start_delivery_time += 1
 
             local_min_start_time = Time.inf()
-            for depot_vehicle_start_time, exec_ahead_time, exec_return_time, depot, deliveries in get_finish_time(start_delivery_time):
+            for depot_vehicle_start_time, exec_ahead_time, exec_return_time, depot, deliveries, vehicles \
+                    in get_finish_time(start_delivery_time):
                 if local_min_start_time > depot_vehicle_start_time and (finish_delivery_time > deadline
                                                                         and depot_vehicle_start_time + exec_ahead_time < finish_delivery_time
                                                                         or finish_delivery_time < deadline):
@@ -236,6 +245,7 @@ class ToStartSupplyTimeline(BaseSupplyTimeline):
                     selected_depot = depot
 
                     road_deliveries = deliveries
+                    selected_vehicles = vehicles
 
         for mat in materials:
             delivery.add_delivery(mat.name, mat.count, min_depot_time, finish_delivery_time, selected_depot.name)
-- 
2.43.0


From c601d2d74c8ed99d64be08157857f53a882784ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:03 +0000
Subject: [PATCH 60/96] fix: works of chains wait for their platform and
 materials

---
 .../timeline/hybrid_supply_timeline.py        | 15 ++++++-
 sampo/scheduler/timeline/momentum_timeline.py | 41 +++++++++++++++++++
 sampo/scheduler/timeline/platform_timeline.py | 13 ++++++
 .../timeline/to_start_supply_timeline.py      |  3 ++
 4 files changed, 71 insertions(+), 1 deletion(-)

diff --git a/sampo/scheduler/timeline/hybrid_supply_timeline.py b/sampo/scheduler/timeline/hybrid_supply_timeline.py
index 4860a6d..68fb31d 100644
--- a/sampo/scheduler/timeline/hybrid_supply_timeline.py
+++ b/sampo/scheduler/timeline/hybrid_supply_timeline.py
@@ -1,10 +1,11 @@
+import copy
 import math
 from collections import defaultdict
 
 from sortedcontainers import SortedList
 
 from sampo.scheduler.timeline.base import BaseSupplyTimeline
-from sampo.scheduler.timeline.platform_timeline import PlatformTimeline
+from sampo.scheduler.timeline.platform_timeline import PlatformTimeline, copy_events
 from sampo.schemas.exceptions import NotEnoughMaterialsInDepots, NoDepots, NoAvailableResources
 from sampo.schemas.graph import GraphNode
 from sampo.schemas.landscape import LandscapeConfiguration, ResourceHolder, Vehicle, Road, MaterialDelivery
@@ -51,6 +52,15 @@ class HybridSupplyTimeline(BaseSupplyTimeline):
                     for mat in mat_dict.items()
                 }
 
+    def copy(self) -> 'HybridSupplyTimeline':
+        """
+        Returns the timeline that can be used to try deliveries without booking them
+        """
+        timeline = copy.copy(self)
+        timeline._platform_timeline = self._platform_timeline.copy()
+        timeline._timeline = copy_events(self._timeline)
+        return timeline
+
     @staticmethod
     def _get_necessary_vehicles_amount(depot: ResourceHolder, materials: list[Material]) -> int:
         vehicle_capacity = depot.vehicles[0].capacity
@@ -188,6 +198,9 @@ class HybridSupplyTimeline(BaseSupplyTimeline):
         if not materials or node.work_unit.is_service_unit:
             return MaterialDelivery(node.id), deadline
 
+        # works of the chain can start only when the platform can be used
+        deadline, _ = self._platform_timeline.find_min_material_time_with_additional(node, deadline, materials)
+
         # if the platform could allocate resources, then delivery is not needed and we return start time
         if self._platform_timeline.can_provide_resources(node, deadline, materials):
             return MaterialDelivery(node.id), deadline
diff --git a/sampo/scheduler/timeline/momentum_timeline.py b/sampo/scheduler/timeline/momentum_timeline.py
index cb994f1..fc9df38 100644
--- a/sampo/scheduler/timeline/momentum_timeline.py
+++ b/sampo/scheduler/timeline/momentum_timeline.py
@@ -138,6 +138,7 @@ class MomentumTimeline(Timeline):
 
         if assigned_start_time is not None:
             st = assigned_start_time
+            exec_times, exec_time = self._wait_for_materials(inseparable_chain, st, exec_times)
         else:
             # we can't just use max() of all times we found from different constraints
             # because start time shifting can corrupt time slots we found from every constraint
@@ -159,7 +160,15 @@ class MomentumTimeline(Timeline):
                                                                    exec_time)
                 if zone_time > cur_start_time:
                     cur_start_time = zone_time
+                    continue
+
+                # the slot should be long enough for works of the chain that wait for their materials
+                chain_exec_times, chain_exec_time = self._wait_for_materials(inseparable_chain, cur_start_time,
+                                                                             exec_times)
+                if chain_exec_time > exec_time:
+                    exec_time = chain_exec_time
                 else:
+                    exec_times, exec_time = chain_exec_times, chain_exec_time
                     found_earliest_time = True
 
             st = cur_start_time
@@ -167,6 +176,38 @@ class MomentumTimeline(Timeline):
         self._validate(st + exec_time, exec_time, worker_team)
         return st, st + exec_time, exec_times
 
+    def _wait_for_materials(self,
+                            inseparable_chain: list[GraphNode],
+                            start_time: Time,
+                            exec_times: dict[GraphNode, tuple[Time, Time]]) \
+            -> tuple[dict[GraphNode, tuple[Time, Time]], Time]:
+        """
+        Adds the time when works of the chain wait for their materials to the lags of the works
+
+        :param inseparable_chain: works of the chain
+        :param start_time: the time when the chain starts
+        :param exec_times: lags and execution times of the works
+        :return: lags and execution times of the works, the execution time of the whole chain
+        """
+        if any(node.work_unit.need_materials() for node in inseparable_chain[1:]):
+            material_timeline = self._material_timeline.copy()
+        else:
+            material_timeline = None
+
+        cur_time = start_time
+        chain_exec_times: dict[GraphNode, tuple[Time, Time]] = {}
+        for node in inseparable_chain:
+            lag, node_exec_time = exec_times[node]
+            node_start_time = cur_time + lag
+            if material_timeline is not None:
+                _, material_time = material_timeline.deliver_resources(node, node_start_time,
+                                                                       node.work_unit.need_materials())
+                node_start_time = max(node_start_time, material_time)
+            chain_exec_times[node] = node_start_time - cur_time, node_exec_time
+            cur_time = node_start_time + node_exec_time
+
+        return chain_exec_times, cur_time - start_time
+
     def _find_min_start_time(self,
                              resource_timeline: dict[str, SortedList[ScheduleEvent]],
                              inseparable_chain: list[GraphNode],
diff --git a/sampo/scheduler/timeline/platform_timeline.py b/sampo/scheduler/timeline/platform_timeline.py
index d17fbb8..24cab18 100644
--- a/sampo/scheduler/timeline/platform_timeline.py
+++ b/sampo/scheduler/timeline/platform_timeline.py
@@ -1,3 +1,4 @@
+import copy
 import uuid
 
 from sortedcontainers import SortedList
@@ -10,6 +11,13 @@ from sampo.schemas.time import Time
 from sampo.schemas.types import ScheduleEvent, EventType
 
 
+def copy_events(timeline: dict[str, dict[str, SortedList[ScheduleEvent]]]) \
+        -> dict[str, dict[str, SortedList[ScheduleEvent]]]:
+    return {holder: {name: SortedList(iterable=[copy.copy(event) for event in state], key=state.key)
+                     for name, state in states.items()}
+            for holder, states in timeline.items()}
+
+
 class PlatformTimeline:
     def __init__(self, landscape_config: LandscapeConfiguration):
 
@@ -39,6 +47,11 @@ class PlatformTimeline:
                 for mat in mat_dict.items()
             }
 
+    def copy(self) -> 'PlatformTimeline':
+        timeline = copy.copy(self)
+        timeline._timeline = copy_events(self._timeline)
+        return timeline
+
     def can_schedule_at_the_moment(self, node: GraphNode, start_time: Time,
                                    materials: list[Material]) -> bool:
         if not node.work_unit.need_materials():
diff --git a/sampo/scheduler/timeline/to_start_supply_timeline.py b/sampo/scheduler/timeline/to_start_supply_timeline.py
index b1e7603..ece4f08 100644
--- a/sampo/scheduler/timeline/to_start_supply_timeline.py
+++ b/sampo/scheduler/timeline/to_start_supply_timeline.py
@@ -160,6 +160,9 @@ class ToStartSupplyTimeline(BaseSupplyTimeline):
         if not node.work_unit.need_materials():
             return MaterialDelivery(node.id), deadline
 
+        # works of the chain can start only when the platform can be used
+        deadline, _ = self._platform_timeline.find_min_material_time_with_additional(node, deadline, materials)
+
         if self._platform_timeline.can_provide_resources(node, deadline, materials):
             return MaterialDelivery(node.id), deadline
 
-- 
2.43.0


From cf14dc7769ddc12074958e40a3cf0cd84ec78541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:02 +0000
Subject: [PATCH 61/96] fix: timeline of a search knows all workers of
 contractors, not only those left by the best solution

---
 sampo/scheduler/genetic/converter.py          | 27 +++++++++++++++++--
 .../timeline/just_in_time_timeline.py         |  6 +++++
 sampo/scheduler/timeline/momentum_timeline.py |  7 +++++
 3 files changed, 38 insertions(+), 2 deletions(-)

diff --git a/sampo/scheduler/genetic/converter.py b/sampo/scheduler/genetic/converter.py
index f16a192..42d9e1c 100644
--- a/sampo/scheduler/genetic/converter.py
+++ b/sampo/scheduler/genetic/converter.py
@@ -125,6 +125,19 @@ def convert_chromosome_to_schedule(chromosome: ChromosomeType,
                      work_estimator)
 
 
+def _add_spare_workers(timeline: JustInTimeTimeline | MomentumTimeline,
+                       full_worker_pool: WorkerContractorPool,
+                       worker_pool: WorkerContractorPool):
+    """
+    Makes workers, that contractors have but the chromosome did not use, available for the next works on the timeline
+    """
+    for worker_name, offers in full_worker_pool.items():
+        for contractor_id, worker in offers.items():
+            spare_count = int(worker.count - worker_pool[worker_name][contractor_id].count)
+            if spare_count > 0:
+                timeline.add_workers(contractor_id, worker_name, spare_count)
+
+
 def parallel_schedule_generation_scheme(chromosome: ChromosomeType,
                                         worker_pool: WorkerContractorPool,
                                         index2node: dict[int, GraphNode],
@@ -148,6 +161,7 @@ def parallel_schedule_generation_scheme(chromosome: ChromosomeType,
     border = chromosome[2]
     spec = chromosome[3]
     zone_statuses = chromosome[4]
+    full_worker_pool = worker_pool
     worker_pool = copy.deepcopy(worker_pool)
 
     # use 3rd part of chromosome in schedule generator
@@ -156,7 +170,8 @@ def parallel_schedule_generation_scheme(chromosome: ChromosomeType,
             worker_pool[worker_index][contractor_index].with_count(border[contractor2index[contractor_index],
             worker_name2index[worker_index]])
 
-    if not isinstance(timeline, JustInTimeTimeline):
+    own_timeline = not isinstance(timeline, JustInTimeTimeline)
+    if own_timeline:
         timeline = JustInTimeTimeline(worker_pool, landscape)
 
     order_nodes = []
@@ -235,6 +250,9 @@ def parallel_schedule_generation_scheme(chromosome: ChromosomeType,
         enumerated_works_remaining.remove_if(work_scheduled)
         ckpt_idx = min(ckpt_idx + 1, len(work_timeline))
 
+    if own_timeline:
+        _add_spare_workers(timeline, full_worker_pool, worker_pool)
+
     return node2swork, assigned_parent_time, timeline, order_nodes
 
 
@@ -261,6 +279,7 @@ def serial_schedule_generation_scheme(chromosome: ChromosomeType,
     border = chromosome[2]
     spec = chromosome[3]
     zone_statuses = chromosome[4]
+    full_worker_pool = worker_pool
     worker_pool = copy.deepcopy(worker_pool)
 
     # use 3rd part of chromosome in schedule generator
@@ -269,7 +288,8 @@ def serial_schedule_generation_scheme(chromosome: ChromosomeType,
             worker_pool[worker_index][contractor_index].with_count(border[contractor2index[contractor_index],
             worker_name2index[worker_index]])
 
-    if not isinstance(timeline, MomentumTimeline):
+    own_timeline = not isinstance(timeline, MomentumTimeline)
+    if own_timeline:
         timeline = MomentumTimeline(worker_pool, landscape)
 
     order_nodes = []
@@ -321,4 +341,7 @@ def serial_schedule_generation_scheme(chromosome: ChromosomeType,
     schedule_start_time = min((swork.start_time for swork in node2swork.values() if
                                len(swork.workers) != 0), default=assigned_parent_time)
 
+    if own_timeline:
+        _add_spare_workers(timeline, full_worker_pool, worker_pool)
+
     return node2swork, schedule_start_time, timeline, order_nodes
diff --git a/sampo/scheduler/timeline/just_in_time_timeline.py b/sampo/scheduler/timeline/just_in_time_timeline.py
index 9ea0c6f..cc884f2 100644
--- a/sampo/scheduler/timeline/just_in_time_timeline.py
+++ b/sampo/scheduler/timeline/just_in_time_timeline.py
@@ -32,6 +32,12 @@ class JustInTimeTimeline(Timeline):
         self._material_timeline = HybridSupplyTimeline(landscape)
         self.zone_timeline = ZoneTimeline(landscape.zone_config)
 
+    def add_workers(self, contractor_id: str, worker_name: str, count: int):
+        """
+        Adds `count` workers of the contractor that were free all the time
+        """
+        self._timeline[(contractor_id, worker_name)].append((Time(0), count))
+
     def find_min_start_time_with_additional(self, node: GraphNode,
                                             worker_team: list[Worker],
                                             node2swork: dict[GraphNode, ScheduledWork],
diff --git a/sampo/scheduler/timeline/momentum_timeline.py b/sampo/scheduler/timeline/momentum_timeline.py
index fc9df38..b4a191f 100644
--- a/sampo/scheduler/timeline/momentum_timeline.py
+++ b/sampo/scheduler/timeline/momentum_timeline.py
@@ -71,6 +71,13 @@ class MomentumTimeline(Timeline):
         self._material_timeline = HybridSupplyTimeline(landscape)
         self.zone_timeline = ZoneTimeline(landscape.zone_config)
 
+    def add_workers(self, contractor_id: str, worker_name: str, count: int):
+        """
+        Adds `count` workers of the contractor that were free all the time
+        """
+        for event in self._timeline[contractor_id][worker_name]:
+            event.available_workers_count += count
+
     def find_min_start_time_with_additional(self,
                                             node: GraphNode,
                                             worker_team: list[Worker],
-- 
2.43.0


From e0355b62e895d7b2b384d4d70fa7a0fcecbe4d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:20 +0000
Subject: [PATCH 62/96] fix: heuristics of the hybrid search pass the order of
 works to the chromosome

---
 sampo/hybrid/population.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sampo/hybrid/population.py b/sampo/hybrid/population.py
index 0c635da..ab202f6 100644
--- a/sampo/hybrid/population.py
+++ b/sampo/hybrid/population.py
@@ -49,6 +49,7 @@ class HeuristicPopulationScheduler(PopulationScheduler):
         toolbox = create_toolbox(wg=wg, contractors=contractors,
                                  spec=spec, assigned_parent_time=assigned_parent_time,
                                  landscape=landscape)
-        return [toolbox.Individual(toolbox.schedule_to_chromosome(schedule=schedule))
+        return [toolbox.Individual(toolbox.schedule_to_chromosome(schedule=schedule, spec=spec, order=node_order))
                 for scheduler in self._schedulers
-                for schedule in scheduler.schedule(wg, contractors, spec, landscape=landscape)]
+                for schedule, _, _, node_order in scheduler.schedule_with_cache(wg, contractors, spec,
+                                                                                landscape=landscape)]
-- 
2.43.0


From c0127a32a3492f6577b920ac9205eb20367455b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:55 +0000
Subject: [PATCH 63/96] fix: hybrid search evaluates populations on its own
 project

---
 sampo/hybrid/cycle.py | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/sampo/hybrid/cycle.py b/sampo/hybrid/cycle.py
index 79e2204..39a4ea2 100644
--- a/sampo/hybrid/cycle.py
+++ b/sampo/hybrid/cycle.py
@@ -20,27 +20,35 @@ class CycleHybridScheduler:
         self._fitness = fitness
         self._max_plateau_size = max_plateau_size
 
-    def _get_population_fitness(self, pop: list[ChromosomeType]):
-        # return best chromosome's fitness
-        return min(SAMPO.backend.compute_chromosomes(self._fitness, pop))
-
-    def _get_best_individual(self, pop: list[ChromosomeType]) -> ChromosomeType:
-        fitness = SAMPO.backend.compute_chromosomes(self._fitness, pop)
-        return pop[np.argmin(fitness)]
+    def _evaluate(self,
+                  pop: list[ChromosomeType],
+                  wg: WorkGraph,
+                  contractors: list[Contractor],
+                  spec: ScheduleSpec,
+                  assigned_parent_time: Time,
+                  sgs_type: ScheduleGenerationScheme,
+                  landscape: LandscapeConfiguration) -> list[tuple[int | float]]:
+        # the backend keeps the project it was used for last time, and schedulers of the cycle set their own parameters
+        SAMPO.backend.cache_scheduler_info(wg, contractors, landscape, spec)
+        SAMPO.backend.cache_genetic_info(assigned_parent_time=assigned_parent_time, sgs_type=sgs_type,
+                                         fitness_weights=(-1,))
+        return SAMPO.backend.compute_chromosomes(self._fitness, pop)
 
     def run(self,
             wg: WorkGraph,
             contractors: list[Contractor],
             spec: ScheduleSpec = ScheduleSpec(),
             assigned_parent_time: Time = Time(0),
-            landscape: LandscapeConfiguration = LandscapeConfiguration()) -> ChromosomeType:
+            landscape: LandscapeConfiguration = LandscapeConfiguration(),
+            sgs_type: ScheduleGenerationScheme = ScheduleGenerationScheme.Parallel) -> ChromosomeType:
         pop = self._starting_scheduler.schedule([], wg, contractors, spec, assigned_parent_time, landscape)
 
         cur_fitness = Time.inf().value
         plateau_steps = 0
 
         while True:
-            pop_fitness = self._get_population_fitness(pop)
+            fitness = self._evaluate(pop, wg, contractors, spec, assigned_parent_time, sgs_type, landscape)
+            pop_fitness = min(fitness)
             if pop_fitness == cur_fitness:
                 plateau_steps += 1
                 if plateau_steps == self._max_plateau_size:
@@ -52,7 +60,7 @@ class CycleHybridScheduler:
             for scheduler in self._cycle_schedulers:
                 pop = scheduler.schedule(pop, wg, contractors, spec, assigned_parent_time, landscape)
 
-        return self._get_best_individual(pop)
+        return pop[np.argmin(fitness)]
 
     def schedule(self,
                  wg: WorkGraph,
@@ -61,7 +69,7 @@ class CycleHybridScheduler:
                  assigned_parent_time: Time = Time(0),
                  sgs_type: ScheduleGenerationScheme = ScheduleGenerationScheme.Parallel,
                  landscape: LandscapeConfiguration = LandscapeConfiguration()) -> Schedule:
-        best_ind = self.run(wg, contractors, spec, assigned_parent_time, landscape)
+        best_ind = self.run(wg, contractors, spec, assigned_parent_time, landscape, sgs_type)
 
         toolbox = create_toolbox(wg=wg, contractors=contractors, landscape=landscape,
                                  assigned_parent_time=assigned_parent_time, spec=spec,
-- 
2.43.0


From 9328370987bfa10e690d39acf010c3ae06cc7543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:55 +0000
Subject: [PATCH 64/96] fix: hybrid search ends and returns the best individual
 it has evaluated

---
 sampo/hybrid/cycle.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/sampo/hybrid/cycle.py b/sampo/hybrid/cycle.py
index 39a4ea2..f1e5309 100644
--- a/sampo/hybrid/cycle.py
+++ b/sampo/hybrid/cycle.py
@@ -1,5 +1,3 @@
-import numpy as np
-
 from sampo.api.genetic_api import FitnessFunction, ChromosomeType, ScheduleGenerationScheme
 from sampo.base import SAMPO
 from sampo.hybrid.population import PopulationScheduler
@@ -43,24 +41,28 @@ class CycleHybridScheduler:
             sgs_type: ScheduleGenerationScheme = ScheduleGenerationScheme.Parallel) -> ChromosomeType:
         pop = self._starting_scheduler.schedule([], wg, contractors, spec, assigned_parent_time, landscape)
 
-        cur_fitness = Time.inf().value
+        best_ind = None
+        best_fitness = None
         plateau_steps = 0
 
         while True:
             fitness = self._evaluate(pop, wg, contractors, spec, assigned_parent_time, sgs_type, landscape)
-            pop_fitness = min(fitness)
-            if pop_fitness == cur_fitness:
+            pop_best = min(range(len(pop)), key=lambda i: fitness[i])
+
+            # schedulers of the cycle may lose the best individual, so remember it and wait for the real improvement
+            if best_ind is None or fitness[pop_best] < best_fitness:
+                plateau_steps = 0
+                best_ind = pop[pop_best]
+                best_fitness = fitness[pop_best]
+            else:
                 plateau_steps += 1
-                if plateau_steps == self._max_plateau_size:
+                if plateau_steps >= self._max_plateau_size:
                     break
-            else:
-                plateau_steps = 0
-                cur_fitness = pop_fitness
 
             for scheduler in self._cycle_schedulers:
                 pop = scheduler.schedule(pop, wg, contractors, spec, assigned_parent_time, landscape)
 
-        return pop[np.argmin(fitness)]
+        return best_ind
 
     def schedule(self,
                  wg: WorkGraph,
-- 
2.43.0


From 8eee64e720c1c41b25456957e23fd9db84455300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:31 +0000
Subject: [PATCH 65/96] fix: neighbours of a landscape may be connected by
 several roads

---
 sampo/schemas/landscape.py       | 17 ++++++++++-------
 sampo/schemas/landscape_graph.py |  2 +-
 2 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/sampo/schemas/landscape.py b/sampo/schemas/landscape.py
index ca362e4..593d07a 100644
--- a/sampo/schemas/landscape.py
+++ b/sampo/schemas/landscape.py
@@ -140,8 +140,8 @@ class LandscapeConfiguration:
 
         return [self.road_mx[path[v - 1]][path[v]] for v in range(len(path) - 1, 0, -1)]
 
-    def _dijkstra(self, node_ind: int, distances: list[float], path_mx: np.ndarray, roads_available_set: set[str]) \
-            -> np.ndarray:
+    def _dijkstra(self, node_ind: int, distances: list[float], path_mx: np.ndarray, roads_available_set: set[str],
+                  road_to: dict[int, str]) -> np.ndarray:
         prior_queue = [(.0, node_ind)]
         distances[node_ind] = 0
 
@@ -159,6 +159,7 @@ class LandscapeConfiguration:
                 if d < distances[finish_ind]:
                     distances[finish_ind] = d
                     path_mx[node_ind][finish_ind] = v
+                    road_to[finish_ind] = road.id
                     heapq.heappush(prior_queue, (d, finish_ind))
         return path_mx
 
@@ -183,7 +184,9 @@ class LandscapeConfiguration:
 
         from_ind = self._node2ind[from_node]
         to_ind = self._node2ind[to_node]
-        path_mx = self._dijkstra(to_ind, distances, path_mx, roads_available_set)
+        # neighbours can be connected by several roads, so remember the exact ones
+        road_to: dict[int, str] = {}
+        path_mx = self._dijkstra(to_ind, distances, path_mx, roads_available_set, road_to)
 
         if path_mx[to_ind][from_ind] == -1:
             return []
@@ -195,7 +198,7 @@ class LandscapeConfiguration:
             fr = path_mx[to_ind][fr]
         path.append(to_ind)
 
-        return [self.road_mx[path[v]][path[v + 1]] for v in range(len(path) - 1)]
+        return [road_to[v] for v in path[:-1]]
 
     @cached_property
     def holders(self) -> list[ResourceHolder]:
@@ -248,9 +251,9 @@ class LandscapeConfiguration:
                     path_mx[v][u] = 0
                 elif dist_mx[v][u] != np.inf:
                     path_mx[v][u] = v
-                    for road in self.lg.nodes[v].roads:
-                        if self.lg.node2ind[road.finish] == u:
-                            road_mx[v][u] = road.id
+                    road_mx[v][u] = min((road for road in self.lg.nodes[v].roads
+                                         if self.lg.node2ind[road.finish] == u),
+                                        key=lambda road: road.weight).id
                 else:
                     path_mx[v][u] = -1
 
diff --git a/sampo/schemas/landscape_graph.py b/sampo/schemas/landscape_graph.py
index 828be0e..ef7e9d1 100644
--- a/sampo/schemas/landscape_graph.py
+++ b/sampo/schemas/landscape_graph.py
@@ -140,6 +140,6 @@ class LandGraph:
         for v, i in node2ind.items():
             for child in v.roads:
                 c_i = node2ind[child.finish]
-                adj_mtrx[i, c_i] = child.weight
+                adj_mtrx[i, c_i] = min(adj_mtrx[i, c_i], child.weight)
 
         return adj_mtrx, node2ind, id2ind
-- 
2.43.0


From eb5253ec5f45e74d28cd6d6b0aa4b7df309ab498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:04 +0000
Subject: [PATCH 66/96] fix: nodes of a landscape have ids of their own and
 take neighbours at construction

---
 sampo/schemas/landscape_graph.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sampo/schemas/landscape_graph.py b/sampo/schemas/landscape_graph.py
index ef7e9d1..5ae18c4 100644
--- a/sampo/schemas/landscape_graph.py
+++ b/sampo/schemas/landscape_graph.py
@@ -38,7 +38,7 @@ class ResourceStorageUnit:
 
 class LandGraphNode:
     def __init__(self,
-                 id: str = str(uuid.uuid4()),
+                 id: str | None = None,
                  name: str = 'platform',
                  resource_storage_unit: ResourceStorageUnit = ResourceStorageUnit(),
                  neighbour_nodes: list[tuple['LandGraphNode', float, int]] | None = None,
@@ -50,11 +50,11 @@ class LandGraphNode:
         :param resource_storage_unit: object that saves info about the resources in the current node
         (in other words platform)
         """
-        self.id = id
+        self.id = id if id is not None else str(uuid.uuid4())
         self.name = name
+        self._roads: list[LandEdge] = []
         if not (neighbour_nodes is None):
             self.add_neighbours(neighbour_nodes)
-        self._roads: list[LandEdge] = []
         self.nodes: list['GraphNode'] = []
         if works is not None:
             self.nodes.extend(works) if isinstance(works, list) else self.nodes.append(works)
-- 
2.43.0


From cb7d306ed365f25359f89a6fefeeb2521631c0e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:14 +0000
Subject: [PATCH 67/96] fix: whole numbers are drawn inside their interval,
 which may be infinite

---
 sampo/schemas/interval.py | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/sampo/schemas/interval.py b/sampo/schemas/interval.py
index 7aec4cc..86bcad9 100644
--- a/sampo/schemas/interval.py
+++ b/sampo/schemas/interval.py
@@ -1,3 +1,4 @@
+import math
 import random
 from abc import abstractmethod, ABC
 from dataclasses import dataclass
@@ -7,7 +8,7 @@ from typing import Optional
 from sampo.schemas.serializable import AutoJSONSerializable
 
 # to work with float and avoid errors due to inaccuracy
-EPS = 1e5
+EPS = 1e-5
 # to work with distributions when certain start and finish value is undefined
 INF = float('inf')
 MINUS_INF = float('-inf')
@@ -42,6 +43,17 @@ class Interval(AutoJSONSerializable['BaseReq'], ABC):
         ...
 
 
+def _clamp_int(value: int, min_val: float, max_val: float) -> int:
+    """
+    Moves the value into the borders, that may be infinite
+    """
+    if min_val > MINUS_INF:
+        value = max(value, math.ceil(min_val - EPS))
+    if max_val < INF:
+        value = min(value, math.floor(max_val + EPS))
+    return value
+
+
 @dataclass(frozen=True)
 class IntervalUniform(Interval):
     """
@@ -74,10 +86,7 @@ class IntervalUniform(Interval):
         """
         rand = rand or self.rand
         value = round(rand.uniform(self.min_val, self.max_val))
-        # TODO fix cast math.inf to int
-        value = max(value, int(self.min_val - EPS))
-        value = min(value, int(self.max_val + EPS))
-        return value
+        return _clamp_int(value, self.min_val, self.max_val)
 
 
 @dataclass(frozen=True)
@@ -121,7 +130,4 @@ class IntervalGaussian(Interval):
         """
         rand = rand or self.rand
         value = round(rand.gauss(self.mean, self.sigma))
-        # TODO fix cast math.inf to int
-        value = max(value, int(self.min_val - EPS))
-        value = min(value, int(self.max_val + EPS))
-        return value
+        return _clamp_int(value, self.min_val, self.max_val)
-- 
2.43.0


From 4c21a2b29cf58f021cb9fb0a4fbcc315fb2211fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:20 +0000
Subject: [PATCH 68/96] fix: generated graphs keep to the borders of works and
 the number of clusters

---
 sampo/generator/pipeline/project.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/sampo/generator/pipeline/project.py b/sampo/generator/pipeline/project.py
index 5e47c99..5097fea 100644
--- a/sampo/generator/pipeline/project.py
+++ b/sampo/generator/pipeline/project.py
@@ -8,6 +8,10 @@ from sampo.generator.pipeline.cluster import get_cluster_works, _add_addition_wo
 from sampo.schemas.graph import GraphNode, WorkGraph
 
 
+# the start and the finish of the project
+SERVICE_WORKS_COUNT = 2
+
+
 def get_small_graph(cluster_name: str | None = 'C1', rand: Random | None = None) -> WorkGraph:
     """
     Creates a small graph of works consisting of 30-50 vertices
@@ -101,12 +105,15 @@ def get_graph(mode: SyntheticGraphType | None = SyntheticGraphType.GENERAL,
     stages = []
 
     while True:
-        if cluster_counts > 0 and cluster_counts == len(stages) - 1:
+        if cluster_counts > 0 and cluster_counts == len(stages) + 1:
             addition_cluster_probability = 0
 
         checkpoints, roads, count_works = _get_cluster_graph(f'{cluster_name_prefix}{masters_clusters_ind}',
                                                              addition_cluster_probability=addition_cluster_probability,
                                                              rand=rand)
+        if 0 < top_border < count_works + works_generated + SERVICE_WORKS_COUNT:
+            break
+
         root_stage = get_root_stage(stages, branching_probability, rand)
         if root_stage is not None:
             for checkpoint in checkpoints:
@@ -116,11 +123,10 @@ def get_graph(mode: SyntheticGraphType | None = SyntheticGraphType.GENERAL,
         masters_clusters_ind += 1
         works_generated += count_works
 
-        if (0 < bottom_border <= works_generated or 0 < top_border < count_works + works_generated
-                or 0 < cluster_counts <= (len(stages) - 1)):
+        if 0 < bottom_border <= works_generated or 0 < cluster_counts <= len(stages):
             break
 
-    if len(stages) == 1:
+    if len(stages) == 0:
         return get_small_graph(cluster_name=f'{cluster_name_prefix}1', rand=rand)
 
     nodes = [road for _, roads in stages for road in roads.values()]
-- 
2.43.0


From 5d0dc519067e4262a87a9a4098a0cbd3e4dc373f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:35 +0000
Subject: [PATCH 69/96] fix: neighbours of a node of a landscape follow the
 roads built later

---
 sampo/schemas/landscape_graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sampo/schemas/landscape_graph.py b/sampo/schemas/landscape_graph.py
index 5ae18c4..0d9b38a 100644
--- a/sampo/schemas/landscape_graph.py
+++ b/sampo/schemas/landscape_graph.py
@@ -63,7 +63,7 @@ class LandGraphNode:
     def __hash__(self):
         return hash(self.id)
 
-    @cached_property
+    @property
     def neighbours(self) -> list['LandGraphNode']:
         if self._roads:
             return [neighbour_edge.finish for neighbour_edge in self._roads]
-- 
2.43.0


From 28ef2e951c978784c1dbf406267cc028204a4d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:35 +0000
Subject: [PATCH 70/96] fix: works get as many kinds of materials as asked for

---
 sampo/generator/base.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/sampo/generator/base.py b/sampo/generator/base.py
index 624149d..07a7dbd 100644
--- a/sampo/generator/base.py
+++ b/sampo/generator/base.py
@@ -88,20 +88,19 @@ class SimpleSynthetic:
         """
         if materials_name is None:
             materials_name = ['stone', 'brick', 'sand', 'rubble', 'concrete', 'metal']
-            bottom_border = 2
-            top_border = 6
-        else:
             if bottom_border is None:
-                bottom_border = len(materials_name) // 2
-            if top_border is None:
-                top_border = len(materials_name)
+                bottom_border = 2 if top_border is None else min(2, top_border)
+        if top_border is None:
+            top_border = len(materials_name)
+        if bottom_border is None:
+            bottom_border = min(len(materials_name) // 2, top_border)
 
         if bottom_border > len(materials_name) or top_border > len(materials_name):
             raise ValueError('The borders are out of the range of materials_name')
 
         for node in wg.nodes:
             if not node.work_unit.is_service_unit:
-                work_materials = list(dict.fromkeys(self._rand.choices(materials_name, k=self._rand.randint(bottom_border, top_border))))
+                work_materials = self._rand.sample(materials_name, self._rand.randint(bottom_border, top_border))
                 node.work_unit.material_reqs = [MaterialReq(name, self._rand.randint(52, 345), name) for name in
                                                 work_materials]
 
-- 
2.43.0


From 96d70bcbd2b782c50c833652b455c3597c1a1957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:35 +0000
Subject: [PATCH 71/96] fix: vehicles of a generated site carry every material

---
 sampo/generator/environment/landscape.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sampo/generator/environment/landscape.py b/sampo/generator/environment/landscape.py
index 1edea2f..dfb97f8 100644
--- a/sampo/generator/environment/landscape.py
+++ b/sampo/generator/environment/landscape.py
@@ -166,7 +166,7 @@ def get_landscape_by_wg(wg: WorkGraph, rnd: random.Random) -> LandscapeConfigura
         holders.append(ResourceHolder(str(uuid.uuid4()), holders_node[-1].name,
                                       vehicles=[
                                           Vehicle(str(uuid.uuid4()), f'vehicle{j}',
-                                                  [Material(name, name, count // 2)
+                                                  [Material(name, name, max(count // 2, 1))
                                                    for name, count in max_materials.items()])
                                           for j in range(vehicles_number)
                                       ], node=holders_node[-1]))
-- 
2.43.0


From 520c8b4e3d9f2d45921809a88d50b912c077f2b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:17 +0000
Subject: [PATCH 72/96] fix: samples do not depend on the hash seed

---
 sampo/utilities/sampler/requirements.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sampo/utilities/sampler/requirements.py b/sampo/utilities/sampler/requirements.py
index 2bbeb2d..d9a6971 100644
--- a/sampo/utilities/sampler/requirements.py
+++ b/sampo/utilities/sampler/requirements.py
@@ -19,7 +19,7 @@ def get_worker_reqs_list(rand: random.Random,
                          volume: Optional[MinMax[int]] = MinMax[int](1, 50),
                          worker_count: Optional[MinMax[int]] = MinMax[int](1, 100)
                          ) -> list[WorkerReq]:
-    names: list[WorkerSpecialization] = list(WORKER_TYPES)
+    names: list[WorkerSpecialization] = sorted(WORKER_TYPES)
     rand.shuffle(names)
     req_count = rand.randint(1, len(names))
     names = names[:req_count]
-- 
2.43.0


From 0d24c805b3a5fec9a195a422cda585075f2c3920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:17 +0000
Subject: [PATCH 73/96] fix: a work similar to another has a model name of its
 own

---
 sampo/utilities/sampler/works.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sampo/utilities/sampler/works.py b/sampo/utilities/sampler/works.py
index eecb27d..61623b0 100644
--- a/sampo/utilities/sampler/works.py
+++ b/sampo/utilities/sampler/works.py
@@ -28,6 +28,6 @@ def get_similar_work_unit(rand: random.Random,
                           work_id: str = '') -> WorkUnit:
     reqs = [req.scale_all(scalar) for req in exemplar.worker_reqs]
     work_id = work_id or uuid_str(rand)
-    model_name = model_name or exemplar.model_name
+    model_name = model_name or dict(exemplar.model_name)
     return WorkUnit(work_id, model_name, worker_reqs=reqs, group=exemplar.group,
                     volume=exemplar.volume * scalar)
-- 
2.43.0


From b7301fed219fd6d0fd2dbc8d791d107303349138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:42 +0000
Subject: [PATCH 74/96] fix: multi-agent modelling does not need the neural
 network libraries

---
 sampo/scheduler/multi_agency/multi_agency.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/sampo/scheduler/multi_agency/multi_agency.py b/sampo/scheduler/multi_agency/multi_agency.py
index 5eef6fa..4ec534f 100644
--- a/sampo/scheduler/multi_agency/multi_agency.py
+++ b/sampo/scheduler/multi_agency/multi_agency.py
@@ -1,15 +1,15 @@
+from __future__ import annotations
+
 from copy import deepcopy
 from dataclasses import dataclass
-from typing import Callable
+from typing import Callable, TYPE_CHECKING
 
 import numpy as np
-import torch
 
 from sampo.scheduler.base import Scheduler
 from sampo.scheduler.generic import GenericScheduler
 from sampo.scheduler.multi_agency.block_graph import BlockGraph, BlockNode
 from sampo.scheduler.multi_agency.exception import NoSufficientAgents
-from sampo.scheduler.selection.neural_net import NeuralNetTrainer
 from sampo.scheduler.timeline.base import Timeline
 from sampo.scheduler.utils.obstruction import Obstruction
 from sampo.schemas import WorkerProductivityMode
@@ -18,6 +18,11 @@ from sampo.schemas.graph import WorkGraph
 from sampo.schemas.schedule import Schedule
 from sampo.schemas.time import Time
 
+if TYPE_CHECKING:
+    # neural networks are needed only by those who train them
+    import torch
+    from sampo.scheduler.selection.neural_net import NeuralNetTrainer
+
 
 class Agent:
     """
-- 
2.43.0


From 8d4c226080387164a3aa45c3e8e70f6c269aeb92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:06 +0000
Subject: [PATCH 75/96] fix: statistics of an agent count each moment once

---
 sampo/scheduler/multi_agency/multi_agency.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/sampo/scheduler/multi_agency/multi_agency.py b/sampo/scheduler/multi_agency/multi_agency.py
index 4ec534f..3b350a3 100644
--- a/sampo/scheduler/multi_agency/multi_agency.py
+++ b/sampo/scheduler/multi_agency/multi_agency.py
@@ -37,6 +37,8 @@ class Agent:
         self._contractors = contractors
         self._last_task_executed = Time(0)
         self._downtime = Time(0)
+        # auctions won by other agents count the downtime too, so each moment should be counted only once
+        self._downtime_counted_to = Time(0)
 
     def offer(self, wg: WorkGraph, parent_time: Time) -> tuple[Time, Time, Schedule, Timeline]:
         """
@@ -63,8 +65,9 @@ class Agent:
         """
         self._timeline = timeline
         self.update_stat(start)
-        # update last task statistic
-        self._last_task_executed = end
+        # update last task statistic, a block can be put before the already confirmed ones
+        self._last_task_executed = max(self._last_task_executed, end)
+        self._downtime_counted_to = max(self._downtime_counted_to, end)
 
     def update_stat(self, start: Time):
         """
@@ -73,7 +76,8 @@ class Agent:
 
         :param start: global start time of confirmed block
         """
-        self._downtime += max(Time(0), start - self._last_task_executed)
+        self._downtime += max(Time(0), start - self._downtime_counted_to)
+        self._downtime_counted_to = max(self._downtime_counted_to, start)
 
     def __str__(self) -> str:
         return f'Agent(name={self.name}, scheduler={self._scheduler}, downtime={self._downtime})'
-- 
2.43.0


From 8d16f1243ae235af8db76879076ea2d5a67423a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:06 +0000
Subject: [PATCH 76/96] fix: agents that can't perform a block don't make its
 auction fail

---
 sampo/scheduler/multi_agency/multi_agency.py | 26 +++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/sampo/scheduler/multi_agency/multi_agency.py b/sampo/scheduler/multi_agency/multi_agency.py
index 3b350a3..a9a454d 100644
--- a/sampo/scheduler/multi_agency/multi_agency.py
+++ b/sampo/scheduler/multi_agency/multi_agency.py
@@ -14,6 +14,7 @@ from sampo.scheduler.timeline.base import Timeline
 from sampo.scheduler.utils.obstruction import Obstruction
 from sampo.schemas import WorkerProductivityMode
 from sampo.schemas.contractor import Contractor
+from sampo.schemas.exceptions import NoSufficientContractorError
 from sampo.schemas.graph import WorkGraph
 from sampo.schemas.schedule import Schedule
 from sampo.schemas.time import Time
@@ -168,6 +169,19 @@ class Manager:
 
         return id2sblock
 
+    def _collect_offers(self, get_offer: Callable[[Agent], tuple[Time, Time, Schedule, Timeline]]) \
+            -> list[tuple[Agent, tuple[Time, Time, Schedule, Timeline]]]:
+        """
+        Asks all agents for their offers. Agents that can't perform the block with their contractors offer nothing.
+        """
+        offers = []
+        for agent in self._agents:
+            try:
+                offers.append((agent, get_offer(agent)))
+            except NoSufficientContractorError:
+                continue
+        return offers
+
     def run_auction_with_obstructions(self, wg: WorkGraph, parent_time: Time = Time(0),
                                       obstruction: Obstruction | None = None):
         if obstruction:
@@ -188,7 +202,7 @@ class Manager:
         best_timeline = None
         best_agent = None
 
-        offers = [(agent, agent.offer(wg, parent_time)) for agent in self._agents]
+        offers = self._collect_offers(lambda agent: agent.offer(wg, parent_time))
 
         for offered_agent, (offered_start_time, offered_end_time, offered_schedule, offered_timeline) in offers:
             if offered_end_time < best_end_time:
@@ -197,6 +211,9 @@ class Manager:
                 best_schedule = offered_schedule
                 best_timeline = offered_timeline
                 best_agent = offered_agent
+        if best_agent is None:
+            raise NoSufficientAgents('There is no agent that can perform the given block')
+
         # To simulate stochastic behaviour
         best_start_time, best_end_time, best_schedule, best_timeline = best_agent.offer(wg, parent_time)
         best_agent.confirm(best_timeline, best_start_time, best_end_time)
@@ -231,9 +248,9 @@ class StochasticManager(Manager):
 
         def get_offer(agent: Agent):
             agent._scheduler.work_estimator.set_productivity_mode(WorkerProductivityMode.Static)
-            return agent, agent.offer(wg, parent_time)
+            return agent.offer(wg, parent_time)
 
-        offers = [get_offer(agent) for agent in self._agents]
+        offers = self._collect_offers(get_offer)
 
         for offered_agent, (offered_start_time, offered_end_time, _, _) in offers:
             offered_end_time = offered_start_time + (offered_end_time - offered_start_time) * self._confidence[offered_agent.name]
@@ -241,6 +258,9 @@ class StochasticManager(Manager):
                 best_end_time = offered_end_time
                 best_agent = offered_agent
 
+        if best_agent is None:
+            raise NoSufficientAgents('There is no agent that can perform the given block')
+
         best_agent._scheduler.work_estimator.set_productivity_mode(WorkerProductivityMode.Stochastic)
 
         old_best_end_time = best_end_time
-- 
2.43.0


From b0aca745fa60b7bb2fcc41f023f82525d9e86271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:06 +0000
Subject: [PATCH 77/96] fix: an auction doesn't leave estimators in the
 stochastic mode

---
 sampo/scheduler/multi_agency/multi_agency.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/sampo/scheduler/multi_agency/multi_agency.py b/sampo/scheduler/multi_agency/multi_agency.py
index a9a454d..b66ea27 100644
--- a/sampo/scheduler/multi_agency/multi_agency.py
+++ b/sampo/scheduler/multi_agency/multi_agency.py
@@ -261,10 +261,14 @@ class StochasticManager(Manager):
         if best_agent is None:
             raise NoSufficientAgents('There is no agent that can perform the given block')
 
-        best_agent._scheduler.work_estimator.set_productivity_mode(WorkerProductivityMode.Stochastic)
-
+        work_estimator = best_agent._scheduler.work_estimator
         old_best_end_time = best_end_time
-        best_start_time, best_end_time, best_schedule, best_timeline = best_agent.offer(wg, parent_time)
+        work_estimator.set_productivity_mode(WorkerProductivityMode.Stochastic)
+        try:
+            best_start_time, best_end_time, best_schedule, best_timeline = best_agent.offer(wg, parent_time)
+        finally:
+            # the estimator can be shared with other agents and schedulers
+            work_estimator.set_productivity_mode(WorkerProductivityMode.Static)
         modified_end_time = best_start_time + (best_end_time - best_start_time) * self._confidence[
             best_agent.name]
         best_agent.confirm(best_timeline, best_start_time, best_end_time)
-- 
2.43.0


From 91a7e6f5fd4e8c4b5e975e6dc13e369babc7032c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:06 +0000
Subject: [PATCH 78/96] fix: the default stochastic productivity is not always
 zero

---
 sampo/schemas/time_estimator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sampo/schemas/time_estimator.py b/sampo/schemas/time_estimator.py
index 7d375b2..05bbb5f 100644
--- a/sampo/schemas/time_estimator.py
+++ b/sampo/schemas/time_estimator.py
@@ -63,7 +63,7 @@ class DefaultWorkEstimator(WorkTimeEstimator):
         self._estimation_mode = WorkEstimationMode.Realistic
         self.rand = rand
         self._productivity_mode = WorkerProductivityMode.Static
-        self._productivity = {worker: {'__ALL__': IntervalGaussian(1, 0.2, 1, 0)}
+        self._productivity = {worker: {'__ALL__': IntervalGaussian(1, 0.2, 0, 2)}
                               for worker in ['driver', 'fitter', 'manager', 'handyman', 'electrician', 'engineer']}
 
     def find_work_resources(self,
-- 
2.43.0


From ecc17e479e8bc9df14e98bcda43186e6bbd2a577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:06 +0000
Subject: [PATCH 79/96] fix: a copy of a block graph keeps the direction of its
 edges

---
 sampo/scheduler/multi_agency/block_graph.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sampo/scheduler/multi_agency/block_graph.py b/sampo/scheduler/multi_agency/block_graph.py
index a8a808e..a051e01 100644
--- a/sampo/scheduler/multi_agency/block_graph.py
+++ b/sampo/scheduler/multi_agency/block_graph.py
@@ -56,7 +56,7 @@ class BlockGraph:
         return len(self.nodes)
 
     def __copy__(self) -> 'BlockGraph':
-        parent_ids = [[parent.id for parent in node.blocks_to] for node in self.nodes]
+        parent_ids = [[parent.id for parent in node.blocks_from] for node in self.nodes]
         nodes = [BlockNode(old_node.wg, old_node.obstruction) for old_node in self.nodes]
         nodes_index = build_index(nodes, attrgetter('id'))
 
@@ -82,7 +82,7 @@ class BlockGraph:
         global_start = GraphNode(WorkUnit('start', 'start', is_service_unit=True), [])
 
         for end in copied_nodes:
-            end.wg.start.add_parents([start.wg.finish for start in end.blocks_to])
+            end.wg.start.add_parents([start.wg.finish for start in end.blocks_from])
             if len(end.wg.start.parents) == 0:
                 end.wg.start.add_parents([global_start])
             if len(end.wg.finish.children) == 0:
-- 
2.43.0


From e8cc5288c499c1cf7325551bc6894113c1a04daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:06 +0000
Subject: [PATCH 80/96] fix: generation of block graphs doesn't fail on the
 names of types

---
 sampo/scheduler/multi_agency/block_generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sampo/scheduler/multi_agency/block_generator.py b/sampo/scheduler/multi_agency/block_generator.py
index 6038225..8efda21 100644
--- a/sampo/scheduler/multi_agency/block_generator.py
+++ b/sampo/scheduler/multi_agency/block_generator.py
@@ -93,7 +93,7 @@ def generate_blocks(graph_type: SyntheticBlockGraphType, n_blocks: int, type_pro
             bg.add_edge(global_start, node)
             bg.add_edge(node, global_end)
 
-    logger(f'{graph_type.name} ' + ' '.join([str(mode.model_name) for i, mode in enumerate(modes)
+    logger(f'{graph_type.name} ' + ' '.join([str(mode.name) for i, mode in enumerate(modes)
                                              if nodes[i].vertex_count != EMPTY_GRAPH_VERTEX_COUNT]))
     return bg
 
-- 
2.43.0


From c67a15782c60a45d3253f67f83a37baca854e2ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:06 +0000
Subject: [PATCH 81/96] fix: edges of random block graphs have the given
 probability

---
 sampo/scheduler/multi_agency/block_generator.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/sampo/scheduler/multi_agency/block_generator.py b/sampo/scheduler/multi_agency/block_generator.py
index 8efda21..3990e06 100644
--- a/sampo/scheduler/multi_agency/block_generator.py
+++ b/sampo/scheduler/multi_agency/block_generator.py
@@ -80,11 +80,10 @@ def generate_blocks(graph_type: SyntheticBlockGraphType, n_blocks: int, type_pro
         case SyntheticBlockGraphType.PARALLEL:
             pass
         case SyntheticBlockGraphType.RANDOM:
-            rev_edge_prob = int(1 / edge_prob)
             for idx, start in enumerate(bg.nodes):
                 for end in bg.nodes[idx:]:
                     if not start.is_service() and not end.is_service():
-                        if start == end or rand.randint(0, rev_edge_prob) != 0:
+                        if start == end or rand.random() >= edge_prob:
                             continue
                         bg.add_edge(start, end)
 
-- 
2.43.0


From 74559e8abcdaefaad39d7405ab2f99a7fbd258ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:49 +0000
Subject: [PATCH 82/96] fix: the work graph of a block graph is not disposed
 with the copies of its blocks

---
 sampo/scheduler/multi_agency/block_graph.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sampo/scheduler/multi_agency/block_graph.py b/sampo/scheduler/multi_agency/block_graph.py
index a051e01..5f2c32b 100644
--- a/sampo/scheduler/multi_agency/block_graph.py
+++ b/sampo/scheduler/multi_agency/block_graph.py
@@ -93,7 +93,12 @@ class BlockGraph:
         # global_start: GraphNode = [node for node in copied_nodes if len(node.blocks_to) == 0][0].wg.start
         # global_end:   GraphNode = [node for node in copied_nodes if len(node.blocks_from) == 0][0].wg.finish
 
-        return WorkGraph(global_start, global_end)
+        wg = WorkGraph(global_start, global_end)
+        # the nodes belong to the resulting graph from now on, so the copied graphs must not dispose them
+        for node in copied_nodes:
+            node.wg.nodes = []
+
+        return wg
 
     def toposort(self) -> list[BlockNode]:
         """
-- 
2.43.0


From e6bc0e744bf6d1203d4f2bd9074a84f30d2c3260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:51 +0000
Subject: [PATCH 83/96] fix: a work that turns out longer than estimated is
 moved to a slot that fits it

---
 sampo/scheduler/timeline/momentum_timeline.py | 27 ++++++++++++++-----
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/sampo/scheduler/timeline/momentum_timeline.py b/sampo/scheduler/timeline/momentum_timeline.py
index b4a191f..b0a2829 100644
--- a/sampo/scheduler/timeline/momentum_timeline.py
+++ b/sampo/scheduler/timeline/momentum_timeline.py
@@ -143,10 +143,15 @@ class MomentumTimeline(Timeline):
 
             return max_zone_time, max_zone_time, exec_times
 
+        st = None
         if assigned_start_time is not None:
-            st = assigned_start_time
-            exec_times, exec_time = self._wait_for_materials(inseparable_chain, st, exec_times)
-        else:
+            chain_exec_times, chain_exec_time = self._wait_for_materials(inseparable_chain, assigned_start_time,
+                                                                         exec_times)
+            # the work with stochastic productivity can take longer than it was estimated when the start time was chosen
+            if self._is_free(assigned_start_time + chain_exec_time, chain_exec_time, worker_team):
+                st, exec_times, exec_time = assigned_start_time, chain_exec_times, chain_exec_time
+
+        if st is None:
             # we can't just use max() of all times we found from different constraints
             # because start time shifting can corrupt time slots we found from every constraint
             # so let's find the time that is agreed with all constraints
@@ -508,8 +513,14 @@ class MomentumTimeline(Timeline):
                   finish_time: Time,
                   exec_time: Time,
                   worker_team: list[Worker]):
+        assert self._is_free(finish_time, exec_time, worker_team)
+
+    def _is_free(self,
+                 finish_time: Time,
+                 exec_time: Time,
+                 worker_team: list[Worker]) -> bool:
         if exec_time == 0:
-            return
+            return True
 
         start = finish_time - exec_time
         end = finish_time
@@ -520,6 +531,10 @@ class MomentumTimeline(Timeline):
             available_workers_count = state[start_idx - 1].available_workers_count
             # updating all events in between the start and the end of our current task
             for event in state[start_idx: end_idx]:
-                assert event.available_workers_count >= w.count
+                if event.available_workers_count < w.count:
+                    return False
+
+            if available_workers_count < w.count:
+                return False
 
-            assert available_workers_count >= w.count
+        return True
-- 
2.43.0


From ae00ad7d4b13bc7fa854f38cbe0507d4736e01c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:27 +0000
Subject: [PATCH 84/96] fix: requirements of works depend on the randomness of
 the estimator only

---
 sampo/schemas/time_estimator.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sampo/schemas/time_estimator.py b/sampo/schemas/time_estimator.py
index 05bbb5f..53f7881 100644
--- a/sampo/schemas/time_estimator.py
+++ b/sampo/schemas/time_estimator.py
@@ -72,9 +72,10 @@ class DefaultWorkEstimator(WorkTimeEstimator):
                             resource_name: list[str] | None = None) -> list[WorkerReq]:
         if resource_name is None:
             resource_name = ['driver', 'fitter', 'manager', 'handyman', 'electrician', 'engineer']
-        dist = numpy.random.poisson(work_volume * 3, len(resource_name))
+        rng = numpy.random.RandomState(self.rand.getrandbits(32))
+        dist = rng.poisson(work_volume * 3, len(resource_name))
         return [WorkerReq(kind=name,
-                          volume=Time(math.ceil(work_volume * numpy.random.poisson(work_volume ** 0.5, 1)[0])),
+                          volume=Time(math.ceil(work_volume * rng.poisson(work_volume ** 0.5, 1)[0])),
                           min_count=int(dist[i]),
                           max_count=int(dist[i] * 2))
                 for i, name in enumerate(resource_name)]
-- 
2.43.0


From c3c2cd8e631ad8cca7e42b68b82a249526e240d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:17 +0000
Subject: [PATCH 85/96] fix: works have names of their own, so defects of a
 named work can be generated

---
 sampo/schemas/works.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sampo/schemas/works.py b/sampo/schemas/works.py
index 8f5b56c..aa5f98d 100644
--- a/sampo/schemas/works.py
+++ b/sampo/schemas/works.py
@@ -50,7 +50,7 @@ class WorkUnit(AutoJSONSerializable['WorkUnit'], Identifiable):
 
         self.model_name = model_name
 
-        super(WorkUnit, self).__init__(id, 'dummy')
+        super(WorkUnit, self).__init__(id, model_name['granular_name'])
 
         if material_reqs is None:
             material_reqs = []
-- 
2.43.0


From 7b5dfadad83ca268885fdeb2f58dcc69c61c0dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:32 +0000
Subject: [PATCH 86/96] fix: works that repair defects have the priority of the
 defective work

---
 sampo/schemas/structure_estimator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sampo/schemas/structure_estimator.py b/sampo/schemas/structure_estimator.py
index fc461c7..bb704ef 100644
--- a/sampo/schemas/structure_estimator.py
+++ b/sampo/schemas/structure_estimator.py
@@ -67,7 +67,8 @@ class DefaultStructureEstimator(StructureEstimator):
 
         worker_reqs = self._work_estimator.find_work_resources(sub_work_name, volume)
         return WorkUnit(str(uuid4()), sub_work_name,
-                        worker_reqs=worker_reqs, zone_reqs=zone_reqs, volume=volume)
+                        worker_reqs=worker_reqs, zone_reqs=zone_reqs, volume=volume,
+                        priority=work_unit.priority)
 
     def _gen_sub_works(self, work_unit: WorkUnit) -> list[WorkUnit]:
         probabilities = list(self._generator.generate_probabilities(work_unit).items())
-- 
2.43.0


From 7dd74e84bcad0b6cb1fd652224348c42e9fa01cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:29 +0000
Subject: [PATCH 87/96] fix: work graphs can be drawn

---
 sampo/utilities/visualization/work_graph.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/sampo/utilities/visualization/work_graph.py b/sampo/utilities/visualization/work_graph.py
index 45a546a..547c5a1 100644
--- a/sampo/utilities/visualization/work_graph.py
+++ b/sampo/utilities/visualization/work_graph.py
@@ -99,10 +99,10 @@ def collect_jobs(start: GraphNode, max_deep: Optional[int] = None) -> tuple[list
         max_volume = max(max_volume, volume)
         id_to_job[unit.id] = len(jobs)
         jobs.append(
-            dict(job_id=len(jobs), work_id=str(unit.id), task=unit.model_name, start=X_PERIOD * deep,
+            dict(job_id=len(jobs), work_id=str(unit.id), task=unit.display_name, start=X_PERIOD * deep,
                  children=node.children, parents=node.parents,
                  group=unit.group, color=color_from_str(unit.group), volume=volume,
-                 cluster=extract_cluster_name(unit.model_name)))
+                 cluster=extract_cluster_name(unit.display_name)))
         colors[unit.group] = color_from_str(unit.group)
         for child in node.children:
             work_id = child.id
@@ -116,7 +116,7 @@ def collect_jobs(start: GraphNode, max_deep: Optional[int] = None) -> tuple[list
 def setup_jobs(start: GraphNode, jobs: list[dict], id_to_job: dict[str, int]) -> list[dict]:
     cluster_deep_counts: dict[str, dict[int, int]] = defaultdict(lambda: defaultdict(int))
 
-    not_used_parents = {job['job_id']: len(job['parents']) for job in jobs}
+    not_used_parents = {job['job_id']: sum(parent.id in id_to_job for parent in job['parents']) for job in jobs}
 
     q = queue.Queue()
     start_ind = id_to_job[start.id]
@@ -141,11 +141,12 @@ def setup_jobs(start: GraphNode, jobs: list[dict], id_to_job: dict[str, int]) ->
     def dfs(v_ind: int, y_pos: int) -> int:
         jobs[v_ind]['y_position'] = y_pos
 
-        used = [id_to_job[child.id] for child in jobs[v_ind]['children'] if id_to_job[child.id] in max_y_pos]
+        # works can be hidden because of the max depth
+        children = [id_to_job[child.id] for child in jobs[v_ind]['children'] if child.id in id_to_job]
+        used = [c_ind for c_ind in children if c_ind in max_y_pos]
         y_pos = max([y_pos] + [max_y_pos[c_ind] for c_ind in used] or [y_pos])
 
-        for child in jobs[v_ind]['children']:
-            c_ind = id_to_job[child.id]
+        for c_ind in children:
             if c_ind not in max_y_pos:
                 y_pos = dfs(c_ind, y_pos) + 1
 
-- 
2.43.0


From bba9b8616fdfb5273d8166038233a82f3c80a9fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:29 +0000
Subject: [PATCH 88/96] fix: charts of employment can be drawn and show when
 workers are busy

---
 sampo/utilities/visualization/resources.py | 36 +++++++++-------------
 1 file changed, 15 insertions(+), 21 deletions(-)

diff --git a/sampo/utilities/visualization/resources.py b/sampo/utilities/visualization/resources.py
index e42e393..019dba9 100644
--- a/sampo/utilities/visualization/resources.py
+++ b/sampo/utilities/visualization/resources.py
@@ -89,7 +89,7 @@ def create_employment_fig(resources: Union[DataFrame, ResourceSchedule],
             fig.update_traces(textposition='inside')
         return visualize(fig, vis_mode, file_name)
 
-    assert isinstance(resources, ResourceSchedule), \
+    assert isinstance(resources, dict), \
         f'Wrong data format. Expected ResourceSchedule, got {type(resources)} instead.'
 
     # 1. tune plot parameters according to the data size
@@ -103,7 +103,7 @@ def create_employment_fig(resources: Union[DataFrame, ResourceSchedule],
     fig, ax = plt.subplots(figsize=size, dpi=dpi)
     for name, worker_schedule in resources.items():
         for worker_time in worker_schedule:
-            ax.barh(name, left=worker_time[0], width=worker_time[1] - worker_time[0])
+            ax.barh(name, left=int(worker_time[0]), width=int(worker_time[1] - worker_time[0]))
 
     for i in range(len(resources) + 1):
         ax.axhline(i - 0.5, color='black')
@@ -151,8 +151,6 @@ def convert_schedule_df(schedule: DataFrame, fig_type: EmploymentFigType,
 
     if fig_type is EmploymentFigType.WorkLabeled:
         resource_schedule: dict[str, list[tuple[int, str, int]]] = {}
-        schedule.index = list(range(schedule.shape[0]))
-
         i = 0
         for _, item in schedule.iterrows():
             resources = get_resources(item)
@@ -178,8 +176,8 @@ def get_schedule_df(schedule: ScheduleWorkDict, fig_type: EmploymentFigType, pro
         max_time = max(schedule.values(), key=attrgetter('finish_time')).finish_time + 1
         resource_schedule: dict[str, list[int]] = {}
         for item in schedule.values():
-            start: Time = item.start_time
-            finish: Time = item.finish_time
+            start: int = int(item.start_time)
+            finish: int = int(item.finish_time)
             resources: list[Worker] = item.workers
             for worker in resources:
                 if worker.name not in resource_schedule:
@@ -196,7 +194,7 @@ def get_schedule_df(schedule: ScheduleWorkDict, fig_type: EmploymentFigType, pro
         resource_schedule: dict[str, list[tuple[int, str, int]]] = {}
         for i, (work, item) in enumerate(sorted(list(schedule.items()), key=lambda x: x[1].start_time)):
             resources: list[Worker] = item.workers
-            w_name = item.model_name
+            w_name = item.display_name
             for worker in resources:
                 if worker.count > 0:
                     if worker.name not in resource_schedule:
@@ -218,27 +216,23 @@ def get_workers_intervals(schedule: Schedule, group_workers_by_specializations:
         finish: Time = item.finish_time
         workers: list[Worker] = item.workers
         for worker in workers:
-            resources_time_intervals_dict[start][worker.name] -= worker.count
-            resources_time_intervals_dict[finish][worker.name] += worker.count
-
-    min_resources: dict[str, int] = defaultdict(int)
-    for milestone, resources in resources_time_intervals_dict.items():
-        resources_time_intervals_dict[milestone] = dict(resources)
-        for name in resources:
-            min_resources[name] = min(min_resources[name], resources[name])
-    resources_time_intervals_dict = dict(resources_time_intervals_dict)
+            resources_time_intervals_dict[start][worker.name] += worker.count
+            resources_time_intervals_dict[finish][worker.name] -= worker.count
 
-    resources_time_intervals: list[Time, dict[str, int]] = list(resources_time_intervals_dict.items())
+    resources_time_intervals: list[tuple[Time, dict[str, int]]] = list(resources_time_intervals_dict.items())
     resources_time_intervals = sorted(resources_time_intervals, key=itemgetter(0))
     workers_intervals = defaultdict(list)
+    busy: dict[str, int] = defaultdict(int)
     for index, (start, resources) in enumerate(resources_time_intervals[:-1]):
-        finish = resources_time_intervals[index + 1]
+        finish = resources_time_intervals[index + 1][0]
         for name in resources:
-            resources[name] -= min_resources[name]
+            busy[name] += resources[name]
+        for name, count in busy.items():
             if group_workers_by_specializations:
-                workers_intervals[name].append((start, finish))
+                if count > 0:
+                    workers_intervals[name].append((start, finish))
             else:
-                for w_index in range(resources[name]):
+                for w_index in range(count):
                     workers_intervals[f'{name}{SPLITTER}{w_index}'].append((start, finish))
 
     if group_workers_by_specializations:
-- 
2.43.0


From 2ba8e91f8ee48426ac78bb2f2e0d23c4ea33576c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:51 +0000
Subject: [PATCH 89/96] fix: gantt charts can be drawn, deliveries and zones
 are shown at their time

---
 sampo/utilities/visualization/schedule.py | 27 ++++++++++++++---------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/sampo/utilities/visualization/schedule.py b/sampo/utilities/visualization/schedule.py
index 4fe814c..9227b38 100644
--- a/sampo/utilities/visualization/schedule.py
+++ b/sampo/utilities/visualization/schedule.py
@@ -36,6 +36,11 @@ def schedule_gant_chart_fig(schedule_dataframe: pd.DataFrame,
 
     schedule_start = schedule_dataframe.loc[:, 'start'].min()
     schedule_finish = schedule_dataframe.loc[:, 'finish'].max()
+    # the moment that times of deliveries and zones are counted from
+    project_start = schedule_start
+    if len(schedule_dataframe):
+        last_work = schedule_dataframe.iloc[-1]
+        project_start = last_work['finish'] - timedelta(int(last_work['scheduled_work_object'].finish_time))
     visualization_start_delta = timedelta(days=2)
     visualization_finish_delta = timedelta(days=(schedule_finish - schedule_start).days // 3)
 
@@ -52,15 +57,17 @@ def schedule_gant_chart_fig(schedule_dataframe: pd.DataFrame,
                 'task_name_mapped': mat_name,
                 'task_name': '',
                 'zone_information': '',
-                'start': timedelta(material[1].value) + schedule_start,
-                'finish': timedelta(material[2].value) + schedule_start}
+                'start': timedelta(int(material[1])) + project_start,
+                'finish': timedelta(int(material[2])) + project_start}
 
     sworks = schedule_dataframe['scheduled_work_object'].copy()
     idx = schedule_dataframe['idx'].copy()
 
     def get_delivery_info(swork) -> str:
-        return '<br>' + '<br>'.join([f'{mat[0][0]}: {mat[0][1]}' for mat in swork.materials.delivery.values()])
+        return '<br>' + '<br>'.join([f'{name}: {sum(mat[0] for mat in mats)}'
+                                         for name, mats in swork.materials.delivery.items()])
 
+    schedule_dataframe['task_name_mapped'] = schedule_dataframe['task_name']
     schedule_dataframe['material_information'] = sworks.apply(get_delivery_info)
 
     mat_delivery_row = []
@@ -69,8 +76,8 @@ def schedule_gant_chart_fig(schedule_dataframe: pd.DataFrame,
     for i, swork in zip(idx, sworks):
         delivery = swork.materials.delivery
         for name, mat_info in delivery.items():
-            if delivery:
-                mat_delivery_row.append(create_delivery_row(i, name, mat_info[0]))
+            for material in mat_info:
+                mat_delivery_row.append(create_delivery_row(i, name, material))
 
     def create_zone_row(i, zone_names, zone) -> dict:
         return {'idx': i,
@@ -85,14 +92,14 @@ def schedule_gant_chart_fig(schedule_dataframe: pd.DataFrame,
                 'task_name_mapped': zone_names,
                 'task_name': '',
                 'zone_information': '',
-                'start': timedelta(int(zone.start_time)) + schedule_start,
-                'finish': timedelta(int(zone.end_time)) + schedule_start}
+                'start': timedelta(int(zone.start_time)) + project_start,
+                'finish': timedelta(int(zone.end_time)) + project_start}
 
     sworks = schedule_dataframe['scheduled_work_object'].copy()
     idx = schedule_dataframe['idx'].copy()
 
     def get_zone_usage_info(swork) -> str:
-        return '<br>' + '<br>'.join([f'{zone.model_name}: {zone.to_status}' for zone in swork.zones_pre])
+        return '<br>' + '<br>'.join([f'{zone.name}: {zone.to_status}' for zone in swork.zones_pre])
 
     schedule_dataframe['zone_information'] = sworks.apply(get_zone_usage_info)
 
@@ -100,10 +107,10 @@ def schedule_gant_chart_fig(schedule_dataframe: pd.DataFrame,
 
     # create zone information
     for i, swork in zip(idx, sworks):
-        zone_names = '<br>' + '<br>'.join([zone.model_name for zone in swork.zones_pre])
+        zone_names = '<br>' + '<br>'.join([zone.name for zone in swork.zones_pre])
         for zone in swork.zones_pre:
             access_cards.append(create_zone_row(i, zone_names, zone))
-        zone_names = '<br>' + '<br>'.join([zone.model_name for zone in swork.zones_post])
+        zone_names = '<br>' + '<br>'.join([zone.name for zone in swork.zones_post])
         for zone in swork.zones_post:
             access_cards.append(create_zone_row(i, zone_names, zone))
 
-- 
2.43.0


From a25b70fe7847d252e679ccf00970c1a76c86768b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:54 +0000
Subject: [PATCH 90/96] fix: merged tables do not depend on the hash seed or on
 those who read them

---
 sampo/schemas/schedule.py   | 9 ++++++---
 sampo/utilities/schedule.py | 5 +++--
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/sampo/schemas/schedule.py b/sampo/schemas/schedule.py
index 7ece058..882aef2 100644
--- a/sampo/schemas/schedule.py
+++ b/sampo/schemas/schedule.py
@@ -104,15 +104,18 @@ class Schedule(JSONSerializable['Schedule']):
         return Schedule.from_scheduled_works(works=[ScheduledWork._deserialize(sw)
                                                     for sw in dict_representation['works']])
 
-    @lru_cache
     def merged_stages_datetime_df(self, offset: Union[datetime, str]) -> DataFrame:
         """
         Merges split stages of same works after lag optimization and returns schedule DataFrame shifted to start.
         :param offset: Start of schedule, to add as an offset.
         :return: Shifted schedule DataFrame with merged tasks.
         """
-        result = fix_split_tasks(offset_schedule(self._schedule, offset))
-        return result
+        # the cached frame should not be changed by those who it is given to
+        return self._merged_stages_datetime_df(offset).copy()
+
+    @lru_cache
+    def _merged_stages_datetime_df(self, offset: Union[datetime, str]) -> DataFrame:
+        return fix_split_tasks(offset_schedule(self._schedule, offset))
 
     def unite_stages(self) -> 'Schedule':
         """
diff --git a/sampo/utilities/schedule.py b/sampo/utilities/schedule.py
index 4b8c578..0f5a40b 100644
--- a/sampo/utilities/schedule.py
+++ b/sampo/utilities/schedule.py
@@ -33,10 +33,11 @@ def fix_split_tasks(baps_schedule_df: pd.DataFrame) -> pd.DataFrame:
     :return: pd.DataFrame: schedule with merged info for all real tasks
     """
     df_len = baps_schedule_df.shape[0]
-    baps_schedule_df.index = range(df_len)
+    baps_schedule_df = baps_schedule_df.set_axis(range(df_len), axis=0)
 
     df = pd.DataFrame(columns=baps_schedule_df.columns)
-    unique_ids = {x.split(STAGE_SEP)[0] for x in baps_schedule_df.task_id}
+    # order of rows should not depend on the hash seed
+    unique_ids = dict.fromkeys(x.split(STAGE_SEP)[0] for x in baps_schedule_df.task_id)
 
     for task_id in unique_ids:
         task_stages_df = baps_schedule_df.loc[
-- 
2.43.0


From d34b2c50d088669bc14affb3c0376cec740c7dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:08 +0000
Subject: [PATCH 91/96] fix: gantt charts with deliveries or zones can be
 colored by priority and critical path

---
 sampo/utilities/visualization/schedule.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/sampo/utilities/visualization/schedule.py b/sampo/utilities/visualization/schedule.py
index 9227b38..36f8937 100644
--- a/sampo/utilities/visualization/schedule.py
+++ b/sampo/utilities/visualization/schedule.py
@@ -6,7 +6,7 @@ import pandas as pd
 import plotly.express as px
 from matplotlib.figure import Figure
 
-from sampo.schemas import Time, WorkGraph, WorkTimeEstimator, GraphNode
+from sampo.schemas import Time, WorkGraph, WorkTimeEstimator, GraphNode, ScheduledWork
 from sampo.utilities.visualization.base import VisualizationMode, visualize
 
 
@@ -116,19 +116,26 @@ def schedule_gant_chart_fig(schedule_dataframe: pd.DataFrame,
 
     schedule_dataframe = pd.concat([schedule_dataframe, pd.DataFrame.from_records(access_cards), pd.DataFrame.from_records(mat_delivery_row)])
 
+    def color_works(work_color) -> pd.Series:
+        # deliveries and zones have no work behind them
+        return schedule_dataframe[['scheduled_work_object', 'contractor']] \
+            .apply(lambda r: work_color(r['scheduled_work_object'])
+                   if isinstance(r['scheduled_work_object'], ScheduledWork) else r['contractor'], axis=1)
+
     if color_type == 'contractor':
         schedule_dataframe['color'] = schedule_dataframe[['task_name', 'contractor']] \
             .apply(lambda r: 'Defect' if ':' in r['task_name'] else r['contractor'], axis=1)
     elif color_type == 'priority':
-        schedule_dataframe['color'] = schedule_dataframe['scheduled_work_object'].apply(lambda x: f'Priority {x.priority}')
+        schedule_dataframe['color'] = color_works(lambda x: f'Priority {x.priority}')
     elif color_type == 'critical_path':
         critical_path_nodes = set(map(attrgetter('id'), critical_path))
-        schedule_dataframe['color'] = schedule_dataframe['scheduled_work_object'] \
-                .apply(lambda x: 'Critical path' if x.id in critical_path_nodes else 'Not critical path')
+        schedule_dataframe['color'] = color_works(lambda x: 'Critical path' if x.id in critical_path_nodes
+                                                  else 'Not critical path')
 
+    # defects are shown on the line of the defective work
+    line_of_work = schedule_dataframe.drop_duplicates('task_name').set_index('task_name')['idx']
     schedule_dataframe['idx'] = (schedule_dataframe[['idx', 'task_name']]
-                                 .apply(lambda r: schedule_dataframe[schedule_dataframe['task_name'] ==
-                                                                     r['task_name'].split('&')[0]]['idx'].iloc[0]
+                                 .apply(lambda r: line_of_work.get(r['task_name'].split('&')[0], r['idx'])
                                  if ':' in r['task_name'] else r['idx'], axis=1))
 
 
-- 
2.43.0


From 1b8cc11a886baeb24ad4e6b89bc94d4bc250c6ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:52 +0000
Subject: [PATCH 92/96] fix: gantt charts of loaded schedules can be drawn

---
 sampo/utilities/visualization/schedule.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/sampo/utilities/visualization/schedule.py b/sampo/utilities/visualization/schedule.py
index 36f8937..42f3d84 100644
--- a/sampo/utilities/visualization/schedule.py
+++ b/sampo/utilities/visualization/schedule.py
@@ -63,9 +63,13 @@ def schedule_gant_chart_fig(schedule_dataframe: pd.DataFrame,
     sworks = schedule_dataframe['scheduled_work_object'].copy()
     idx = schedule_dataframe['idx'].copy()
 
+    def get_delivery(swork) -> dict:
+        # works of a loaded schedule know no deliveries
+        return swork.materials.delivery if swork.materials is not None else {}
+
     def get_delivery_info(swork) -> str:
         return '<br>' + '<br>'.join([f'{name}: {sum(mat[0] for mat in mats)}'
-                                         for name, mats in swork.materials.delivery.items()])
+                                         for name, mats in get_delivery(swork).items()])
 
     schedule_dataframe['task_name_mapped'] = schedule_dataframe['task_name']
     schedule_dataframe['material_information'] = sworks.apply(get_delivery_info)
@@ -74,8 +78,7 @@ def schedule_gant_chart_fig(schedule_dataframe: pd.DataFrame,
 
     # create material delivery information
     for i, swork in zip(idx, sworks):
-        delivery = swork.materials.delivery
-        for name, mat_info in delivery.items():
+        for name, mat_info in get_delivery(swork).items():
             for material in mat_info:
                 mat_delivery_row.append(create_delivery_row(i, name, material))
 
-- 
2.43.0


From 1698bb50502d573837852cce0842544faf4bec70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:56 +0000
Subject: [PATCH 93/96] fix: order mutation and crossover skip the last
 priority group

---
 sampo/scheduler/genetic/operators.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sampo/scheduler/genetic/operators.py b/sampo/scheduler/genetic/operators.py
index 8fd3114..edbfe44 100644
--- a/sampo/scheduler/genetic/operators.py
+++ b/sampo/scheduler/genetic/operators.py
@@ -499,6 +499,9 @@ def mate_scheduling_order(ind1: Individual, ind2: Individual, rand: random.Rando
             cur_priority = priorities[order1[i]]
 
             mate_parts(order1[cur_priority_group_start:i], order2[cur_priority_group_start:i])
+            cur_priority_group_start = i
+
+    mate_parts(order1[cur_priority_group_start:], order2[cur_priority_group_start:])
 
     return toolbox.Individual(child1), toolbox.Individual(child2)
 
@@ -608,6 +611,8 @@ def mutate_scheduling_order(ind: Individual, mutpb: float, rand: random.Random,
             cur_priority = priorities[order[i]]
             cur_priority_group_start = i
 
+    mutate_scheduling_order_core(order[cur_priority_group_start:], mutpb_for_priority_group, rand, parents, children)
+
     return ind
 
 
-- 
2.43.0


From 1a9ea888efc9b13198af640a49380c892d2a4c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:35 +0000
Subject: [PATCH 94/96] fix: search for resources crashes on projects that
 nobody can perform

---
 .../resources_in_time/average_binary_search.py        | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/sampo/scheduler/resources_in_time/average_binary_search.py b/sampo/scheduler/resources_in_time/average_binary_search.py
index 8771898..5b1bc1a 100644
--- a/sampo/scheduler/resources_in_time/average_binary_search.py
+++ b/sampo/scheduler/resources_in_time/average_binary_search.py
@@ -4,7 +4,6 @@ from sampo.scheduler.base import Scheduler
 from sampo.scheduler.resource.average_req import AverageReqResourceOptimizer
 from sampo.scheduler.timeline.base import Timeline
 from sampo.schemas.contractor import Contractor
-from sampo.schemas.exceptions import NoSufficientContractorError
 from sampo.schemas.graph import WorkGraph, GraphNode
 from sampo.schemas.landscape import LandscapeConfiguration
 from sampo.schemas.schedule import Schedule
@@ -34,12 +33,10 @@ class AverageBinarySearchResourceOptimizingScheduler:
         def call_scheduler(k: float, inner_spec: ScheduleSpec) \
                 -> tuple[tuple[Schedule, Time, Timeline, list[GraphNode]], ScheduleSpec]:
             self._resource_optimizer.k = k
-            try:
-                return self._base_scheduler.schedule_with_cache(wg, contractors, inner_spec, validate,
-                                                                assigned_parent_time,
-                                                                landscape=landscape)[0], inner_spec
-            except NoSufficientContractorError:
-                return (None, Time.inf(), None, None), inner_spec
+            # a project that can't be planned can't be planned with any teams, so the caller should know
+            return self._base_scheduler.schedule_with_cache(wg, contractors, inner_spec, validate,
+                                                            assigned_parent_time,
+                                                            landscape=landscape)[0], inner_spec
 
         def fitness(k: float, inner_spec: ScheduleSpec):
             result = call_scheduler(k, inner_spec)[0][0].execution_time
-- 
2.43.0


From c9eb99f1d5873525d7d0d6914b577364ab972f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:15 +0000
Subject: [PATCH 95/96] fix: works with priorities below one are planned before
 the start of the project

---
 sampo/schemas/graph.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sampo/schemas/graph.py b/sampo/schemas/graph.py
index 7d4d98c..63cdb23 100644
--- a/sampo/schemas/graph.py
+++ b/sampo/schemas/graph.py
@@ -349,6 +349,8 @@ class WorkGraph(JSONSerializable['WorkGraph']):
     @classmethod
     def from_nodes(cls, nodes: list[GraphNode], rand: Random | None = None):
         start = get_start_stage(rand=rand)
+        # nothing in the project is more urgent than its start
+        start.work_unit.priority = min([start.work_unit.priority] + [node.work_unit.priority for node in nodes])
         for node in nodes:
             if len(node.parents) == 0:
                 node.add_parents([(start, 0, EdgeType.FinishStart)])
-- 
2.43.0


From 498cd9a3fdffe50284a3a2da3374e117d9872dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:15 +0000
Subject: [PATCH 96/96] fix: plans made by the parallel scheme come with the
 order of their works

---
 sampo/scheduler/genetic/converter.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sampo/scheduler/genetic/converter.py b/sampo/scheduler/genetic/converter.py
index 42d9e1c..b5baf77 100644
--- a/sampo/scheduler/genetic/converter.py
+++ b/sampo/scheduler/genetic/converter.py
@@ -229,6 +229,7 @@ def parallel_schedule_generation_scheme(chromosome: ChromosomeType,
                 node2swork[node].zones_pre = finalizing_zones
 
             work_timeline.update_timeline(st, exec_time, None)
+            order_nodes.append(node)
             return True
         return False
 
-- 
2.43.0

