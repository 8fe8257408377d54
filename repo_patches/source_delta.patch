From a6b8cda92a8db16ef9879b44d197f1fc7b714507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:53 +0000
Subject: [PATCH 01/20] fix: Planning.feasible raised TypeError for a planning
 without routes

---
 jinete/models/plannings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jinete/models/plannings.py b/jinete/models/plannings.py
index d489f89..df171ff 100644
--- a/jinete/models/plannings.py
+++ b/jinete/models/plannings.py
@@ -74,7 +74,7 @@ class Planning(Model):
 
     @property
     def feasible(self) -> bool:
-        return reduce(and_, (route.feasible for route in self.routes))
+        return reduce(and_, (route.feasible for route in self.routes), True)
 
     def __iter__(self) -> Generator[Tuple[str, Any], None, None]:
         yield from (("uuid", self.uuid), ("route_identifiers", tuple(route.identifier for route in self.routes)))
-- 
2.43.0


From 84d2f9aca94e77ace0d4bb3aa87f78eb9fe6104e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:53 +0000
Subject: [PATCH 02/20] fix: Service equality compared hashes, so colliding
 services were equal

---
 jinete/models/services.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jinete/models/services.py b/jinete/models/services.py
index 6918ecc..336d242 100644
--- a/jinete/models/services.py
+++ b/jinete/models/services.py
@@ -81,7 +81,7 @@ class Service(Model):
         return self
 
     def __eq__(self, other: Service) -> bool:
-        return hash(self) == hash(other)
+        return isinstance(other, Service) and tuple(self) == tuple(other)
 
     def __hash__(self):
         return hash(tuple(self))
-- 
2.43.0


From b32051762342dccca937f0d84074e6c66a395d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:53 +0000
Subject: [PATCH 03/20] fix: FileStorer truncated the target before the report
 was formatted

---
 jinete/storers/file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jinete/storers/file.py b/jinete/storers/file.py
index fbf1151..fd8d405 100644
--- a/jinete/storers/file.py
+++ b/jinete/storers/file.py
@@ -24,6 +24,6 @@ class FileStorer(Storer):
 
     def store(self) -> None:
         """Perform a storage process."""
+        text = self._formatted
         with self.file_path.open("w") as file:
-            text = self._formatted
             file.write(text)
-- 
2.43.0


From cc97f424674fb33c9506af42a7dc491fb3bd4a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:28 +0000
Subject: [PATCH 04/20] fix: Stop.flush kept the remembered feasibility of the
 stop

---
 jinete/models/stops.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/jinete/models/stops.py b/jinete/models/stops.py
index bb3833f..26da533 100644
--- a/jinete/models/stops.py
+++ b/jinete/models/stops.py
@@ -227,6 +227,7 @@ class Stop(Model):
             "arrival_time",
             "departure_time",
             "capacity",
+            "feasible",
         ):
             self.__dict__.pop(key, None)
         for planned_trip in self.planned_trips:
-- 
2.43.0


From f8261d412c4bced5cba4e77b598364de1ee4793c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:56 +0000
Subject: [PATCH 05/20] fix: Route.insert_stop_at returned the last stop
 instead of the inserted one

---
 jinete/models/routes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jinete/models/routes.py b/jinete/models/routes.py
index 3f3dba2..bce4eca 100644
--- a/jinete/models/routes.py
+++ b/jinete/models/routes.py
@@ -251,8 +251,8 @@ class Route(Model):
 
         self.stops.insert(idx, stop)
 
-        for stop in self.stops[idx:]:
-            stop.flush()
+        for flushable_stop in self.stops[idx:]:
+            flushable_stop.flush()
 
         return stop
 
-- 
2.43.0


From 44fca08ede7d48d9682fb0ac16b855736bb4ac51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:56 +0000
Subject: [PATCH 06/20] fix: inserting or removing a stop kept the remembered
 feasibility of the route

---
 jinete/models/routes.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jinete/models/routes.py b/jinete/models/routes.py
index bce4eca..2e2ce71 100644
--- a/jinete/models/routes.py
+++ b/jinete/models/routes.py
@@ -251,6 +251,7 @@ class Route(Model):
 
         self.stops.insert(idx, stop)
 
+        self.__dict__.pop("feasible", None)
         for flushable_stop in self.stops[idx:]:
             flushable_stop.flush()
 
@@ -265,6 +266,7 @@ class Route(Model):
 
         removed_stop = self.stops.pop(idx)
 
+        self.__dict__.pop("feasible", None)
         for stop in self.stops[idx:]:
             stop.flush()
         return removed_stop
-- 
2.43.0


From c03b828f24d5624465a64b490abf1a34cfbb94e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:25 +0000
Subject: [PATCH 07/20] fix: OneShift kept remembered times of the flipped
 stops and of the route

---
 .../heuristics/local_search/strategies/routes/one_shift.py     | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/jinete/algorithms/heuristics/local_search/strategies/routes/one_shift.py b/jinete/algorithms/heuristics/local_search/strategies/routes/one_shift.py
index 67ed11e..831e008 100644
--- a/jinete/algorithms/heuristics/local_search/strategies/routes/one_shift.py
+++ b/jinete/algorithms/heuristics/local_search/strategies/routes/one_shift.py
@@ -48,5 +48,4 @@ class OneShiftLocalSearchStrategy(LocalSearchStrategy):
         other.previous = previous.previous
         previous.previous = other
 
-        for stop in route.stops[self_index:]:
-            stop.flush()
+        route.flush()
-- 
2.43.0


From 72f673eada2cabda3b7deae635cb266940e1bd2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:10 +0000
Subject: [PATCH 08/20] fix: StatelessInsertionIterator offered insertions into
 outdated routes

---
 jinete/algorithms/heuristics/insertion/iterators/stateless.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jinete/algorithms/heuristics/insertion/iterators/stateless.py b/jinete/algorithms/heuristics/insertion/iterators/stateless.py
index e0a5c4e..9ddcb58 100644
--- a/jinete/algorithms/heuristics/insertion/iterators/stateless.py
+++ b/jinete/algorithms/heuristics/insertion/iterators/stateless.py
@@ -32,7 +32,8 @@ logger = logging.getLogger(__name__)
 class StatelessInsertionIterator(InsertionIterator):
     @cached_property
     def iterator(self) -> Iterator[Route]:
-        for route, trip in it.product(self._attractive_routes, self.pending_trips):
+        routes = [self.routes_container[route.vehicle] for route in self._attractive_routes]
+        for route, trip in it.product(routes, self.pending_trips):
             logger.debug(f"Yielding ({route}, {trip})...")
             yield from self._strategy.compute(route, trip)
 
-- 
2.43.0


From f8efded0881fd815fc8a54ba8d22e14ddb66226b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:24 +0000
Subject: [PATCH 09/20] fix: BestStatelessInsertionIterator passed its
 candidates as separate arguments

---
 jinete/algorithms/heuristics/insertion/iterators/stateless.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jinete/algorithms/heuristics/insertion/iterators/stateless.py b/jinete/algorithms/heuristics/insertion/iterators/stateless.py
index 9ddcb58..07e4eb8 100644
--- a/jinete/algorithms/heuristics/insertion/iterators/stateless.py
+++ b/jinete/algorithms/heuristics/insertion/iterators/stateless.py
@@ -56,7 +56,7 @@ class BestStatelessInsertionIterator(StatelessInsertionIterator):
         self.random = Random(seed)
 
     def __next__(self) -> Route:
-        candidates = self._criterion.nbest(self.randomized_size, *self.iterator)
+        candidates = self._criterion.nbest(self.randomized_size, self.iterator)
 
         if not any(candidates):
             raise StopIteration
-- 
2.43.0


From c76aef2f22dc1230bb63cdcb381313e60e336655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:53 +0000
Subject: [PATCH 10/20] fix: TwoOPT adopted several alternatives of one route
 at once

---
 .../heuristics/local_search/strategies/routes/two_opt.py    | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/jinete/algorithms/heuristics/local_search/strategies/routes/two_opt.py b/jinete/algorithms/heuristics/local_search/strategies/routes/two_opt.py
index 8a73514..1ac1cdf 100644
--- a/jinete/algorithms/heuristics/local_search/strategies/routes/two_opt.py
+++ b/jinete/algorithms/heuristics/local_search/strategies/routes/two_opt.py
@@ -19,6 +19,7 @@ class TwoOPTLocalSearchStrategy(LocalSearchStrategy):
         for route in self._routes:
             logger.info(f'Improving route performed with vehicle identified by "{route.vehicle_identifier}"...')
             cost = self._objective.optimization_function(route)
+            best_route = None
 
             for i, k in combinations(range(1, len(route.stops) - 1), 2):
                 j = k + 1
@@ -53,7 +54,10 @@ class TwoOPTLocalSearchStrategy(LocalSearchStrategy):
                     continue
 
                 logger.info(f'Improved planning with "{self.__class__.__name__}": "{new_cost}" > "{cost}"')
-                overwritten_routes.add(new_route)
+                best_route = new_route
                 cost = new_cost
 
+            if best_route is not None:
+                overwritten_routes.add(best_route)
+
         self._update_routes(overwritten_routes)
-- 
2.43.0


From 16d9fa900d2694b453db02571d8d0e57ec0bcac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:40 +0000
Subject: [PATCH 11/20] fix: the linear model used the pickup's service
 duration at delivery nodes

---
 jinete/algorithms/exacts/models/three_index.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jinete/algorithms/exacts/models/three_index.py b/jinete/algorithms/exacts/models/three_index.py
index a558f83..0519cb0 100644
--- a/jinete/algorithms/exacts/models/three_index.py
+++ b/jinete/algorithms/exacts/models/three_index.py
@@ -218,6 +218,8 @@ class ThreeIndexLinearModel(LinearModel):
         trip = self._trip_by_position_idx(idx)
         if trip is None:
             return 0
+        if not idx < len(self._positions) / 2:
+            return trip.destination_duration
         return trip.origin_duration
 
     def _timeout_by_position_idx(self, idx: int) -> float:
-- 
2.43.0


From 809e640dda155f5f0b6464d4205b14b0c2f0b48f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:54 +0000
Subject: [PATCH 12/20] fix: the linear model dropped arcs whose solved value
 is slightly below one

---
 jinete/algorithms/exacts/models/three_index.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jinete/algorithms/exacts/models/three_index.py b/jinete/algorithms/exacts/models/three_index.py
index 0519cb0..0de5123 100644
--- a/jinete/algorithms/exacts/models/three_index.py
+++ b/jinete/algorithms/exacts/models/three_index.py
@@ -424,7 +424,7 @@ class ThreeIndexLinearModel(LinearModel):
 
         positions = list()
         for i, j in product(ordered_trip_indexes, self._positions_indexer):
-            if not int(self._x[k][i][j].varValue) == 1:
+            if not round(self._x[k][i][j].varValue) == 1:
                 continue
             positions.append(self._positions[i])
         return positions
-- 
2.43.0


From e2746908831a6b3e43e42749216785e7575c112b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:20 +0000
Subject: [PATCH 13/20] fix: the linear model charged a penalty for travelling
 between nodes at one place

---
 jinete/algorithms/exacts/models/three_index.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/jinete/algorithms/exacts/models/three_index.py b/jinete/algorithms/exacts/models/three_index.py
index 0de5123..e43f3ab 100644
--- a/jinete/algorithms/exacts/models/three_index.py
+++ b/jinete/algorithms/exacts/models/three_index.py
@@ -151,10 +151,10 @@ class ThreeIndexLinearModel(LinearModel):
     @cached_property
     def _costs(self):
         costs = list()
-        for origin in self._positions:
+        for i, origin in enumerate(self._positions):
             origin_costs = list()
-            for destination in self._positions:
-                if origin == destination:
+            for j, destination in enumerate(self._positions):
+                if i == j:
                     cost = BIG
                 else:
                     cost = origin.distance_to(destination)
-- 
2.43.0


From 26105107b2a94fc6e2f48f750fa2ee3bd731883a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:37 +0000
Subject: [PATCH 14/20] fix: the linear model used the pickup window at a
 delivery in the same place

---
 jinete/algorithms/exacts/models/three_index.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/jinete/algorithms/exacts/models/three_index.py b/jinete/algorithms/exacts/models/three_index.py
index e43f3ab..379e105 100644
--- a/jinete/algorithms/exacts/models/three_index.py
+++ b/jinete/algorithms/exacts/models/three_index.py
@@ -191,16 +191,13 @@ class ThreeIndexLinearModel(LinearModel):
         return self._positions.index(position)
 
     def _time_window_by_position_idx(self, idx: int) -> Tuple[float, float]:
-        position = self._positions[idx]
         trip = self._trip_by_position_idx(idx)
         if trip is None:
             earliest, latest = 0, 1440
-        elif position == trip.origin_position:
+        elif idx < len(self._positions) / 2:
             earliest, latest = trip.origin_earliest, trip.origin_latest
-        elif position == trip.destination_position:
-            earliest, latest = trip.destination_earliest, trip.destination_latest
         else:
-            raise Exception("There was a problem related with earliest, latest indices.")
+            earliest, latest = trip.destination_earliest, trip.destination_latest
         return earliest, latest
 
     def _capacity_by_position_idx(self, idx: int) -> float:
-- 
2.43.0


From 140070a68dec7fa07a24a422d06132963c565592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:50 +0000
Subject: [PATCH 15/20] fix: adding a planned trip to a stop kept its
 remembered load and times

---
 jinete/models/stops.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jinete/models/stops.py b/jinete/models/stops.py
index 26da533..2911eed 100644
--- a/jinete/models/stops.py
+++ b/jinete/models/stops.py
@@ -122,10 +122,12 @@ class Stop(Model):
     def append_pickup(self, planned_trip: PlannedTrip) -> None:
         assert planned_trip.origin == self.position
         self.pickup_planned_trips.add(planned_trip)
+        self.flush()
 
     def append_delivery(self, planned_trip: PlannedTrip) -> None:
         assert planned_trip.destination == self.position
         self.delivery_planned_trips.add(planned_trip)
+        self.flush()
 
     @cached_property
     def feasible(self) -> bool:
-- 
2.43.0


From eec7d531ff5d67ef303bc46506080bda22656318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:41 +0000
Subject: [PATCH 16/20] fix: computing an insertion no longer shifts the start
 of the given route

The stops before the cloned part are shared with the given route, so only a
fully cloned route may get a new starting time at its first stop.
---
 jinete/algorithms/heuristics/insertion/strategies/abc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jinete/algorithms/heuristics/insertion/strategies/abc.py b/jinete/algorithms/heuristics/insertion/strategies/abc.py
index 1d5b068..c347053 100644
--- a/jinete/algorithms/heuristics/insertion/strategies/abc.py
+++ b/jinete/algorithms/heuristics/insertion/strategies/abc.py
@@ -68,7 +68,7 @@ class InsertionStrategy(object):
         return route
 
     def _improve_ride_times(self, route: Route, idx: int) -> None:
-        if route.stops[1].waiting_time != 0:
+        if idx == 0 and route.stops[1].waiting_time != 0:
             route.stops[0].starting_time = route.stops[1].waiting_time
             route.stops[0].flush(), route.stops[1].flush()
 
-- 
2.43.0


From 4be86f44162c6e48697784ff837920f64571b692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:28 +0000
Subject: [PATCH 17/20] fix: keep the best randomized_size candidates across
 all the rankings

---
 jinete/algorithms/heuristics/insertion/iterators/ranking.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/jinete/algorithms/heuristics/insertion/iterators/ranking.py b/jinete/algorithms/heuristics/insertion/iterators/ranking.py
index d8845ae..7acd08a 100644
--- a/jinete/algorithms/heuristics/insertion/iterators/ranking.py
+++ b/jinete/algorithms/heuristics/insertion/iterators/ranking.py
@@ -94,8 +94,7 @@ class RankingInsertionIterator(InsertionIterator):
                     candidates.pop()
 
                 candidates.append(current)
-
-            self._criterion.sorted(candidates, inplace=True)
+                self._criterion.sorted(candidates, inplace=True)
 
         if not any(candidates):
             raise StopIteration
-- 
2.43.0


From 2edb1ab47d7e0e225a9f76e6c74c29f08162cb8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:45 +0000
Subject: [PATCH 18/20] fix: GraspAlgorithm ignored its seed

---
 jinete/algorithms/metaheuristics/grasp.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jinete/algorithms/metaheuristics/grasp.py b/jinete/algorithms/metaheuristics/grasp.py
index 2471a85..9404d51 100644
--- a/jinete/algorithms/metaheuristics/grasp.py
+++ b/jinete/algorithms/metaheuristics/grasp.py
@@ -72,6 +72,7 @@ class GraspAlgorithm(Algorithm):
         self.no_improvement_threshold = no_improvement_threshold
         self.first_solution_kwargs = first_solution_kwargs
         self.local_search_kwargs = local_search_kwargs
+        self.seed = seed
         self.random = Random(seed)
         self.args = args
         self.kwargs = kwargs
@@ -99,6 +100,7 @@ class GraspAlgorithm(Algorithm):
         algorithm = IterativeAlgorithm(
             algorithm_cls=SequentialAlgorithm,
             algorithms_cls=[self._build_first_solution_algorithm(), self._build_local_search_algorithm()],
+            seed=self.seed,
             *self.args,
             **self.kwargs
         )
-- 
2.43.0


From 3730ed37051d3e03ddb1d012d63c18c07d167127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:45 +0000
Subject: [PATCH 19/20] fix: ReallocationLocalSearchStrategy drew from the
 process-wide random state

---
 .../local_search/strategies/plannings/reallocation.py    | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/jinete/algorithms/heuristics/local_search/strategies/plannings/reallocation.py b/jinete/algorithms/heuristics/local_search/strategies/plannings/reallocation.py
index feb0598..2ea6c58 100644
--- a/jinete/algorithms/heuristics/local_search/strategies/plannings/reallocation.py
+++ b/jinete/algorithms/heuristics/local_search/strategies/plannings/reallocation.py
@@ -1,5 +1,8 @@
 import itertools as it
 import logging
+from random import (
+    Random,
+)
 
 from jinete.utils import (
     sample_index_pairs,
@@ -13,6 +16,10 @@ logger = logging.getLogger(__name__)
 
 
 class ReallocationLocalSearchStrategy(LocalSearchStrategy):
+    def __init__(self, *args, seed: int = 56, **kwargs):
+        super().__init__(*args, **kwargs)
+        self.random = Random(seed)
+
     def _improve(self) -> None:
         from ....insertion import InsertionStrategy  # FIXME Should this import come from "insertion" module?
 
@@ -37,7 +44,7 @@ class ReallocationLocalSearchStrategy(LocalSearchStrategy):
 
                 partial_cost_origin = partial_cost + self._objective.optimization_function(new_origin)[-1]
 
-                for i, j in sample_index_pairs(len(destination.stops), 128):
+                for i, j in sample_index_pairs(len(destination.stops), 128, self.random):
                     destinations = strategy.compute(destination, trip, i, j)
                     if not any(destinations):
                         continue
-- 
2.43.0


From 7a1168aca0df7ff45f8c8ae21a9ad4e9153758ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:20:01 +0000
Subject: [PATCH 20/20] fix: the linear model lost trips that share a place
 with other trips

Solutions were read back by position, so trips with a common origin lost all but
one of them and trips with a common destination failed with IndexError.
---
 .../algorithms/exacts/models/three_index.py   | 78 ++++++-------------
 1 file changed, 24 insertions(+), 54 deletions(-)

diff --git a/jinete/algorithms/exacts/models/three_index.py b/jinete/algorithms/exacts/models/three_index.py
index 379e105..5223377 100644
--- a/jinete/algorithms/exacts/models/three_index.py
+++ b/jinete/algorithms/exacts/models/three_index.py
@@ -5,9 +5,6 @@ from __future__ import (
 )
 
 import logging
-from collections import (
-    defaultdict,
-)
 from itertools import (
     product,
 )
@@ -187,9 +184,6 @@ class ThreeIndexLinearModel(LinearModel):
             return None
         return self._trips[(idx % self._n) - 1]
 
-    def _idx_by_position(self, position: Position):
-        return self._positions.index(position)
-
     def _time_window_by_position_idx(self, idx: int) -> Tuple[float, float]:
         trip = self._trip_by_position_idx(idx)
         if trip is None:
@@ -381,70 +375,46 @@ class ThreeIndexLinearModel(LinearModel):
             vehicle = self._vehicles[k]
             route = Route(vehicle)
 
-            positions = self._solution_to_positions(k)
-            stops = self._positions_to_stops(route, positions)
-            trips = self._positions_to_trips(positions)
+            stops = self._nodes_to_stops(route, self._solution_to_nodes(k))
 
-            self._build_planned_trips(vehicle, trips, stops)
+            self._build_planned_trips(vehicle, stops)
             self._adjust_waiting_times(stops, k)
 
-            for stop in stops:
+            for stop in stops.values():
                 route.insert_stop(stop)
 
             routes.add(route)
         return routes
 
-    def _positions_to_trips(self, positions) -> List[Trip]:
-        trips: List[Trip] = list()
-        for position in positions:
-            trip = next((trip for trip in self._trips if trip.origin_position == position), None)
-            if trip is None:
-                continue
-            if trip in trips:
-                continue
-            trips.append(trip)
-        return trips
-
-    def _build_planned_trips(self, vehicle: Vehicle, trips: List[Trip], stops: List[Stop]) -> List[PlannedTrip]:
-        stop_mapper = self._stop_to_stop_mapper(stops)
-
+    def _build_planned_trips(self, vehicle: Vehicle, stops: Dict[int, Stop]) -> List[PlannedTrip]:
         planned_trips = list()
-        for trip in trips:
-            pickup = stop_mapper[trip.origin_position].pop(0)
-            delivery = stop_mapper[trip.destination_position].pop(0)
-            planned_trip = PlannedTrip(vehicle, trip, pickup, delivery)
+        for i in self._pickups_indexer:
+            if i not in stops:
+                continue
+            planned_trip = PlannedTrip(vehicle, self._trips[i - 1], stops[i], stops[i + self._n])
             planned_trips.append(planned_trip)
         return planned_trips
 
-    def _solution_to_positions(self, k: int) -> List[Position]:
-        ordered_trip_indexes = [idx for idx in sorted(range(len(self._u[k])), key=lambda x: self._u[k][x].varValue)]
+    def _solution_to_nodes(self, k: int) -> List[int]:
+        ordered_nodes = [idx for idx in sorted(range(len(self._u[k])), key=lambda x: self._u[k][x].varValue)]
 
-        positions = list()
-        for i, j in product(ordered_trip_indexes, self._positions_indexer):
+        nodes = list()
+        for i, j in product(ordered_nodes, self._positions_indexer):
             if not round(self._x[k][i][j].varValue) == 1:
                 continue
-            positions.append(self._positions[i])
-        return positions
-
-    @staticmethod
-    def _positions_to_stops(route, positions) -> List[Stop]:
-        stops = [route.first_stop]
-        for position in positions:
-            if position == stops[-1].position:
+            nodes.append(i)
+        return nodes
+
+    def _nodes_to_stops(self, route: Route, nodes: List[int]) -> Dict[int, Stop]:
+        stops = {0: route.first_stop}
+        previous = route.first_stop
+        for i in nodes:
+            if i in stops:
                 continue
-            pickup = Stop(route.vehicle, position, stops[-1])
-            stops.append(pickup)
+            previous = stops[i] = Stop(route.vehicle, self._positions[i], previous)
         return stops
 
-    @staticmethod
-    def _stop_to_stop_mapper(stops: List[Stop]) -> Dict[Position, List[Stop]]:
-        mapper: Dict[Position, List[Stop]] = defaultdict(list)
-        for stop in stops:
-            mapper[stop.position].append(stop)
-        return mapper
-
-    def _adjust_waiting_times(self, stops: List[Stop], k: int):
-        starting_times = tuple(float(u_k.varValue) for u_k in self._u[k])
-        for stop in stops:
+    def _adjust_waiting_times(self, stops: Dict[int, Stop], k: int):
+        for i, stop in stops.items():
             stop.flush()
-            stop.starting_time = starting_times[self._idx_by_position(stop.position)]
+            stop.starting_time = float(self._u[k][i].varValue)
-- 
2.43.0

