From b1e7569b498ad5ccec8c1ed3cd5f26e53c22472c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:49 +0000
Subject: [PATCH 01/33] fix: derive the pickup window of a trip from the
 pickup's own service time

The delivery starts once the pickup is over, so the pickup bounds implied by
the delivery window depend on the duration of the pickup service; the
duration of the delivery service was used instead.
---
 jinete/models/trips.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jinete/models/trips.py b/jinete/models/trips.py
index 05ae73c..df307a5 100644
--- a/jinete/models/trips.py
+++ b/jinete/models/trips.py
@@ -117,12 +117,12 @@ class Trip(Model):
 
     @property
     def origin_earliest(self) -> float:
-        return max(self.destination.earliest - self.destination.duration - self.timeout, self.origin.earliest,)
+        return max(self.destination.earliest - self.origin.duration - self.timeout, self.origin.earliest,)
 
     @property
     def origin_latest(self) -> float:
         return min(
-            self.destination.latest - self.destination.duration - self.origin.time_to(self.destination),
+            self.destination.latest - self.origin.duration - self.origin.time_to(self.destination),
             self.origin.latest,
         )
 
-- 
2.43.0


From 548291756716d33d8ac256a309a37d523e2e0532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:49 +0000
Subject: [PATCH 02/33] fix: forget the feasibility of routes and stops when
 they are edited

The cached feasibility survived stop insertions, removals and flips, and the
stops' own one survived every flush, so that edited routes kept reporting the
verdict they had before the edition. The flip also kept the times of the stop
moved forward. Inserting a stop returned the last stop of the route instead
of the inserted one.
---
 .../heuristics/local_search/strategies/routes/one_shift.py  | 3 +--
 jinete/models/routes.py                                     | 6 ++++--
 jinete/models/stops.py                                      | 1 +
 3 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/jinete/algorithms/heuristics/local_search/strategies/routes/one_shift.py b/jinete/algorithms/heuristics/local_search/strategies/routes/one_shift.py
index 67ed11e..831e008 100644
--- a/jinete/algorithms/heuristics/local_search/strategies/routes/one_shift.py
+++ b/jinete/algorithms/heuristics/local_search/strategies/routes/one_shift.py
@@ -48,5 +48,4 @@ class OneShiftLocalSearchStrategy(LocalSearchStrategy):
         other.previous = previous.previous
         previous.previous = other
 
-        for stop in route.stops[self_index:]:
-            stop.flush()
+        route.flush()
diff --git a/jinete/models/routes.py b/jinete/models/routes.py
index 3f3dba2..f76c8b5 100644
--- a/jinete/models/routes.py
+++ b/jinete/models/routes.py
@@ -251,8 +251,9 @@ class Route(Model):
 
         self.stops.insert(idx, stop)
 
-        for stop in self.stops[idx:]:
-            stop.flush()
+        self.__dict__.pop("feasible", None)
+        for following in self.stops[idx:]:
+            following.flush()
 
         return stop
 
@@ -265,6 +266,7 @@ class Route(Model):
 
         removed_stop = self.stops.pop(idx)
 
+        self.__dict__.pop("feasible", None)
         for stop in self.stops[idx:]:
             stop.flush()
         return removed_stop
diff --git a/jinete/models/stops.py b/jinete/models/stops.py
index bb3833f..26da533 100644
--- a/jinete/models/stops.py
+++ b/jinete/models/stops.py
@@ -227,6 +227,7 @@ class Stop(Model):
             "arrival_time",
             "departure_time",
             "capacity",
+            "feasible",
         ):
             self.__dict__.pop(key, None)
         for planned_trip in self.planned_trips:
-- 
2.43.0


From 06a14e5f4247b0d90eb740045e0d44db1d08603a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:49 +0000
Subject: [PATCH 03/33] fix: rank the whole set of candidates on the best
 stateless iterator

---
 jinete/algorithms/heuristics/insertion/iterators/stateless.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jinete/algorithms/heuristics/insertion/iterators/stateless.py b/jinete/algorithms/heuristics/insertion/iterators/stateless.py
index e0a5c4e..385ff35 100644
--- a/jinete/algorithms/heuristics/insertion/iterators/stateless.py
+++ b/jinete/algorithms/heuristics/insertion/iterators/stateless.py
@@ -55,7 +55,7 @@ class BestStatelessInsertionIterator(StatelessInsertionIterator):
         self.random = Random(seed)
 
     def __next__(self) -> Route:
-        candidates = self._criterion.nbest(self.randomized_size, *self.iterator)
+        candidates = self._criterion.nbest(self.randomized_size, self.iterator)
 
         if not any(candidates):
             raise StopIteration
-- 
2.43.0


From 40afece2b61973c219e3e9a17f1dd42cbff649f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:49 +0000
Subject: [PATCH 04/33] fix: report plannings without routes as feasible
 instead of failing

---
 jinete/models/plannings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jinete/models/plannings.py b/jinete/models/plannings.py
index d489f89..df171ff 100644
--- a/jinete/models/plannings.py
+++ b/jinete/models/plannings.py
@@ -74,7 +74,7 @@ class Planning(Model):
 
     @property
     def feasible(self) -> bool:
-        return reduce(and_, (route.feasible for route in self.routes))
+        return reduce(and_, (route.feasible for route in self.routes), True)
 
     def __iter__(self) -> Generator[Tuple[str, Any], None, None]:
         yield from (("uuid", self.uuid), ("route_identifiers", tuple(route.identifier for route in self.routes)))
-- 
2.43.0


From 267489ad3d675294bb39b34fc1928bbd8274f281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:49 +0000
Subject: [PATCH 05/33] fix: report full coverage for jobs without trips
 instead of failing

---
 jinete/models/results.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jinete/models/results.py b/jinete/models/results.py
index 79fdd8d..131890b 100644
--- a/jinete/models/results.py
+++ b/jinete/models/results.py
@@ -78,6 +78,8 @@ class Result(Model):
 
     @property
     def coverage_rate(self):
+        if not any(self.job.trips):
+            return 1.0
         return len(self.completed_trips) / len(self.job.trips)
 
     @property
-- 
2.43.0


From 6d2bbd4e0aafec8fea27de6cea62241c1e67a807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:11 +0000
Subject: [PATCH 06/33] fix: offer the current routes and an empty one on every
 insertion step

The set of attractive routes was computed once and kept the routes as they
were at that moment: stateless iterators inserted over outdated routes,
losing the trips inserted before, and iterators built from loaded routes
never used an empty vehicle.
---
 .../heuristics/insertion/iterators/abc.py        | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/jinete/algorithms/heuristics/insertion/iterators/abc.py b/jinete/algorithms/heuristics/insertion/iterators/abc.py
index bbad14f..4c00544 100644
--- a/jinete/algorithms/heuristics/insertion/iterators/abc.py
+++ b/jinete/algorithms/heuristics/insertion/iterators/abc.py
@@ -77,7 +77,6 @@ class InsertionIterator(ABC):
         self.fleet = fleet
         self.job = job
         self.routes_container = {route.vehicle: route for route in routes}
-        self.__attractive_routes = None
         self.pending_trips = pending_trips
 
         self.strategy_cls = strategy_cls
@@ -92,14 +91,13 @@ class InsertionIterator(ABC):
 
     @property
     def _attractive_routes(self) -> Set[Route]:
-        if self.__attractive_routes is None:
-            self.__attractive_routes = set(route for route in self._routes if any(route.planned_trips))
-
-        if not any(any(route.planned_trips) for route in self.__attractive_routes):
-            empty_route = next((route for route in self._routes if not any(route.planned_trips)), None)
-            if empty_route is not None:
-                self.__attractive_routes.add(empty_route)
-        return self.__attractive_routes
+        routes = self.routes_container.values()
+        attractive_routes = set(route for route in routes if any(route.planned_trips))
+
+        empty_route = next((route for route in routes if not any(route.planned_trips)), None)
+        if empty_route is not None:
+            attractive_routes.add(empty_route)
+        return attractive_routes
 
     def _set_route(self, route: Route) -> None:
         vehicle = route.vehicle
-- 
2.43.0


From 1aebc25cdb950097e9aeb9069390ecc51116f248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:11 +0000
Subject: [PATCH 07/33] fix: keep only the best improvement of each route on
 2-opt

Every improvement found for a route was added to the planning, duplicating
the vehicle and its trips.
---
 .../heuristics/local_search/strategies/routes/two_opt.py    | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/jinete/algorithms/heuristics/local_search/strategies/routes/two_opt.py b/jinete/algorithms/heuristics/local_search/strategies/routes/two_opt.py
index 8a73514..1ac1cdf 100644
--- a/jinete/algorithms/heuristics/local_search/strategies/routes/two_opt.py
+++ b/jinete/algorithms/heuristics/local_search/strategies/routes/two_opt.py
@@ -19,6 +19,7 @@ class TwoOPTLocalSearchStrategy(LocalSearchStrategy):
         for route in self._routes:
             logger.info(f'Improving route performed with vehicle identified by "{route.vehicle_identifier}"...')
             cost = self._objective.optimization_function(route)
+            best_route = None
 
             for i, k in combinations(range(1, len(route.stops) - 1), 2):
                 j = k + 1
@@ -53,7 +54,10 @@ class TwoOPTLocalSearchStrategy(LocalSearchStrategy):
                     continue
 
                 logger.info(f'Improved planning with "{self.__class__.__name__}": "{new_cost}" > "{cost}"')
-                overwritten_routes.add(new_route)
+                best_route = new_route
                 cost = new_cost
 
+            if best_route is not None:
+                overwritten_routes.add(best_route)
+
         self._update_routes(overwritten_routes)
-- 
2.43.0


From b841c18ffef424118d47d7a13cb4c898085fe2e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:11 +0000
Subject: [PATCH 08/33] fix: use the local search strategy requested to the
 sequential algorithm

The requested strategy was dropped by the local search step and handed to the
insertion step, which failed to build it (as on the two-opt example).
---
 jinete/algorithms/metaheuristics/sequential.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/jinete/algorithms/metaheuristics/sequential.py b/jinete/algorithms/metaheuristics/sequential.py
index 61b250d..5c88cde 100644
--- a/jinete/algorithms/metaheuristics/sequential.py
+++ b/jinete/algorithms/metaheuristics/sequential.py
@@ -62,12 +62,20 @@ class SequentialAlgorithm(Algorithm):
             from ..heuristics import (
                 InsertionAlgorithm,
                 LocalSearchAlgorithm,
+                LocalSearchStrategy,
                 ReallocationLocalSearchStrategy,
             )
 
+            local_search_kwargs = {**kwargs, "strategy_cls": ReallocationLocalSearchStrategy}
+            insertion_kwargs = kwargs.copy()
+
+            strategy_cls = kwargs.get("strategy_cls", None)
+            if strategy_cls is not None and issubclass(strategy_cls, LocalSearchStrategy):
+                local_search_kwargs["strategy_cls"] = insertion_kwargs.pop("strategy_cls")
+
             algorithms_cls = [
-                (LocalSearchAlgorithm, {**kwargs, "strategy_cls": ReallocationLocalSearchStrategy}),
-                (InsertionAlgorithm, kwargs),
+                (LocalSearchAlgorithm, local_search_kwargs),
+                (InsertionAlgorithm, insertion_kwargs),
             ]
 
         self.random = Random(seed)
-- 
2.43.0


From f115654d3c6a420e89aa9ffc01a25c5dd59bcd25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:51 +0000
Subject: [PATCH 09/33] fix: delay the departure of a route without touching
 the original one

The start of the first stop was set to the waiting time of the second one
instead of being delayed by it, and the first stop may be shared with the
route being extended.
---
 jinete/algorithms/heuristics/insertion/strategies/abc.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/jinete/algorithms/heuristics/insertion/strategies/abc.py b/jinete/algorithms/heuristics/insertion/strategies/abc.py
index 1d5b068..7f9c470 100644
--- a/jinete/algorithms/heuristics/insertion/strategies/abc.py
+++ b/jinete/algorithms/heuristics/insertion/strategies/abc.py
@@ -68,9 +68,9 @@ class InsertionStrategy(object):
         return route
 
     def _improve_ride_times(self, route: Route, idx: int) -> None:
-        if route.stops[1].waiting_time != 0:
-            route.stops[0].starting_time = route.stops[1].waiting_time
-            route.stops[0].flush(), route.stops[1].flush()
+        if idx == 0 and route.stops[1].waiting_time != 0:
+            route.stops[0].starting_time += route.stops[1].waiting_time
+            route.flush()
 
         if route.feasible:
             return
-- 
2.43.0


From 92a39e66c777b93d36df926db1a83378a8064ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:05 +0000
Subject: [PATCH 10/33] fix: pick among the best candidates of all the vehicles
 on the ranking

When the restricted list of candidates was full, only its last added member
was replaced, so that better candidates of other vehicles were left out.
---
 .../heuristics/insertion/iterators/ranking.py | 20 ++-----------------
 1 file changed, 2 insertions(+), 18 deletions(-)

diff --git a/jinete/algorithms/heuristics/insertion/iterators/ranking.py b/jinete/algorithms/heuristics/insertion/iterators/ranking.py
index d8845ae..d403757 100644
--- a/jinete/algorithms/heuristics/insertion/iterators/ranking.py
+++ b/jinete/algorithms/heuristics/insertion/iterators/ranking.py
@@ -78,24 +78,8 @@ class RankingInsertionIterator(InsertionIterator):
         if not any(self.ranking):
             raise StopIteration
 
-        candidates = list()
-        for sub_ranking in self.ranking.values():
-            if not any(sub_ranking):
-                continue
-
-            for current in sub_ranking:
-                if (
-                    len(candidates) == self.randomized_size
-                    and self._criterion.best(candidates[-1], current) == candidates[-1]
-                ):
-                    break
-
-                if self.randomized_size <= len(candidates):
-                    candidates.pop()
-
-                candidates.append(current)
-
-            self._criterion.sorted(candidates, inplace=True)
+        heads = (sub_ranking[: self.randomized_size] for sub_ranking in self.ranking.values())
+        candidates = self._criterion.nbest(self.randomized_size, it.chain.from_iterable(heads))
 
         if not any(candidates):
             raise StopIteration
-- 
2.43.0


From 97548c7068ff805350b52ea6b24e9bb85d8554e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:22 +0000
Subject: [PATCH 11/33] fix: bound the arrival of HashCode rides instead of
 their departure

The latest finish of a ride limits when it must be completed, but it was
loaded as the latest time to pick the passenger up, so rides finishing too
late were accepted.
---
 jinete/loaders/formatters/hashcode.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jinete/loaders/formatters/hashcode.py b/jinete/loaders/formatters/hashcode.py
index ee20fb9..56eec81 100644
--- a/jinete/loaders/formatters/hashcode.py
+++ b/jinete/loaders/formatters/hashcode.py
@@ -70,8 +70,8 @@ class HashCodeLoaderFormatter(LoaderFormatter):
         earliest: float,
         latest: float,
     ) -> Trip:
-        origin = Service(position=surface.get_or_create_position([x1, y1]), earliest=earliest, latest=latest,)
-        destination = Service(position=surface.get_or_create_position([x2, y2]),)
+        origin = Service(position=surface.get_or_create_position([x1, y1]), earliest=earliest,)
+        destination = Service(position=surface.get_or_create_position([x2, y2]), latest=latest,)
         trip = Trip(identifier, on_time_bonus=bonus, origin=origin, destination=destination)
         logger.debug("Created trip!")
         return trip
-- 
2.43.0


From 9117c4fb3b194247fe5ed7b8a5e6a5ceba91b108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:26 +0000
Subject: [PATCH 12/33] fix: load the planning horizon of the depot on
 Cordeau-Laporte instances

The time window of the depot was ignored, so routes could come back after
the end of the horizon.
---
 jinete/loaders/formatters/cordeau_laporte.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jinete/loaders/formatters/cordeau_laporte.py b/jinete/loaders/formatters/cordeau_laporte.py
index 8876498..6b9062d 100644
--- a/jinete/loaders/formatters/cordeau_laporte.py
+++ b/jinete/loaders/formatters/cordeau_laporte.py
@@ -46,7 +46,7 @@ class CordeauLaporteLoaderFormatter(LoaderFormatter):
         depot_row = self.data[1]
         depot_position = surface.get_or_create_position(depot_row[1:3])
 
-        origin = Service(depot_position)
+        origin = Service(depot_position, earliest=depot_row[5], latest=depot_row[6])
 
         capacity = row[3]
         timeout = row[2]
-- 
2.43.0


From 368017da0eefbfbbd1ad159a5c58eee94651b730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:56 +0000
Subject: [PATCH 13/33] fix: use the windows and durations of each node on the
 MILP model

The deliveries used the duration of the pickups, the deliveries performed at
the same place as their pickup used the window of the latter, and the shift
of the vehicles was ignored.
---
 jinete/algorithms/exacts/models/three_index.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/jinete/algorithms/exacts/models/three_index.py b/jinete/algorithms/exacts/models/three_index.py
index a558f83..b4a6618 100644
--- a/jinete/algorithms/exacts/models/three_index.py
+++ b/jinete/algorithms/exacts/models/three_index.py
@@ -47,6 +47,7 @@ if TYPE_CHECKING:
 logger = logging.getLogger(__name__)
 
 BIG = 10000
+HORIZON = 1440
 
 
 class ThreeIndexLinearModel(LinearModel):
@@ -191,16 +192,14 @@ class ThreeIndexLinearModel(LinearModel):
         return self._positions.index(position)
 
     def _time_window_by_position_idx(self, idx: int) -> Tuple[float, float]:
-        position = self._positions[idx]
         trip = self._trip_by_position_idx(idx)
         if trip is None:
-            earliest, latest = 0, 1440
-        elif position == trip.origin_position:
+            vehicle = self._vehicles[0]
+            earliest, latest = vehicle.origin_earliest, min(vehicle.destination_latest, HORIZON)
+        elif idx <= self._n:
             earliest, latest = trip.origin_earliest, trip.origin_latest
-        elif position == trip.destination_position:
-            earliest, latest = trip.destination_earliest, trip.destination_latest
         else:
-            raise Exception("There was a problem related with earliest, latest indices.")
+            earliest, latest = trip.destination_earliest, trip.destination_latest
         return earliest, latest
 
     def _capacity_by_position_idx(self, idx: int) -> float:
@@ -218,7 +217,9 @@ class ThreeIndexLinearModel(LinearModel):
         trip = self._trip_by_position_idx(idx)
         if trip is None:
             return 0
-        return trip.origin_duration
+        if idx <= self._n:
+            return trip.origin_duration
+        return trip.destination_duration
 
     def _timeout_by_position_idx(self, idx: int) -> float:
         trip = self._trip_by_position_idx(idx)
-- 
2.43.0


From 3c79e41fd28d70117331411ec738c7b251df35da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:56 +0000
Subject: [PATCH 14/33] fix: do not penalize the travels between coincident
 places on the MILP model

Any travel between equal positions was penalized, including the one of the
vehicles that stay at the depot, so optimal solutions were discarded. Only
the travels from a node to itself are meaningless, and they are forbidden
(as the ones to the initial depot and from the final one).
---
 jinete/algorithms/exacts/models/three_index.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/jinete/algorithms/exacts/models/three_index.py b/jinete/algorithms/exacts/models/three_index.py
index b4a6618..c33e916 100644
--- a/jinete/algorithms/exacts/models/three_index.py
+++ b/jinete/algorithms/exacts/models/three_index.py
@@ -152,10 +152,10 @@ class ThreeIndexLinearModel(LinearModel):
     @cached_property
     def _costs(self):
         costs = list()
-        for origin in self._positions:
+        for i, origin in enumerate(self._positions):
             origin_costs = list()
-            for destination in self._positions:
-                if origin == destination:
+            for j, destination in enumerate(self._positions):
+                if i == j:
                     cost = BIG
                 else:
                     cost = origin.distance_to(destination)
@@ -247,7 +247,12 @@ class ThreeIndexLinearModel(LinearModel):
     def _connectivity_constraints(self) -> List[lp.LpConstraint]:
         constraints = list()
 
+        last = len(self._positions) - 1
         for k in self._routes_indexer:
+            constraints.extend(self._x[k][i][i] == 0 for i in self._positions_indexer)
+            constraints.extend(self._x[k][i][0] == 0 for i in self._positions_indexer)
+            constraints.extend(self._x[k][last][j] == 0 for j in self._positions_indexer)
+
             lhs = lp.lpSum(self._x[k][0][j] for j in self._positions_indexer)
             constraints.append(lhs == 1)
 
-- 
2.43.0


From 9bb51c12b494f90e24038084d779bf8cfb772dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:27 +0000
Subject: [PATCH 15/33] fix: rebuild MILP routes from the travels between nodes

Routes were rebuilt from positions, so requests sharing a place were mixed up
or lost their starting times, and truncating the variables lost travels.
---
 .../algorithms/exacts/models/three_index.py   | 97 ++++++-------------
 1 file changed, 29 insertions(+), 68 deletions(-)

diff --git a/jinete/algorithms/exacts/models/three_index.py b/jinete/algorithms/exacts/models/three_index.py
index c33e916..d67a2d2 100644
--- a/jinete/algorithms/exacts/models/three_index.py
+++ b/jinete/algorithms/exacts/models/three_index.py
@@ -5,9 +5,6 @@ from __future__ import (
 )
 
 import logging
-from collections import (
-    defaultdict,
-)
 from itertools import (
     product,
 )
@@ -36,7 +33,6 @@ if TYPE_CHECKING:
         Tuple,
         Iterable,
         Optional,
-        Dict,
     )
     from jinete.models import (
         Trip,
@@ -188,9 +184,6 @@ class ThreeIndexLinearModel(LinearModel):
             return None
         return self._trips[(idx % self._n) - 1]
 
-    def _idx_by_position(self, position: Position):
-        return self._positions.index(position)
-
     def _time_window_by_position_idx(self, idx: int) -> Tuple[float, float]:
         trip = self._trip_by_position_idx(idx)
         if trip is None:
@@ -386,72 +379,40 @@ class ThreeIndexLinearModel(LinearModel):
         routes = set()
         for k in self._routes_indexer:
             vehicle = self._vehicles[k]
-            route = Route(vehicle)
-
-            positions = self._solution_to_positions(k)
-            stops = self._positions_to_stops(route, positions)
-            trips = self._positions_to_trips(positions)
-
-            self._build_planned_trips(vehicle, trips, stops)
-            self._adjust_waiting_times(stops, k)
-
-            for stop in stops:
-                route.insert_stop(stop)
-
+            nodes = self._solution_to_nodes(k)
+            stops = self._nodes_to_stops(vehicle, nodes)
+            self._build_planned_trips(vehicle, nodes, stops)
+            self._adjust_starting_times(nodes, stops, k)
+            route = Route(vehicle, stops)
             routes.add(route)
         return routes
 
-    def _positions_to_trips(self, positions) -> List[Trip]:
-        trips: List[Trip] = list()
-        for position in positions:
-            trip = next((trip for trip in self._trips if trip.origin_position == position), None)
-            if trip is None:
-                continue
-            if trip in trips:
-                continue
-            trips.append(trip)
-        return trips
-
-    def _build_planned_trips(self, vehicle: Vehicle, trips: List[Trip], stops: List[Stop]) -> List[PlannedTrip]:
-        stop_mapper = self._stop_to_stop_mapper(stops)
+    def _solution_to_nodes(self, k: int) -> List[int]:
+        nodes = [0]
+        while nodes[-1] != len(self._positions) - 1:
+            following = next(j for j in self._positions_indexer if round(self._x[k][nodes[-1]][j].varValue) == 1)
+            assert following not in nodes
+            nodes.append(following)
+        return nodes
+
+    def _nodes_to_stops(self, vehicle: Vehicle, nodes: List[int]) -> List[Stop]:
+        stops: List[Stop] = list()
+        for idx in nodes:
+            stops.append(Stop(vehicle, self._positions[idx], stops[-1] if any(stops) else None))
+        return stops
 
+    def _build_planned_trips(self, vehicle: Vehicle, nodes: List[int], stops: List[Stop]) -> List[PlannedTrip]:
+        stop_mapper = dict(zip(nodes, stops))
         planned_trips = list()
-        for trip in trips:
-            pickup = stop_mapper[trip.origin_position].pop(0)
-            delivery = stop_mapper[trip.destination_position].pop(0)
-            planned_trip = PlannedTrip(vehicle, trip, pickup, delivery)
+        for idx in nodes:
+            if idx not in self._pickups_indexer:
+                continue
+            planned_trip = PlannedTrip(
+                vehicle, self._trip_by_position_idx(idx), stop_mapper[idx], stop_mapper[idx + self._n]
+            )
             planned_trips.append(planned_trip)
         return planned_trips
 
-    def _solution_to_positions(self, k: int) -> List[Position]:
-        ordered_trip_indexes = [idx for idx in sorted(range(len(self._u[k])), key=lambda x: self._u[k][x].varValue)]
-
-        positions = list()
-        for i, j in product(ordered_trip_indexes, self._positions_indexer):
-            if not int(self._x[k][i][j].varValue) == 1:
-                continue
-            positions.append(self._positions[i])
-        return positions
-
-    @staticmethod
-    def _positions_to_stops(route, positions) -> List[Stop]:
-        stops = [route.first_stop]
-        for position in positions:
-            if position == stops[-1].position:
-                continue
-            pickup = Stop(route.vehicle, position, stops[-1])
-            stops.append(pickup)
-        return stops
-
-    @staticmethod
-    def _stop_to_stop_mapper(stops: List[Stop]) -> Dict[Position, List[Stop]]:
-        mapper: Dict[Position, List[Stop]] = defaultdict(list)
-        for stop in stops:
-            mapper[stop.position].append(stop)
-        return mapper
-
-    def _adjust_waiting_times(self, stops: List[Stop], k: int):
-        starting_times = tuple(float(u_k.varValue) for u_k in self._u[k])
-        for stop in stops:
-            stop.flush()
-            stop.starting_time = starting_times[self._idx_by_position(stop.position)]
+    def _adjust_starting_times(self, nodes: List[int], stops: List[Stop], k: int) -> None:
+        for idx, stop in zip(nodes, stops):
+            stop.starting_time = float(self._u[k][idx].varValue)
-- 
2.43.0


From 43216f752c0fd9a519d63a4fced5e519b95e1882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:50 +0000
Subject: [PATCH 16/33] fix: compute the times and loads of long routes without
 deep recursion

The values of a stop were computed by recursion over all the previous ones,
so routes with some hundreds of stops exceeded the recursion limit.
---
 jinete/models/stops.py | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/jinete/models/stops.py b/jinete/models/stops.py
index 26da533..f7b3890 100644
--- a/jinete/models/stops.py
+++ b/jinete/models/stops.py
@@ -107,13 +107,27 @@ class Stop(Model):
     def previous_capacity(self) -> float:
         if self.previous is None:
             return 0
+        self._warm_previous("capacity")
         return self.previous.capacity
 
     @property
     def all_previous(self) -> List[Stop]:
-        if self.previous is None:
-            return []
-        return [self.previous] + self.previous.all_previous
+        stops = []
+        current = self.previous
+        while current is not None:
+            stops.append(current)
+            current = current.previous
+        return stops
+
+    def _warm_previous(self, attribute: str) -> None:
+        """Compute an attribute of the previous stops from first to last, to not to depend on the recursion limit."""
+        pending = []
+        current = self.previous
+        while current is not None and attribute not in current.__dict__:
+            pending.append(current)
+            current = current.previous
+        for stop in reversed(pending):
+            getattr(stop, attribute)
 
     @property
     def all_previous_pickups(self) -> Iterator[PlannedTrip]:
@@ -158,6 +172,7 @@ class Stop(Model):
     def previous_departure_time(self) -> float:
         if self.previous is None:
             return self.vehicle.origin_earliest
+        self._warm_previous("departure_time")
         return self.previous.departure_time
 
     @property
@@ -235,5 +250,5 @@ class Stop(Model):
 
     def flush_all_previous(self):
         self.flush()
-        if self.previous is not None:
-            self.previous.flush_all_previous()
+        for stop in self.all_previous:
+            stop.flush()
-- 
2.43.0


From a0b2162355ca13595bf6e0888b31bd69fb168645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:38 +0000
Subject: [PATCH 17/33] fix: copy long routes without deep recursion

Stops reference each other through their planned trips, so copying a long
route on which the rides overlap exceeded the recursion limit.
---
 jinete/models/routes.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/jinete/models/routes.py b/jinete/models/routes.py
index f76c8b5..7db42c3 100644
--- a/jinete/models/routes.py
+++ b/jinete/models/routes.py
@@ -83,7 +83,21 @@ class Route(Model):
         route = Route(vehicle)
         memo[id(self)] = route
 
-        route.stops = deepcopy(self.stops, memo)
+        # The stops are created before being filled, as they reference each other through their planned trips.
+        route.stops = []
+        for stop in self.stops:
+            new_stop = Stop(
+                deepcopy(stop.vehicle, memo),
+                deepcopy(stop.position, memo),
+                deepcopy(stop.previous, memo),
+                starting_time=stop._starting_time,
+            )
+            memo[id(stop)] = new_stop
+            route.stops.append(new_stop)
+
+        for stop, new_stop in zip(self.stops, route.stops):
+            new_stop.pickup_planned_trips = deepcopy(stop.pickup_planned_trips, memo)
+            new_stop.delivery_planned_trips = deepcopy(stop.delivery_planned_trips, memo)
 
         return route
 
-- 
2.43.0


From f3017a52b5a7be17b2e0eba7c981a90d40051c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:05 +0000
Subject: [PATCH 18/33] fix: keep the other trips of a shared stop when one of
 them is removed

---
 jinete/models/routes.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/jinete/models/routes.py b/jinete/models/routes.py
index 7db42c3..8746126 100644
--- a/jinete/models/routes.py
+++ b/jinete/models/routes.py
@@ -300,15 +300,23 @@ class Route(Model):
 
     def remove_trip(self, trip: Trip) -> None:
 
-        old_len = len(self.stops)
+        assert trip in self.trips
 
         for i in reversed(range(len(self.stops))):
             stop = self.stops[i]
             if trip not in stop.trips:
                 continue
-            self.remove_stop_at(i)
 
-        assert old_len - 2 == len(self.stops)
+            if all(trip == other for other in stop.trips):
+                self.remove_stop_at(i)
+                continue
+
+            # The stop is shared with other trips, which are kept on the route.
+            stop.pickup_planned_trips = set(pt for pt in stop.pickup_planned_trips if pt.trip != trip)
+            stop.delivery_planned_trips = set(pt for pt in stop.delivery_planned_trips if pt.trip != trip)
+            self.flush()
+
+        assert trip not in self.trips
         assert all(s1 == s2.previous for s1, s2 in zip(self.stops[:-1], self.stops[1:]))
         assert all(s1.departure_time <= s2.arrival_time for s1, s2 in zip(self.stops[:-1], self.stops[1:]))
 
-- 
2.43.0


From ed5253671c506ecc74039ee40fee34f783f991d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:02 +0000
Subject: [PATCH 19/33] fix: decide the departure again when a request is
 inserted at the front of a route

---
 jinete/algorithms/heuristics/insertion/strategies/abc.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/jinete/algorithms/heuristics/insertion/strategies/abc.py b/jinete/algorithms/heuristics/insertion/strategies/abc.py
index 7f9c470..902a795 100644
--- a/jinete/algorithms/heuristics/insertion/strategies/abc.py
+++ b/jinete/algorithms/heuristics/insertion/strategies/abc.py
@@ -58,6 +58,11 @@ class InsertionStrategy(object):
         cloner = RouteCloner(route, previous_idx + 1)
         route = cloner.clone()
 
+        if previous_idx == 0:
+            # The departure was delayed according to a first leg that is about to be replaced.
+            route.stops[0].starting_time = None
+            route.flush()
+
         pickup = self._build_pickup(route, trip, previous_idx)
         delivery = self._build_delivery(route, trip, previous_idx, following_idx, pickup)
 
-- 
2.43.0


From dbc7aca550c7e298c0fb19bf701315acc966f789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:31 +0000
Subject: [PATCH 20/33] fix: decide the departure again when the first request
 of a route is reallocated

---
 .../local_search/strategies/plannings/reallocation.py       | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/jinete/algorithms/heuristics/local_search/strategies/plannings/reallocation.py b/jinete/algorithms/heuristics/local_search/strategies/plannings/reallocation.py
index feb0598..b5089dd 100644
--- a/jinete/algorithms/heuristics/local_search/strategies/plannings/reallocation.py
+++ b/jinete/algorithms/heuristics/local_search/strategies/plannings/reallocation.py
@@ -31,6 +31,12 @@ class ReallocationLocalSearchStrategy(LocalSearchStrategy):
                 new_origin = origin.clone()
                 new_origin.remove_trip(trip)
 
+                if trip in origin.stops[1].trips:
+                    # The departure was delayed according to a first leg that has been removed.
+                    new_origin.first_stop.starting_time = None
+                    new_origin.flush()
+                    strategy._improve_ride_times(new_origin, 0)
+
                 new_origin.flush()
                 if not new_origin.feasible:
                     continue
-- 
2.43.0


From f8e053f099e8ced441b171f45b0e00422f9f994e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:07 +0000
Subject: [PATCH 21/33] fix: draw each solution on an empty figure

---
 jinete/storers/plots/graph.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jinete/storers/plots/graph.py b/jinete/storers/plots/graph.py
index 4d0623b..13f7754 100644
--- a/jinete/storers/plots/graph.py
+++ b/jinete/storers/plots/graph.py
@@ -89,6 +89,8 @@ class GraphPlotStorer(Storer):
 
         mpl.rcParams["figure.dpi"] = 300
 
+        plt.clf()
+
         pos = {node: node.coordinates for node in graph.nodes.keys()}
 
         node_labels = {node: metadata["label"] for node, metadata in graph.nodes.items()}
-- 
2.43.0


From 33c52e14be47413a808ad2bfaf7b9bed490c739f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:25 +0000
Subject: [PATCH 22/33] fix: format the result before overwriting the output
 file

---
 jinete/storers/file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jinete/storers/file.py b/jinete/storers/file.py
index fbf1151..fd8d405 100644
--- a/jinete/storers/file.py
+++ b/jinete/storers/file.py
@@ -24,6 +24,6 @@ class FileStorer(Storer):
 
     def store(self) -> None:
         """Perform a storage process."""
+        text = self._formatted
         with self.file_path.open("w") as file:
-            text = self._formatted
             file.write(text)
-- 
2.43.0


From 88d2579c771c616eb0128c27d2f82fe33491721e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:49 +0000
Subject: [PATCH 23/33] fix: solve MILP models of problems without time limits

---
 .../algorithms/exacts/models/three_index.py   | 24 +++++++++----------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/jinete/algorithms/exacts/models/three_index.py b/jinete/algorithms/exacts/models/three_index.py
index d67a2d2..26e4c9b 100644
--- a/jinete/algorithms/exacts/models/three_index.py
+++ b/jinete/algorithms/exacts/models/three_index.py
@@ -17,6 +17,7 @@ from cached_property import (
     cached_property,
 )
 from jinete.models import (
+    MAX_FLOAT,
     PlannedTrip,
     Route,
     Stop,
@@ -186,13 +187,14 @@ class ThreeIndexLinearModel(LinearModel):
 
     def _time_window_by_position_idx(self, idx: int) -> Tuple[float, float]:
         trip = self._trip_by_position_idx(idx)
+        vehicle = self._vehicles[0]
+        horizon = min(vehicle.destination_latest, HORIZON)
         if trip is None:
-            vehicle = self._vehicles[0]
-            earliest, latest = vehicle.origin_earliest, min(vehicle.destination_latest, HORIZON)
+            earliest, latest = vehicle.origin_earliest, horizon
         elif idx <= self._n:
-            earliest, latest = trip.origin_earliest, trip.origin_latest
+            earliest, latest = trip.origin_earliest, min(trip.origin_latest, horizon)
         else:
-            earliest, latest = trip.destination_earliest, trip.destination_latest
+            earliest, latest = trip.destination_earliest, min(trip.destination_latest, horizon)
         return earliest, latest
 
     def _capacity_by_position_idx(self, idx: int) -> float:
@@ -291,8 +293,9 @@ class ThreeIndexLinearModel(LinearModel):
     def _feasibility_constraints(self) -> List[lp.LpConstraint]:
         constraints = list()
         for k in self._routes_indexer:
-            constraint = self._u[k][-1] - self._u[k][0] <= self._vehicles[k].timeout
-            constraints.append(constraint)
+            if self._vehicles[k].timeout != MAX_FLOAT:
+                constraint = self._u[k][-1] - self._u[k][0] <= self._vehicles[k].timeout
+                constraints.append(constraint)
 
             for i in self._positions_indexer:
                 earliest, latest = self._time_window_by_position_idx(i)
@@ -304,12 +307,9 @@ class ThreeIndexLinearModel(LinearModel):
                 timeout = self._timeout_by_position_idx(i)
                 travel_time = self._positions[i].time_to(self._positions[i + self._n])
 
-                constraints.extend(
-                    [
-                        travel_time <= self._u[k][i + self._n] - (self._u[k][i] + load_time),
-                        self._u[k][i + self._n] - (self._u[k][i] + load_time) <= timeout,
-                    ]
-                )
+                constraints.append(travel_time <= self._u[k][i + self._n] - (self._u[k][i] + load_time))
+                if timeout != MAX_FLOAT:
+                    constraints.append(self._u[k][i + self._n] - (self._u[k][i] + load_time) <= timeout)
 
             for i in self._positions_indexer:
                 capacity = self._capacity_by_position_idx(i)
-- 
2.43.0


From 5c16d71cd5de4b4b4ad973594e484e3ce4206115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:40 +0000
Subject: [PATCH 24/33] fix: order the nodes of MILP routes when travels take
 no time

---
 .../algorithms/exacts/models/three_index.py   | 27 +++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/jinete/algorithms/exacts/models/three_index.py b/jinete/algorithms/exacts/models/three_index.py
index 26e4c9b..75157ab 100644
--- a/jinete/algorithms/exacts/models/three_index.py
+++ b/jinete/algorithms/exacts/models/three_index.py
@@ -83,6 +83,7 @@ class ThreeIndexLinearModel(LinearModel):
             [
                 self._uniqueness_constraints,
                 self._connectivity_constraints,
+                self._order_constraints,
                 self._time_constraints,
                 self._feasibility_constraints,
             ],
@@ -128,6 +129,17 @@ class ThreeIndexLinearModel(LinearModel):
             w.append(w_k)
         return w
 
+    @cached_property
+    def _v(self) -> List[List[lp.LpVariable]]:
+        v = list()
+        for k in self._routes_indexer:
+            v_k = list()
+            for i in self._positions_indexer:
+                v_ki = lp.LpVariable(f"v_{k}_{i}", lowBound=0.0, upBound=len(self._positions) - 1)
+                v_k.append(v_ki)
+            v.append(v_k)
+        return v
+
     @cached_property
     def _vehicles(self) -> Tuple[Vehicle, ...]:
         return tuple(self.fleet.vehicles)
@@ -262,6 +274,21 @@ class ThreeIndexLinearModel(LinearModel):
 
         return constraints
 
+    @cached_property
+    def _order_constraints(self) -> List[lp.LpConstraint]:
+        # The times do not order the nodes by themselves if the travels between them (and their services) take no time.
+        constraints = list()
+
+        size = len(self._positions)
+        for k in self._routes_indexer:
+            for i, j in product(self._positions_indexer, self._positions_indexer):
+                constraints.append(self._v[k][j] >= self._v[k][i] + 1 - size * (1 - self._x[k][i][j]))
+
+            for i in self._pickups_indexer:
+                constraints.append(self._v[k][i + self._n] >= self._v[k][i] + 1)
+
+        return constraints
+
     @cached_property
     def _time_constraints(self) -> List[lp.LpConstraint]:
         constraints = list()
-- 
2.43.0


From 72ca80e90945eff14e021699232f94224a5eb272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:58 +0000
Subject: [PATCH 25/33] fix: fail when the MILP model has no solution instead
 of reading it anyway

---
 jinete/algorithms/exacts/models/three_index.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/jinete/algorithms/exacts/models/three_index.py b/jinete/algorithms/exacts/models/three_index.py
index 75157ab..84437eb 100644
--- a/jinete/algorithms/exacts/models/three_index.py
+++ b/jinete/algorithms/exacts/models/three_index.py
@@ -16,6 +16,9 @@ import pulp as lp
 from cached_property import (
     cached_property,
 )
+from jinete.exceptions import (
+    JineteException,
+)
 from jinete.models import (
     MAX_FLOAT,
     PlannedTrip,
@@ -358,6 +361,9 @@ class ThreeIndexLinearModel(LinearModel):
         logger.info("Starting to solve...")
         self._problem.solve(self.solver)
 
+        if self._problem.status != lp.LpStatusOptimal:
+            raise JineteException(f'The model has no solution: "{lp.LpStatus[self._problem.status]}".')
+
         self._validate()
         logger.info(f'Obtained "{lp.value(self._objective)}" reaching "{lp.LpStatus[self._problem.status]}".')
         return self._solution_to_routes()
-- 
2.43.0


From f1c01b1807bb98117d1bcc534bc1ecf4a71cad6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:13 +0000
Subject: [PATCH 26/33] fix: tolerate rounding when loads with decimals are
 picked up and delivered

With loads such as 0.7 and 0.1 the load left after the last delivery is
-1.3e-16, which made every verdict on the route fail with an AssertionError.
---
 jinete/models/stops.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jinete/models/stops.py b/jinete/models/stops.py
index f7b3890..4a082d1 100644
--- a/jinete/models/stops.py
+++ b/jinete/models/stops.py
@@ -100,7 +100,7 @@ class Stop(Model):
         result = self.previous_capacity
         result += sum(trip.capacity for trip in self.pickup_planned_trips)
         result -= sum(trip.capacity for trip in self.delivery_planned_trips)
-        assert 0 <= result
+        assert 0 - ERROR_BOUND <= result
         return result
 
     @property
-- 
2.43.0


From b20a66840b5b7ea3d6febffbf1d96600f4ed1054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:19 +0000
Subject: [PATCH 27/33] fix: let the episodes of GRASP draw from its seed

---
 jinete/algorithms/metaheuristics/grasp.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jinete/algorithms/metaheuristics/grasp.py b/jinete/algorithms/metaheuristics/grasp.py
index 2471a85..e141898 100644
--- a/jinete/algorithms/metaheuristics/grasp.py
+++ b/jinete/algorithms/metaheuristics/grasp.py
@@ -13,6 +13,7 @@ from typing import (
 )
 
 from ...models import (
+    MAX_INT,
     Planning,
 )
 from ..abc import (
@@ -99,6 +100,7 @@ class GraspAlgorithm(Algorithm):
         algorithm = IterativeAlgorithm(
             algorithm_cls=SequentialAlgorithm,
             algorithms_cls=[self._build_first_solution_algorithm(), self._build_local_search_algorithm()],
+            seed=self.random.randint(0, MAX_INT),
             *self.args,
             **self.kwargs
         )
-- 
2.43.0


From d922ab001c80f3d35e092c22034966cb668e37c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:19 +0000
Subject: [PATCH 28/33] fix: sample the positions tried by reallocation from
 the local search's own generator

---
 jinete/algorithms/heuristics/local_search/algorithm.py   | 9 ++++++++-
 .../algorithms/heuristics/local_search/strategies/abc.py | 8 +++++++-
 .../local_search/strategies/plannings/reallocation.py    | 2 +-
 3 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/jinete/algorithms/heuristics/local_search/algorithm.py b/jinete/algorithms/heuristics/local_search/algorithm.py
index 911d36c..25eb2fe 100644
--- a/jinete/algorithms/heuristics/local_search/algorithm.py
+++ b/jinete/algorithms/heuristics/local_search/algorithm.py
@@ -3,6 +3,9 @@ from __future__ import (
 )
 
 import logging
+from random import (
+    Random,
+)
 from typing import (
     TYPE_CHECKING,
 )
@@ -35,6 +38,7 @@ class LocalSearchAlgorithm(Algorithm):
         no_improvement_threshold: int = 1,
         strategy_cls: LocalSearchStrategy = None,
         *args,
+        seed: int = 56,
         **kwargs
     ):
         super().__init__(*args, **kwargs)
@@ -46,6 +50,7 @@ class LocalSearchAlgorithm(Algorithm):
         self.kwargs = kwargs
         self.strategy_cls = strategy_cls
         self.no_improvement_threshold = no_improvement_threshold
+        self.random = Random(seed)
 
     @property
     def _initial_planning(self) -> Planning:
@@ -62,7 +67,9 @@ class LocalSearchAlgorithm(Algorithm):
         while no_improvement_count < self.no_improvement_threshold:
             no_improvement_count += 1
 
-            current = self.strategy_cls(best).improve()
+            strategy = self.strategy_cls(best)
+            strategy.random = self.random
+            current = strategy.improve()
             best = self._objective.best(best, current)
 
             if best == current:
diff --git a/jinete/algorithms/heuristics/local_search/strategies/abc.py b/jinete/algorithms/heuristics/local_search/strategies/abc.py
index fd4792e..4aae42e 100644
--- a/jinete/algorithms/heuristics/local_search/strategies/abc.py
+++ b/jinete/algorithms/heuristics/local_search/strategies/abc.py
@@ -14,11 +14,17 @@ from typing import (
 )
 
 if TYPE_CHECKING:
-    from typing import Set
+    from random import Random
+    from typing import (
+        Optional,
+        Set,
+    )
     from .....models import Planning, Result, Objective, Route
 
 
 class LocalSearchStrategy(ABC):
+    random: Optional[Random] = None
+
     def __init__(self, result: Result, with_copy: bool = True):
         if with_copy:
             result = deepcopy(result)
diff --git a/jinete/algorithms/heuristics/local_search/strategies/plannings/reallocation.py b/jinete/algorithms/heuristics/local_search/strategies/plannings/reallocation.py
index b5089dd..4fc55ed 100644
--- a/jinete/algorithms/heuristics/local_search/strategies/plannings/reallocation.py
+++ b/jinete/algorithms/heuristics/local_search/strategies/plannings/reallocation.py
@@ -43,7 +43,7 @@ class ReallocationLocalSearchStrategy(LocalSearchStrategy):
 
                 partial_cost_origin = partial_cost + self._objective.optimization_function(new_origin)[-1]
 
-                for i, j in sample_index_pairs(len(destination.stops), 128):
+                for i, j in sample_index_pairs(len(destination.stops), 128, self.random):
                     destinations = strategy.compute(destination, trip, i, j)
                     if not any(destinations):
                         continue
-- 
2.43.0


From 2b3ab83e2c348ea4dac0a0c1ddcca0dafd8b69d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:19 +0000
Subject: [PATCH 29/33] fix: bound the times of the MILP model by the problem
 itself instead of one day

---
 jinete/algorithms/exacts/models/three_index.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/jinete/algorithms/exacts/models/three_index.py b/jinete/algorithms/exacts/models/three_index.py
index 84437eb..2163b1e 100644
--- a/jinete/algorithms/exacts/models/three_index.py
+++ b/jinete/algorithms/exacts/models/three_index.py
@@ -47,7 +47,6 @@ if TYPE_CHECKING:
 logger = logging.getLogger(__name__)
 
 BIG = 10000
-HORIZON = 1440
 
 
 class ThreeIndexLinearModel(LinearModel):
@@ -195,6 +194,21 @@ class ThreeIndexLinearModel(LinearModel):
     def _n(self) -> int:
         return len(self._trips)
 
+    @cached_property
+    def _horizon(self) -> float:
+        """The time at which everything ends at most: even doing it one by one, without hurry, since it can be started."""
+        vehicle = self._vehicles[0]
+        start = max(
+            (vehicle.origin_earliest,)
+            + tuple(trip.origin_earliest for trip in self._trips)
+            + tuple(trip.destination_earliest for trip in self._trips)
+        )
+        duration = sum(
+            self._load_time_by_position_idx(i) + max(self._positions[i].time_to(other) for other in self._positions)
+            for i in self._positions_indexer
+        )
+        return min(vehicle.destination_latest, start + duration)
+
     def _trip_by_position_idx(self, idx: int) -> Optional[Trip]:
         if idx in (0, len(self._positions) - 1):
             return None
@@ -203,7 +217,7 @@ class ThreeIndexLinearModel(LinearModel):
     def _time_window_by_position_idx(self, idx: int) -> Tuple[float, float]:
         trip = self._trip_by_position_idx(idx)
         vehicle = self._vehicles[0]
-        horizon = min(vehicle.destination_latest, HORIZON)
+        horizon = self._horizon
         if trip is None:
             earliest, latest = vehicle.origin_earliest, horizon
         elif idx <= self._n:
-- 
2.43.0


From d8faf41e2764c71f28135f77ac24df8e2aeb1729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:30 +0000
Subject: [PATCH 30/33] fix: insert also on the vehicles for which the starting
 point has no route

---
 jinete/algorithms/heuristics/insertion/iterators/abc.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jinete/algorithms/heuristics/insertion/iterators/abc.py b/jinete/algorithms/heuristics/insertion/iterators/abc.py
index 4c00544..0c7f0ef 100644
--- a/jinete/algorithms/heuristics/insertion/iterators/abc.py
+++ b/jinete/algorithms/heuristics/insertion/iterators/abc.py
@@ -74,6 +74,9 @@ class InsertionIterator(ABC):
             for route in routes:
                 pending_trips -= set(route.trips)
 
+            used_vehicles = set(route.vehicle for route in routes)
+            routes = routes | set(Route(vehicle) for vehicle in fleet.vehicles if vehicle not in used_vehicles)
+
         self.fleet = fleet
         self.job = job
         self.routes_container = {route.vehicle: route for route in routes}
-- 
2.43.0


From 7436942bb315fcdda66280d4d2eddb5dc0ebdd50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:04 +0000
Subject: [PATCH 31/33] fix: refuse a planned trip as a whole when its
 delivery's previous stop is not on the route

---
 jinete/models/routes.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/jinete/models/routes.py b/jinete/models/routes.py
index 8746126..459131f 100644
--- a/jinete/models/routes.py
+++ b/jinete/models/routes.py
@@ -291,6 +291,10 @@ class Route(Model):
         assert all(s1 == s2.previous for s1, s2 in zip(self.stops[:-1], self.stops[1:]))
         assert all(s1.departure_time <= s2.arrival_time for s1, s2 in zip(self.stops[:-1], self.stops[1:]))
 
+        previous = planned_trip.delivery.previous
+        if previous not in (None, planned_trip.pickup) and previous not in self.stops:
+            raise PreviousStopNotInRouteException(self, planned_trip.delivery)
+
         self.insert_stop(planned_trip.pickup)
         self.insert_stop(planned_trip.delivery)
 
-- 
2.43.0


From de606ad9a183aa20f44c87ac9e464d5e3cd7fbc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:04 +0000
Subject: [PATCH 32/33] fix: compare services by what they are, not by their
 hashes

---
 jinete/models/services.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jinete/models/services.py b/jinete/models/services.py
index 6918ecc..336d242 100644
--- a/jinete/models/services.py
+++ b/jinete/models/services.py
@@ -81,7 +81,7 @@ class Service(Model):
         return self
 
     def __eq__(self, other: Service) -> bool:
-        return hash(self) == hash(other)
+        return isinstance(other, Service) and tuple(self) == tuple(other)
 
     def __hash__(self):
         return hash(tuple(self))
-- 
2.43.0


From 11cee711806c2fdeef3488837029a110ac004492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:58:24 +0000
Subject: [PATCH 33/33] fix: look beyond a neighborhood whose trips can not be
 inserted

The ranking iterator only looked at as many pending trips as its neighborhood holds, so a construction ended, with
trips left that could still be inserted, as soon as none of these fitted or all of these had been taken by others.
---
 .../heuristics/insertion/iterators/ranking.py     | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/jinete/algorithms/heuristics/insertion/iterators/ranking.py b/jinete/algorithms/heuristics/insertion/iterators/ranking.py
index d403757..c45ebce 100644
--- a/jinete/algorithms/heuristics/insertion/iterators/ranking.py
+++ b/jinete/algorithms/heuristics/insertion/iterators/ranking.py
@@ -61,14 +61,21 @@ class RankingInsertionIterator(InsertionIterator):
         logger.debug(f'Updating ranking for vehicle with "{vehicle.identifier}" identifier...')
         if vehicle is planned_trip.vehicle or vehicle not in self.ranking:
             self.ranking[vehicle] = self._create_sub_ranking(self.routes_container[vehicle])
-        else:
+        elif any(self.ranking[vehicle]):
             self.ranking[vehicle] = [route for route in self.ranking[vehicle] if planned_trip.trip not in route.trips]
+            if not any(self.ranking[vehicle]):
+                self.ranking[vehicle] = self._create_sub_ranking(self.routes_container[vehicle])
 
     def _create_sub_ranking(self, route: Route) -> List[Route]:
         logger.debug(f'Creating sub_ranking for vehicle "{route.vehicle_identifier}"...')
-        pending_trips = it.islice(self.pending_trips, self.neighborhood_max_size)
-
-        raw_sub_ranking = self._strategy.compute(route, pending_trips)
+        pending_trips = iter(self.pending_trips)
+        neighborhood = tuple(it.islice(pending_trips, self.neighborhood_max_size))
+
+        raw_sub_ranking = self._strategy.compute(route, neighborhood)
+        while any(neighborhood) and not any(raw_sub_ranking):
+            # None of these ones can be inserted, but the following ones may be.
+            neighborhood = tuple(it.islice(pending_trips, self.neighborhood_max_size))
+            raw_sub_ranking = self._strategy.compute(route, neighborhood)
 
         self._criterion.sorted(raw_sub_ranking, inplace=True)
 
-- 
2.43.0

