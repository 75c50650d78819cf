From 8d492fa5698e322beb2c08eb169a204bcf24bb96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:35 +0000
Subject: [PATCH 01/23] fix: reject unknown vehicle types when constructing a
 Route

Route's constructor indexed the vehicle types without a bounds check, which
reads out of bounds in release builds. Activities that do not exist already
raise; unknown vehicle types now do so as well.
---
 pyvrp/cpp/Route.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pyvrp/cpp/Route.cpp b/pyvrp/cpp/Route.cpp
index 3414351..7126d60 100644
--- a/pyvrp/cpp/Route.cpp
+++ b/pyvrp/cpp/Route.cpp
@@ -52,6 +52,13 @@ Duration Route::ScheduledActivity::timeWarp() const { return timeWarp_; }
 void Route::validate(ProblemData const &data,
                      Activities const &activities) const
 {
+    if (vehicleType_ >= data.numVehicleTypes())
+    {
+        std::ostringstream msg;
+        msg << "Vehicle type " << vehicleType_ << " is not understood.";
+        throw std::invalid_argument(msg.str());
+    }
+
     auto const &vehData = data.vehicleType(vehicleType_);
 
     size_t numTrips = 1;
-- 
2.43.0


From 2dcb31533d8f22f7a991ff2828ea2376b23fafa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:35 +0000
Subject: [PATCH 02/23] fix: bounds check ProblemData's group, vehicle type and
 matrix accessors

These read out of bounds in release builds when given an invalid index, unlike
the location, client, depot, and shipment accessors, which raise IndexError.
---
 pyvrp/cpp/bindings.cpp | 68 +++++++++++++++++++++++++++++-------------
 1 file changed, 48 insertions(+), 20 deletions(-)

diff --git a/pyvrp/cpp/bindings.cpp b/pyvrp/cpp/bindings.cpp
index 6c2042d..a4999f0 100644
--- a/pyvrp/cpp/bindings.cpp
+++ b/pyvrp/cpp/bindings.cpp
@@ -752,11 +752,18 @@ PYBIND11_MODULE(_pyvrp, m)
             py::arg("depot"),
             py::return_value_policy::reference_internal,
             DOC(pyvrp, ProblemData, depot))
-        .def("group",
-             &ProblemData::group,
-             py::arg("group"),
-             py::return_value_policy::reference_internal,
-             DOC(pyvrp, ProblemData, group))
+        .def(
+            "group",
+            [](ProblemData const &data, size_t group) -> auto const &
+            {
+                if (group >= data.numGroups())
+                    throw py::index_error();
+
+                return data.group(group);
+            },
+            py::arg("group"),
+            py::return_value_policy::reference_internal,
+            DOC(pyvrp, ProblemData, group))
         .def(
             "shipment",
             [](ProblemData const &data, size_t shipment)
@@ -769,21 +776,42 @@ PYBIND11_MODULE(_pyvrp, m)
             py::arg("shipment"),
             py::return_value_policy::reference_internal,
             DOC(pyvrp, ProblemData, shipment))
-        .def("vehicle_type",
-             &ProblemData::vehicleType,
-             py::arg("vehicle_type"),
-             py::return_value_policy::reference_internal,
-             DOC(pyvrp, ProblemData, vehicleType))
-        .def("distance_matrix",
-             &ProblemData::distanceMatrix,
-             py::arg("profile"),
-             py::return_value_policy::reference_internal,
-             DOC(pyvrp, ProblemData, distanceMatrix))
-        .def("duration_matrix",
-             &ProblemData::durationMatrix,
-             py::arg("profile"),
-             py::return_value_policy::reference_internal,
-             DOC(pyvrp, ProblemData, durationMatrix))
+        .def(
+            "vehicle_type",
+            [](ProblemData const &data, size_t vehicleType) -> auto const &
+            {
+                if (vehicleType >= data.numVehicleTypes())
+                    throw py::index_error();
+
+                return data.vehicleType(vehicleType);
+            },
+            py::arg("vehicle_type"),
+            py::return_value_policy::reference_internal,
+            DOC(pyvrp, ProblemData, vehicleType))
+        .def(
+            "distance_matrix",
+            [](ProblemData const &data, size_t profile) -> auto const &
+            {
+                if (profile >= data.numProfiles())
+                    throw py::index_error();
+
+                return data.distanceMatrix(profile);
+            },
+            py::arg("profile"),
+            py::return_value_policy::reference_internal,
+            DOC(pyvrp, ProblemData, distanceMatrix))
+        .def(
+            "duration_matrix",
+            [](ProblemData const &data, size_t profile) -> auto const &
+            {
+                if (profile >= data.numProfiles())
+                    throw py::index_error();
+
+                return data.durationMatrix(profile);
+            },
+            py::arg("profile"),
+            py::return_value_policy::reference_internal,
+            DOC(pyvrp, ProblemData, durationMatrix))
         .def("has_time_windows",
              &ProblemData::hasTimeWindows,
              DOC(pyvrp, ProblemData, hasTimeWindows))
-- 
2.43.0


From 6d001c98e617d0eef48f769d3037b84cf7e9ed16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:09 +0000
Subject: [PATCH 03/23] fix: keep routes and groups alive while iterating over
 them

The iterators returned by __iter__ did not keep the object they iterate over
alive, so that iterating over a temporary, as in `for x in make_route()`, used
memory that was freed already.
---
 pyvrp/cpp/bindings.cpp        | 4 ++--
 pyvrp/cpp/search/bindings.cpp | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyvrp/cpp/bindings.cpp b/pyvrp/cpp/bindings.cpp
index a4999f0..c0b0452 100644
--- a/pyvrp/cpp/bindings.cpp
+++ b/pyvrp/cpp/bindings.cpp
@@ -477,7 +477,7 @@ PYBIND11_MODULE(_pyvrp, m)
             "__iter__",
             [](ClientGroup const &group)
             { return py::make_iterator(group.begin(), group.end()); },
-            py::return_value_policy::reference_internal)
+            py::keep_alive<0, 1>())  // keep group alive while iterating
         .def(
             "__str__",
             [](ClientGroup const &group) { return group.name; },
@@ -972,7 +972,7 @@ PYBIND11_MODULE(_pyvrp, m)
             "__iter__",
             [](Route const &route)
             { return py::make_iterator(route.begin(), route.end()); },
-            py::return_value_policy::reference_internal)
+            py::keep_alive<0, 1>())  // keep route alive while iterating
         .def(
             "__getitem__",
             [](Route const &route, int idx)
diff --git a/pyvrp/cpp/search/bindings.cpp b/pyvrp/cpp/search/bindings.cpp
index a87d4d8..41d266f 100644
--- a/pyvrp/cpp/search/bindings.cpp
+++ b/pyvrp/cpp/search/bindings.cpp
@@ -685,7 +685,7 @@ PYBIND11_MODULE(_search, m)
             "__iter__",
             [](Route const &route)
             { return py::make_iterator(route.begin(), route.end()); },
-            py::return_value_policy::reference_internal)
+            py::keep_alive<0, 1>())  // keep route alive while iterating
         .def("__len__", &Route::size)
         .def("__str__",
              [](Route const &route)
-- 
2.43.0


From eccc3efeede315e2fffd435b3d34eefc4e7fe51e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:13 +0000
Subject: [PATCH 04/23] fix: include the fixed vehicle cost in pickled routes

A pickled and unpickled route lost its fixed vehicle cost, so that the cost of
an unpickled solution could be lower than that of the original.
---
 pyvrp/cpp/Route.cpp    | 4 +++-
 pyvrp/cpp/Route.h      | 3 ++-
 pyvrp/cpp/bindings.cpp | 6 ++++--
 3 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/pyvrp/cpp/Route.cpp b/pyvrp/cpp/Route.cpp
index 7126d60..f998b33 100644
--- a/pyvrp/cpp/Route.cpp
+++ b/pyvrp/cpp/Route.cpp
@@ -484,7 +484,8 @@ Route::Route(Schedule schedule,
              Duration slack,
              Cost prizes,
              size_t vehicleType,
-             size_t numShipments)
+             size_t numShipments,
+             Cost fixedVehicleCost)
     : schedule_(std::move(schedule)),
       distance_(distance),
       distanceCost_(distanceCost),
@@ -501,6 +502,7 @@ Route::Route(Schedule schedule,
       startTime_(startTime),
       releaseTime_(releaseTime),
       slack_(slack),
+      fixedVehicleCost_(fixedVehicleCost),
       prizes_(prizes),
       vehicleType_(vehicleType),
       numShipments_(numShipments)
diff --git a/pyvrp/cpp/Route.h b/pyvrp/cpp/Route.h
index ea29650..b7cc1ef 100644
--- a/pyvrp/cpp/Route.h
+++ b/pyvrp/cpp/Route.h
@@ -335,7 +335,8 @@ public:
           Duration slack,
           Cost prizes,
           size_t vehicleType,
-          size_t numShipments);
+          size_t numShipments,
+          Cost fixedVehicleCost);
 };
 
 template <>  // specialisation for pyvrp::Route
diff --git a/pyvrp/cpp/bindings.cpp b/pyvrp/cpp/bindings.cpp
index c0b0452..dbd8527 100644
--- a/pyvrp/cpp/bindings.cpp
+++ b/pyvrp/cpp/bindings.cpp
@@ -1004,7 +1004,8 @@ PYBIND11_MODULE(_pyvrp, m)
                                       route.slack(),
                                       route.prizes(),
                                       route.vehicleType(),
-                                      route.numShipments());
+                                      route.numShipments(),
+                                      route.fixedVehicleCost());
             },
             [](py::tuple t) {  // __setstate__
                 using Schedule = std::vector<Route::ScheduledActivity>;
@@ -1028,7 +1029,8 @@ PYBIND11_MODULE(_pyvrp, m)
                     t[15].cast<pyvrp::Duration>(),          // slack
                     t[16].cast<pyvrp::Cost>(),              // prizes
                     t[17].cast<size_t>(),                   // vehicle type
-                    t[18].cast<size_t>());                  // num shipments
+                    t[18].cast<size_t>(),                   // num shipments
+                    t[19].cast<pyvrp::Cost>());             // fixed veh cost
 
                 return route;
             }))
-- 
2.43.0


From 12c57d574d1b96c4f76a30f094a57df008f8cba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:13 +0000
Subject: [PATCH 05/23] fix: include the unplanned activities in pickled
 solutions

An unpickled solution reported no unplanned activities, even when the original
solution had some.
---
 pyvrp/cpp/Solution.cpp | 6 ++++--
 pyvrp/cpp/Solution.h   | 3 ++-
 pyvrp/cpp/bindings.cpp | 6 ++++--
 3 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/pyvrp/cpp/Solution.cpp b/pyvrp/cpp/Solution.cpp
index 940b416..5838e20 100644
--- a/pyvrp/cpp/Solution.cpp
+++ b/pyvrp/cpp/Solution.cpp
@@ -381,7 +381,8 @@ Solution::Solution(size_t numClients,
                    Cost prizes,
                    Cost uncollectedPrizes,
                    Duration timeWarp,
-                   Routes routes)
+                   Routes routes,
+                   Unplanned unplanned)
     : numClients_(numClients),
       numShipments_(numShipments),
       numMissingClients_(numMissingClients),
@@ -398,7 +399,8 @@ Solution::Solution(size_t numClients,
       prizes_(prizes),
       uncollectedPrizes_(uncollectedPrizes),
       timeWarp_(timeWarp),
-      routes_(std::move(routes))
+      routes_(std::move(routes)),
+      unplanned_(std::move(unplanned))
 {
 }
 
diff --git a/pyvrp/cpp/Solution.h b/pyvrp/cpp/Solution.h
index e05ce6f..ff26f46 100644
--- a/pyvrp/cpp/Solution.h
+++ b/pyvrp/cpp/Solution.h
@@ -280,7 +280,8 @@ public:
              Cost prizes,
              Cost uncollectedPrizes,
              Duration timeWarp,
-             Routes routes);
+             Routes routes,
+             Unplanned unplanned);
 };
 
 template <>  // specialisation for pyvrp::Solution
diff --git a/pyvrp/cpp/bindings.cpp b/pyvrp/cpp/bindings.cpp
index dbd8527..6722def 100644
--- a/pyvrp/cpp/bindings.cpp
+++ b/pyvrp/cpp/bindings.cpp
@@ -1161,7 +1161,8 @@ PYBIND11_MODULE(_pyvrp, m)
                                       sol.prizes(),
                                       sol.uncollectedPrizes(),
                                       sol.timeWarp(),
-                                      sol.routes());
+                                      sol.routes(),
+                                      sol.unplanned());
             },
             [](py::tuple t) {  // __setstate__
                 using Routes = std::vector<Route>;
@@ -1183,7 +1184,8 @@ PYBIND11_MODULE(_pyvrp, m)
                     t[13].cast<pyvrp::Cost>(),               // prizes
                     t[14].cast<pyvrp::Cost>(),               // uncollected
                     t[15].cast<pyvrp::Duration>(),           // time warp
-                    t[16].cast<Routes>());                   // routes
+                    t[16].cast<Routes>(),                    // routes
+                    t[17].cast<std::vector<Activity>>());    // unplanned
 
                 return sol;
             }))
-- 
2.43.0


From 6f79e4193e538b0cdb02a7534ae8e7c493b9e612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:43 +0000
Subject: [PATCH 06/23] fix: do not hand out mutable references to
 ProblemData's client groups

ProblemData is immutable, but its groups were returned by reference. Adding a
client to such a group, as Model.add_client() does for a model created through
Model.from_data(), changed the original data instance, which then referenced
clients it does not have.
---
 pyvrp/cpp/bindings.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyvrp/cpp/bindings.cpp b/pyvrp/cpp/bindings.cpp
index 6722def..6d5c3e7 100644
--- a/pyvrp/cpp/bindings.cpp
+++ b/pyvrp/cpp/bindings.cpp
@@ -698,7 +698,7 @@ PYBIND11_MODULE(_pyvrp, m)
              DOC(pyvrp, ProblemData, depots))
         .def("groups",
              &ProblemData::groups,
-             py::return_value_policy::reference_internal,
+             py::return_value_policy::copy,  // groups are mutable, data is not
              DOC(pyvrp, ProblemData, groups))
         .def("shipments",
              &ProblemData::shipments,
@@ -762,7 +762,7 @@ PYBIND11_MODULE(_pyvrp, m)
                 return data.group(group);
             },
             py::arg("group"),
-            py::return_value_policy::reference_internal,
+            py::return_value_policy::copy,  // groups are mutable, data is not
             DOC(pyvrp, ProblemData, group))
         .def(
             "shipment",
-- 
2.43.0


From b7fa25ada0c1a9323e45edd01e65850309962d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:52 +0000
Subject: [PATCH 07/23] fix: count release time warp when applying the maximum
 duration

The maximum duration applies to the net route duration, that is, without any
time warp. Time warp due to a release time after the latest start was excluded
for the current trip, but not for trips that were already finalised. The time
warp of a route thus depended on how its segments were merged, so that the
search evaluated some moves inexactly.
---
 pyvrp/cpp/DurationSegment.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pyvrp/cpp/DurationSegment.h b/pyvrp/cpp/DurationSegment.h
index 8853bdf..d2ccac9 100644
--- a/pyvrp/cpp/DurationSegment.h
+++ b/pyvrp/cpp/DurationSegment.h
@@ -271,12 +271,15 @@ Duration DurationSegment::duration() const
 
 Duration DurationSegment::timeWarp(Duration maxDuration) const
 {
-    auto const timeWarp = cumTimeWarp_ + timeWarp_;
+    auto const timeWarp
+        = cumTimeWarp_
+          + timeWarp_
+          // Additional time warp from having to wait until release time.
+          + std::max<Duration>(releaseTime_ - startLate_, 0);
+
     auto const netDuration = duration() - timeWarp;
 
     return timeWarp
-           // Additional time warp from having to wait until release time.
-           + std::max<Duration>(releaseTime_ - startLate_, 0)
            // Max duration constraint applies only to net route duration,
            // subtracting existing time warp. Use ternary to avoid underflow.
            + (netDuration > maxDuration ? netDuration - maxDuration : 0);
-- 
2.43.0


From 72146da8ee5851454ae4f361b9cf338c4c0afc02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:30 +0000
Subject: [PATCH 08/23] fix: leave the search route intact when an insert
 exceeds its trips

---
 pyvrp/cpp/search/Route.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pyvrp/cpp/search/Route.cpp b/pyvrp/cpp/search/Route.cpp
index a5e992e..1f886c4 100644
--- a/pyvrp/cpp/search/Route.cpp
+++ b/pyvrp/cpp/search/Route.cpp
@@ -95,6 +95,10 @@ void Route::insert(size_t idx, Node *node)
     {
     case Activity::ActivityType::DEPOT:  // insert copy into owned memory
     {
+        if (numTrips() >= maxTrips())  // then there is no room for another
+            throw std::invalid_argument(
+                "Vehicle cannot perform this many trips.");
+
         if (depots_.size() == depots_.capacity())  // then we reallocate and
         {                                          // must update references
             depots_.reserve(depots_.size() + 1);
@@ -110,9 +114,6 @@ void Route::insert(size_t idx, Node *node)
         break;
     }
 
-    if (numTrips() > maxTrips())
-        throw std::invalid_argument("Vehicle cannot perform this many trips.");
-
     nodes.insert(nodes.begin() + idx, node);
     node->assign(this, idx, nodes[idx - 1]->trip());
 
-- 
2.43.0


From 4014c1a83f2d703d889f8632882ccf2ab939c662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:37 +0000
Subject: [PATCH 09/23] fix: raise instead of dividing by zero for an empty
 randint range

---
 pyvrp/cpp/RandomNumberGenerator.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyvrp/cpp/RandomNumberGenerator.h b/pyvrp/cpp/RandomNumberGenerator.h
index f6e0565..88b0e41 100644
--- a/pyvrp/cpp/RandomNumberGenerator.h
+++ b/pyvrp/cpp/RandomNumberGenerator.h
@@ -5,6 +5,7 @@
 #include <cstddef>
 #include <cstdint>
 #include <limits>
+#include <stdexcept>
 #include <type_traits>
 
 namespace pyvrp
@@ -95,6 +96,8 @@ template <typename T>
 RandomNumberGenerator::result_type RandomNumberGenerator::randint(T high)
 {
     static_assert(std::is_integral<T>::value);
+    if (high <= 0)
+        throw std::invalid_argument("Expected high > 0.");
     return operator()() % high;
 }
 
-- 
2.43.0


From 82cc7e72cb009c5d5058a46ff00b7d0778b6a7c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:37 +0000
Subject: [PATCH 10/23] fix: do not let fleet minimisation remove the last
 vehicle

---
 pyvrp/minimise_fleet.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyvrp/minimise_fleet.py b/pyvrp/minimise_fleet.py
index 143a84e..33af691 100644
--- a/pyvrp/minimise_fleet.py
+++ b/pyvrp/minimise_fleet.py
@@ -57,7 +57,7 @@ def minimise_fleet(
         raise ValueError(msg)
 
     feas_fleet = data.vehicle_type(0)
-    lower_bound = _lower_bound(data)
+    lower_bound = max(_lower_bound(data), 1)  # need at least one vehicle
 
     while feas_fleet.num_available > lower_bound:
         # Reduce feasible fleet by one vehicle, and retry solving.
@@ -82,7 +82,7 @@ def minimise_fleet(
         if best.num_routes() < data.num_vehicles:
             # Then we can make a bigger jump because more than one vehicle of
             # the feasible fleet was unused.
-            feas_fleet = fleet.replace(num_available=best.num_routes())
+            feas_fleet = fleet.replace(num_available=max(best.num_routes(), 1))
 
     return feas_fleet
 
-- 
2.43.0


From 52eb0a571f5dc752458860ee6bbffadcc955fed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:24 +0000
Subject: [PATCH 11/23] fix: count more than 2^31 vehicles without overflow

---
 pyvrp/cpp/ProblemData.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyvrp/cpp/ProblemData.cpp b/pyvrp/cpp/ProblemData.cpp
index 66a3035..c4c3a15 100644
--- a/pyvrp/cpp/ProblemData.cpp
+++ b/pyvrp/cpp/ProblemData.cpp
@@ -305,7 +305,7 @@ ProblemData::ProblemData(std::vector<Location> locations,
       shipments_(std::move(shipments)),
       numVehicles_(std::accumulate(vehicleTypes_.begin(),
                                    vehicleTypes_.end(),
-                                   0,
+                                   static_cast<size_t>(0),
                                    [](auto sum, VehicleType const &type)
                                    { return sum + type.numAvailable; })),
       numLoadDimensions_(
-- 
2.43.0


From 0371068d2290d07257e6d802de386ee1a278c2c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:23:25 +0000
Subject: [PATCH 12/23] fix: keep fractional penalty updates when all initial
 penalties are integers

---
 pyvrp/PenaltyManager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyvrp/PenaltyManager.py b/pyvrp/PenaltyManager.py
index 8987eea..b41f91d 100644
--- a/pyvrp/PenaltyManager.py
+++ b/pyvrp/PenaltyManager.py
@@ -158,7 +158,7 @@ class PenaltyManager:
     ):
         self._params = params
         self._penalties = np.clip(
-            initial_penalties[0] + list(initial_penalties[1:]),
+            np.array([*initial_penalties[0], *initial_penalties[1:]], float),
             params.min_penalty,
             params.max_penalty,
         )
-- 
2.43.0


From 8ce6e10f05b47842c374d06c4e187d4dc3117cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:27:13 +0000
Subject: [PATCH 13/23] fix: read shipment delivery locations correctly with
 several depots

---
 pyvrp/read.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pyvrp/read.py b/pyvrp/read.py
index e11bea3..32217f1 100644
--- a/pyvrp/read.py
+++ b/pyvrp/read.py
@@ -574,7 +574,6 @@ class _ProblemDataBuilder:
         return [ClientGroup(group) for group in groups]
 
     def _shipments(self) -> list[Shipment]:
-        num_depots = self.parser.num_depots
         data = self.parser.shipments()
 
         shipments = []
@@ -582,11 +581,11 @@ class _ProblemDataBuilder:
             *_, pick_idx, deliv_idx = pickup_data
 
             if pick_idx == 0 and deliv_idx > 0:  # parse PD pair
-                delivery_data = data[deliv_idx - num_depots]
+                delivery_data = data[deliv_idx - 1]  # zero-indexed
                 shipments.append(
                     Shipment(
                         pickup_location=idx,
-                        delivery_location=deliv_idx - num_depots,
+                        delivery_location=deliv_idx - 1,
                         pickup_tw_early=pickup_data[1],
                         pickup_tw_late=pickup_data[2],
                         pickup_service_duration=pickup_data[3],
-- 
2.43.0


From f291bc872da3a71dc21a525dc65cff2e4695d7a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:27:13 +0000
Subject: [PATCH 14/23] fix: read pickup and delivery sections with fractional
 values

---
 pyvrp/read.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyvrp/read.py b/pyvrp/read.py
index 32217f1..62d4ee8 100644
--- a/pyvrp/read.py
+++ b/pyvrp/read.py
@@ -356,9 +356,9 @@ class _InstanceParser:
         # Round demand, time windows, and service duration. Skip the pickup
         # and delivery index fields; we need those unchanged.
         shipments = self.instance["pickup_and_delivery"]
-        shipments[:, :4] = self.round_func(shipments[:, :4])
+        rounded = self.round_func(shipments[:, :4])
 
-        return shipments
+        return np.hstack([rounded, shipments[:, 4:].astype(np.int64)])
 
 
 class _ProblemDataBuilder:
-- 
2.43.0


From 5f2fc08453a0ebe114f27b004bdc7e941cd47bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:27:13 +0000
Subject: [PATCH 15/23] fix: raise ValueError when the problem size is missing,
 as documented

---
 pyvrp/read.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyvrp/read.py b/pyvrp/read.py
index 62d4ee8..b8d68da 100644
--- a/pyvrp/read.py
+++ b/pyvrp/read.py
@@ -161,6 +161,9 @@ class _InstanceParser:
 
     @property
     def num_locations(self) -> int:
+        if "dimension" not in self.instance:
+            raise ValueError("Source file should specify DIMENSION.")
+
         return self.instance["dimension"]
 
     @property
-- 
2.43.0


From 756bfee14a3c28f2f161aaac7e94c3ba8f1ace1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:27:13 +0000
Subject: [PATCH 16/23] fix: forbid driving from any depot to a backhaul client
 in VRPB instances

---
 pyvrp/read.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyvrp/read.py b/pyvrp/read.py
index b8d68da..bab296c 100644
--- a/pyvrp/read.py
+++ b/pyvrp/read.py
@@ -530,7 +530,7 @@ class _ProblemDataBuilder:
             # backhaul clients).
             linehaul = self.parser.demands() > 0
             backhaul = self.parser.backhauls() > 0
-            distances[0, backhaul] = MAX_VALUE
+            distances[: self.parser.num_depots, backhaul] = MAX_VALUE
             distances[np.ix_(backhaul, linehaul)] = MAX_VALUE
 
         allowed2profile = self._allowed2profile()
-- 
2.43.0


From 430e57bdc1b57f8793c5418b9c7e98c7cc4555bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:08:07 +0000
Subject: [PATCH 17/23] fix: reject routes that do not fit the data when
 constructing a Solution

---
 pyvrp/cpp/Solution.cpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/pyvrp/cpp/Solution.cpp b/pyvrp/cpp/Solution.cpp
index 5838e20..30a7267 100644
--- a/pyvrp/cpp/Solution.cpp
+++ b/pyvrp/cpp/Solution.cpp
@@ -271,6 +271,10 @@ Solution::Solution(ProblemData const &data, std::vector<Route> routes)
         if (route.empty())
             throw std::runtime_error("Solution should not have empty routes.");
 
+        if (route.vehicleType() >= data.numVehicleTypes()
+            || route.excessLoad().size() != data.numLoadDimensions())
+            throw std::runtime_error("Route does not fit the given data.");
+
         static_assert(std::ranges::input_range<Route>);
 
         usedVehicles[route.vehicleType()]++;
@@ -281,6 +285,13 @@ Solution::Solution(ProblemData const &data, std::vector<Route> routes)
             case Activity::ActivityType::CLIENT:
             {
                 auto const client = activity.idx();
+                if (client >= data.numClients())
+                {
+                    std::ostringstream msg;
+                    msg << "Client " << client << " is not understood.";
+                    throw std::runtime_error(msg.str());
+                }
+
                 if (isClientVisited[client])
                 {
                     std::ostringstream msg;
@@ -295,6 +306,13 @@ Solution::Solution(ProblemData const &data, std::vector<Route> routes)
             case Activity::ActivityType::PICKUP:
             {
                 auto const shipment = activity.idx();
+                if (shipment >= data.numShipments())
+                {
+                    std::ostringstream msg;
+                    msg << "Shipment " << shipment << " is not understood.";
+                    throw std::runtime_error(msg.str());
+                }
+
                 if (isShipmentVisited[shipment])  // then we've seen this
                 {                                 // pickup before
                     std::ostringstream msg;
-- 
2.43.0


From 66b4db459fbbe73294d8cb5c239cf7beb8c0d8fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:14:55 +0000
Subject: [PATCH 18/23] fix: raise TypeError instead of aborting on values that
 are not numbers

---
 pyvrp/cpp/bindings.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pyvrp/cpp/bindings.h b/pyvrp/cpp/bindings.h
index 93f59db..3089d69 100644
--- a/pyvrp/cpp/bindings.h
+++ b/pyvrp/cpp/bindings.h
@@ -88,7 +88,10 @@ struct type_caster<pyvrp::Measure<T, V>>
 
         PyObject *tmp = PyNumber_Long(src.ptr());  // any argument for which
         if (!tmp)                                  // int() succeeds.
+        {
+            PyErr_Clear();  // pybind11 raises TypeError with more context
             return false;
+        }
 
         auto const raw = PyLong_AsLongLong(tmp);
         Py_DECREF(tmp);
@@ -124,7 +127,10 @@ struct type_caster<pyvrp::Measure<T, V>>
 
         PyObject *tmp = PyNumber_Float(src.ptr());  // any argument for which
         if (!tmp)                                   // float() succeeds.
+        {
+            PyErr_Clear();  // pybind11 raises TypeError with more context
             return false;
+        }
 
         auto const raw = PyFloat_AsDouble(tmp);
         Py_DECREF(tmp);
-- 
2.43.0


From 9d8cb3dff703cf9378b707655971baaf66f1fd3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:54:40 +0000
Subject: [PATCH 19/23] fix: give each LocalSearch its own default perturbation
 manager

The default argument was evaluated once, so all local search objects without
an explicit manager shared one. Its state is redrawn in each call, and read
while the GIL is released: concurrent searches raced on it, and ran with each
other's number of perturbations.
---
 pyvrp/search/LocalSearch.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pyvrp/search/LocalSearch.py b/pyvrp/search/LocalSearch.py
index 8aa7e5a..1a21ae9 100644
--- a/pyvrp/search/LocalSearch.py
+++ b/pyvrp/search/LocalSearch.py
@@ -31,6 +31,7 @@ class LocalSearch:
         granular neighbourhood.
     perturbation_manager
         Perturbation manager that handles perturbation during each invocation.
+        If not provided, a new one with default parameters is used.
     """
 
     def __init__(
@@ -38,8 +39,12 @@ class LocalSearch:
         data: ProblemData,
         rng: RandomNumberGenerator,
         neighbours: dict[Activity, list[Activity]],
-        perturbation_manager: PerturbationManager = PerturbationManager(),
+        perturbation_manager: PerturbationManager | None = None,
     ):
+        if perturbation_manager is None:
+            # A manager has state, so it cannot be shared between objects.
+            perturbation_manager = PerturbationManager()
+
         self._ls = _LocalSearch(data, neighbours, perturbation_manager)
         self._rng = rng
 
-- 
2.43.0


From 28ca24ddecf34d7f850a046614864635bc35b4df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:15 +0000
Subject: [PATCH 20/23] fix: plot time windows of instances without clients

---
 pyvrp/plotting/plot_time_windows.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyvrp/plotting/plot_time_windows.py b/pyvrp/plotting/plot_time_windows.py
index 7ec4bb9..022dd58 100644
--- a/pyvrp/plotting/plot_time_windows.py
+++ b/pyvrp/plotting/plot_time_windows.py
@@ -25,6 +25,7 @@ def plot_time_windows(
         _, ax = plt.subplots()
 
     tw = np.array([[c.tw_early, c.tw_late] for c in data.clients()])
+    tw = tw.reshape(-1, 2)  # in case there are no clients
 
     # Lexicographic sort so for equal start we get shorter TW first
     tw = tw[np.lexsort((tw[:, 1], tw[:, 0]))]
-- 
2.43.0


From 9773150afd9eea6861952b9ae2dd6ed098271b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:28 +0000
Subject: [PATCH 21/23] fix: plot the load in the vehicle per trip in route
 schedules

---
 pyvrp/plotting/plot_route_schedule.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/pyvrp/plotting/plot_route_schedule.py b/pyvrp/plotting/plot_route_schedule.py
index fabb732..e8f9a1c 100644
--- a/pyvrp/plotting/plot_route_schedule.py
+++ b/pyvrp/plotting/plot_route_schedule.py
@@ -56,8 +56,14 @@ def plot_route_schedule(
     dist = 0
 
     load = 0
+    trip_loads = [0] * route.num_trips()  # loaded at the start of each trip
     if track_load:
-        load = route.delivery()[load_dimension]
+        for activity in route:
+            if activity.is_client():
+                client = data.client(activity.idx)
+                trip_loads[activity.trip] += client.delivery[load_dimension]
+
+        load = vehicle_type.initial_load[load_dimension] + trip_loads[0]
 
     # Traces and objects used for plotting
     trace_time = []
@@ -74,13 +80,18 @@ def plot_route_schedule(
         trace_load.append((dist, load))
 
     prev_loc = data.depot(vehicle_type.start_depot).location
-    for activity in route:
+    for idx, activity in enumerate(route):
         load_diff = 0
 
         match activity.type:
             case ActivityType.DEPOT:
                 stop = data.depot(activity.idx)  # type: ignore
 
+                # At a reload depot, the vehicle first unloads everything and
+                # then loads what is needed for the next trip.
+                if track_load and 0 < idx < len(route) - 1:
+                    load_diff = trip_loads[activity.trip] - load
+
             case ActivityType.CLIENT:
                 client = data.client(activity.idx)
                 stop = client  # type: ignore
-- 
2.43.0


From 08d1c3e3a679ff46a3f9e3a22f47ea3d676a8106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:48 +0000
Subject: [PATCH 22/23] fix: evaluate swaps of a client with the shipment of
 the same index

Symmetric swaps are evaluated once, for the smaller index first. Clients and
shipments are numbered separately, so that a swap of a client and a pickup with
equal indices was evaluated in neither order.
---
 pyvrp/cpp/search/Swap.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyvrp/cpp/search/Swap.h b/pyvrp/cpp/search/Swap.h
index 6a218bf..4ab7f6c 100644
--- a/pyvrp/cpp/search/Swap.h
+++ b/pyvrp/cpp/search/Swap.h
@@ -104,7 +104,7 @@ std::pair<Cost, bool> Swap<N, M>::evaluate(Route::Node *U,
         return std::make_pair(0, false);
 
     if constexpr (N == M)  // symmetric, so only have to evaluate this once
-        if (U->idx() >= V->idx())
+        if (U->idx() > V->idx() || (U->idx() == V->idx() && !U->isClient()))
             return std::make_pair(0, false);
 
     Cost deltaCost = 0;
-- 
2.43.0


From 18aa85d9b10f11b03db9dfc66f85ef2bcb1c4252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:48 +0000
Subject: [PATCH 23/23] fix: evaluate tail swaps after the start depot of an
 earlier route

Tail swaps between two non-empty routes are evaluated once, for the earlier
route first. But U is never a depot, so a swap of U's tail with all visits of
an earlier route was evaluated in neither order.
---
 pyvrp/cpp/search/SwapTails.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyvrp/cpp/search/SwapTails.cpp b/pyvrp/cpp/search/SwapTails.cpp
index 9e87ef5..90777ad 100644
--- a/pyvrp/cpp/search/SwapTails.cpp
+++ b/pyvrp/cpp/search/SwapTails.cpp
@@ -34,7 +34,8 @@ std::pair<pyvrp::Cost, bool> SwapTails::evaluate(
     if (!uRoute || uRoute == vRoute)
         return std::make_pair(0, false);  // unassigned, or same route
 
-    if (uRoute > vRoute && !uRoute->empty() && !vRoute->empty())
+    if (uRoute > vRoute && !uRoute->empty() && !vRoute->empty()
+        && !V->isStartDepot())
         return std::make_pair(0, false);  // move will be tackled later
 
     if (!onLastTrip(U) || !onLastTrip(V))
-- 
2.43.0

