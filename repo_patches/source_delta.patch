From c79060babd96034051288bc47b051b89412fc566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:38 +0000
Subject: [PATCH 01/39] fix: schedule_stop updates the runner's next tick

A stop scheduled earlier than the rank's other events was not seen when the
ranks agreed on the global next tick, so other ranks ran later events first
or blocked forever.
---
 src/repast4py/schedule.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/repast4py/schedule.py b/src/repast4py/schedule.py
index cb8fc68..8c5b238 100644
--- a/src/repast4py/schedule.py
+++ b/src/repast4py/schedule.py
@@ -594,6 +594,7 @@ class SharedScheduleRunner:
             The ScheduledEvent instance that executes the stop event.
         """
         sch_evt = self.schedule.schedule_event(at, self.stop, metadata={'__type': EvtType.STOP})
+        self.next_tick = self.schedule.next_tick()
         return sch_evt
 
     def stop(self):
-- 
2.43.0


From 2397572ed3c23488640a8257afae9829df7cf491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:38 +0000
Subject: [PATCH 02/39] fix: ranks without scheduled events no longer block the
 other ranks

---
 src/repast4py/schedule.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/repast4py/schedule.py b/src/repast4py/schedule.py
index 8c5b238..2720220 100644
--- a/src/repast4py/schedule.py
+++ b/src/repast4py/schedule.py
@@ -616,8 +616,10 @@ class SharedScheduleRunner:
         executing them.
         """
         while self.go:
-            global_next_tick = self.comm.allreduce(self.next_tick, op=MPI.MIN)
-            if self.next_tick == global_next_tick:
+            # a rank with nothing scheduled (-1) must not hold back the other ranks
+            next_tick = float('inf') if self.next_tick == -1 else self.next_tick
+            global_next_tick = self.comm.allreduce(next_tick, op=MPI.MIN)
+            if next_tick == global_next_tick:
                 self.schedule.execute()
             self.next_tick = self.schedule.next_tick()
 
-- 
2.43.0


From b36144be33f8cd93347dc3422cb4a3fd773aaa2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:38 +0000
Subject: [PATCH 03/39] fix: keep priority order when events are added to the
 executing tick

Re-sorting the executing group sorted the remaining RANDOM events, whose
priority is NaN, together with the BY_PRIORITY events.
---
 src/repast4py/schedule.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/repast4py/schedule.py b/src/repast4py/schedule.py
index 2720220..e0aa8ad 100644
--- a/src/repast4py/schedule.py
+++ b/src/repast4py/schedule.py
@@ -208,6 +208,13 @@ class ScheduleGroup:
         self.size_ += 1
 
     def sort(self):
+        # the prioritized list can contain not yet executed random events from a
+        # previous sort. Those do not have a priority.
+        leftover = [evt for evt in self.prioritized if evt.priority_type == PriorityType.RANDOM]
+        if leftover:
+            self.prioritized = [evt for evt in self.prioritized if evt.priority_type != PriorityType.RANDOM]
+            self.random.extend(leftover)
+
         # sort according to the order of insertion
         # so we have a predictable starting point for randomization
         self.random.sort(key=lambda evt: evt.order_idx)
-- 
2.43.0


From 947de48559d133d90acbbf55c7baf8d4a83f6523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:38 +0000
Subject: [PATCH 04/39] fix: do not lose events scheduled for the current tick
 between executions

---
 src/repast4py/schedule.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/repast4py/schedule.py b/src/repast4py/schedule.py
index e0aa8ad..710eb05 100644
--- a/src/repast4py/schedule.py
+++ b/src/repast4py/schedule.py
@@ -310,7 +310,7 @@ class Schedule:
         if at >= self.tick:
             self.last_count = next(self.counter)
             evt.order_idx = self.last_count
-            if at == self.tick:
+            if at == self.tick and self.executing_group.executing:
                 self.executing_group.add_evt(evt)
             else:
                 heapq.heappush(self.queue, (at, self.last_count, evt))
-- 
2.43.0


From 670d43145087e0be1e876ebd48f42a6d33bcfaa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:11 +0000
Subject: [PATCH 05/39] fix: sticky borders keep points inside continuous
 bounds with a large maximum

---
 src/repast4py/borders.h | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/repast4py/borders.h b/src/repast4py/borders.h
index e822ae3..77a8809 100644
--- a/src/repast4py/borders.h
+++ b/src/repast4py/borders.h
@@ -7,6 +7,10 @@
 #ifndef SRC_BORDERS_H
 #define SRC_BORDERS_H
 
+#include <algorithm>
+#include <cmath>
+#include <limits>
+
 #include "types.h"
 #include "geometry.h"
 
@@ -42,11 +46,21 @@ struct Offset {
 template<>
 struct Offset<R4Py_DiscretePoint> {
     constexpr static long_t value = 1;
+
+    // largest coordinate within bounds whose upper limit is max
+    static long_t upper(long_t max) { return max - value; }
 };
 
 template<>
 struct Offset<R4Py_ContinuousPoint> {
     constexpr static double value = 0.00000001;
+
+    // largest coordinate within bounds whose upper limit is max. The offset
+    // is below the resolution of a double when max is large, in which
+    // case the next smaller double is used
+    static double upper(double max) {
+        return std::min(max - value, std::nextafter(max, std::numeric_limits<double>::lowest()));
+    }
 };
 
 template <typename PointType>
@@ -64,9 +78,9 @@ void StickyBorders<PointType>::transform(const PointType* pt, PointType* transfo
     // v = (bounds_.zmax_ - 1) < data[2] ? (bounds_.zmax_ - 1) : data[2];
     // transformed_pt.z = bounds_.zmin_ > v ? bounds_.zmin_ : v;
 
-    t_data[0] = std::max((coord_type)bounds_.xmin_, std::min((coord_type)bounds_.xmax_ - Offset<PointType>::value, data[0]));
-    t_data[1] = std::max((coord_type)bounds_.ymin_, std::min((coord_type)bounds_.ymax_ - Offset<PointType>::value, data[1]));
-    t_data[2] = std::max((coord_type)bounds_.zmin_, std::min((coord_type)bounds_.zmax_ - Offset<PointType>::value, data[2]));
+    t_data[0] = std::max((coord_type)bounds_.xmin_, std::min(Offset<PointType>::upper(bounds_.xmax_), data[0]));
+    t_data[1] = std::max((coord_type)bounds_.ymin_, std::min(Offset<PointType>::upper(bounds_.ymax_), data[1]));
+    t_data[2] = std::max((coord_type)bounds_.zmin_, std::min(Offset<PointType>::upper(bounds_.zmax_), data[2]));
 }
 
 template<typename PointType>
@@ -82,9 +96,9 @@ void StickyBorders<PointType>::transform(const PointType* pt, Point<PointType>&
     // v = (bounds_.zmax_ - 1) < data[2] ? (bounds_.zmax_ - 1) : data[2];
     // transformed_pt.z = bounds_.zmin_ > v ? bounds_.zmin_ : v;
 
-    transformed_pt.x = std::max((coord_type)bounds_.xmin_, std::min((coord_type)bounds_.xmax_ - Offset<PointType>::value, data[0]));
-    transformed_pt.y = std::max((coord_type)bounds_.ymin_, std::min((coord_type)bounds_.ymax_ - Offset<PointType>::value, data[1]));
-    transformed_pt.z = std::max((coord_type)bounds_.zmin_, std::min((coord_type)bounds_.zmax_ - Offset<PointType>::value, data[2]));
+    transformed_pt.x = std::max((coord_type)bounds_.xmin_, std::min(Offset<PointType>::upper(bounds_.xmax_), data[0]));
+    transformed_pt.y = std::max((coord_type)bounds_.ymin_, std::min(Offset<PointType>::upper(bounds_.ymax_), data[1]));
+    transformed_pt.z = std::max((coord_type)bounds_.zmin_, std::min(Offset<PointType>::upper(bounds_.zmax_), data[2]));
 }
 
 using GridStickyBorders = StickyBorders<R4Py_DiscretePoint>;
-- 
2.43.0


From 69698f6e008589f0e97b8d440810aa8f09608413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:55 +0000
Subject: [PATCH 06/39] fix: periodic borders zero unused dimensions and never
 return the maximum

---
 src/repast4py/borders.h | 33 ++++++++++++++++++---------------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/src/repast4py/borders.h b/src/repast4py/borders.h
index 77a8809..18676f7 100644
--- a/src/repast4py/borders.h
+++ b/src/repast4py/borders.h
@@ -104,13 +104,23 @@ void StickyBorders<PointType>::transform(const PointType* pt, Point<PointType>&
 using GridStickyBorders = StickyBorders<R4Py_DiscretePoint>;
 using CSStickyBorders = StickyBorders<R4Py_ContinuousPoint>;
 
+// wraps value into [min, max)
+template <typename CoordType>
+CoordType wrap(CoordType value, CoordType min, CoordType max, CoordType extent) {
+    CoordType nc = fmod(value - min, extent);
+    CoordType wrapped = nc < 0 ? max + nc : min + nc;
+    // nc can be too small to be distinguished from max or min after the addition
+    return wrapped < max ? wrapped : min;
+}
+
 template <typename PointType>
 void transformX(const PointType* pt, Point<PointType>& transformed_pt, const BoundingBox& bounds) {
     using coord_type  = typename TypeSelector<PointType>::type;
     coord_type* data = (coord_type*) PyArray_DATA(pt->coords);
 
-    coord_type nc = fmod((data[0] - bounds.xmin_), bounds.x_extent_);
-    transformed_pt.x = nc < 0 ? bounds.xmax_ + nc : bounds.xmin_ + nc;
+    transformed_pt.x = wrap<coord_type>(data[0], bounds.xmin_, bounds.xmax_, bounds.x_extent_);
+    transformed_pt.y = bounds.ymin_;
+    transformed_pt.z = bounds.zmin_;
 }
 
 template <typename PointType>
@@ -118,11 +128,9 @@ void transformXY(const PointType* pt, Point<PointType>& transformed_pt, const Bo
     using coord_type  = typename TypeSelector<PointType>::type;
     coord_type* data = (coord_type*) PyArray_DATA(pt->coords);
 
-    coord_type nc = fmod(data[0] - bounds.xmin_, bounds.x_extent_);
-    transformed_pt.x = nc < 0 ? bounds.xmax_ + nc : bounds.xmin_ + nc;
-
-    nc = fmod(data[1] - bounds.ymin_, bounds.y_extent_);
-    transformed_pt.y = nc < 0 ? bounds.ymax_ + nc : bounds.ymin_ + nc; 
+    transformed_pt.x = wrap<coord_type>(data[0], bounds.xmin_, bounds.xmax_, bounds.x_extent_);
+    transformed_pt.y = wrap<coord_type>(data[1], bounds.ymin_, bounds.ymax_, bounds.y_extent_);
+    transformed_pt.z = bounds.zmin_;
 }
 
 template <typename PointType>
@@ -130,14 +138,9 @@ void transformXYZ(const PointType* pt, Point<PointType>& transformed_pt, const B
     using coord_type  = typename TypeSelector<PointType>::type;
     coord_type* data = (coord_type*) PyArray_DATA(pt->coords);
 
-    coord_type nc = fmod((data[0] - bounds.xmin_), bounds.x_extent_);
-    transformed_pt.x = nc < 0 ? bounds.xmax_ + nc : bounds.xmin_ + nc;
-
-    nc = fmod(data[1] - bounds.ymin_, bounds.y_extent_);
-    transformed_pt.y = nc < 0 ? bounds.ymax_ + nc : bounds.ymin_ + nc; 
-
-    nc = fmod(data[2] - bounds.zmin_, bounds.z_extent_);
-    transformed_pt.z = nc < 0 ? bounds.zmax_ + nc : bounds.zmin_ + nc;
+    transformed_pt.x = wrap<coord_type>(data[0], bounds.xmin_, bounds.xmax_, bounds.x_extent_);
+    transformed_pt.y = wrap<coord_type>(data[1], bounds.ymin_, bounds.ymax_, bounds.y_extent_);
+    transformed_pt.z = wrap<coord_type>(data[2], bounds.zmin_, bounds.zmax_, bounds.z_extent_);
 }
 
 template<typename PointType>
-- 
2.43.0


From 372d873cc3175571ee7b6b46abb2ff2548c78c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:15 +0000
Subject: [PATCH 07/39] fix: adding an agent already in a space removes its
 previous location

---
 src/repast4py/space.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/repast4py/space.h b/src/repast4py/space.h
index 829ea81..b99cee9 100644
--- a/src/repast4py/space.h
+++ b/src/repast4py/space.h
@@ -94,9 +94,11 @@ BaseSpace<PointType, AccessorType, BorderType>::~BaseSpace() {
 
 template<typename PointType, typename AccessorType, typename BorderType>
 bool BaseSpace<PointType, AccessorType, BorderType>::add(R4Py_Agent* agent) {
+    // agent, or another agent with the same id, may already be in this space
+    Py_INCREF(agent);
+    remove(agent->aid);
     auto item = std::make_shared<SpaceItem<PointType>>();
     item->agent = agent;
-    Py_INCREF(agent);
     item->pt = nullptr;
     agent_map[agent->aid] = item;
     // TODO use simphony style adder to set location / or not
-- 
2.43.0


From 16c59f559509e4f5734881fb12b5178fd57b2332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:28 +0000
Subject: [PATCH 08/39] fix: spatial tree loses and repeats agents that share a
 location

---
 src/repast4py/SpatialTree.h | 53 ++++++++++++++++++-------------------
 1 file changed, 26 insertions(+), 27 deletions(-)

diff --git a/src/repast4py/SpatialTree.h b/src/repast4py/SpatialTree.h
index 2c5875b..dfe5c72 100644
--- a/src/repast4py/SpatialTree.h
+++ b/src/repast4py/SpatialTree.h
@@ -90,8 +90,10 @@ template<typename PointType>
 class MOItems {
 
 private:
-    size_t sum;
-    std::map<PointType*, size_t, PtrPointComp<PointType>> point_counts;
+    // each item has its own point, whose coordinates change when the item
+    // moves, so the locations are kept by value
+    std::set<PointType*> points;
+    std::map<Point<PointType>, size_t, PointComp<PointType>> point_counts;
 
 public:
     MOItems();
@@ -108,33 +110,32 @@ public:
 };
 
 template<typename PointType>
-MOItems<PointType>::MOItems() : sum{0}, point_counts{} {}
+MOItems<PointType>::MOItems() : points{}, point_counts{} {}
 template<typename PointType>
 MOItems<PointType>::~MOItems() {}
 
 template<typename PointType>
 void MOItems<PointType>::add(PointType* pt) {
-    auto iter = point_counts.find(pt);
-    if (iter == point_counts.end()) {
-        ++sum;
+    if (points.insert(pt).second) {
         Py_INCREF(pt);
-        point_counts.emplace(pt, 1);
-    } else {
-        ++(iter->second);
+        Point<PointType> coords;
+        extract_coords(pt, coords);
+        ++point_counts[coords];
     }
 }
 
 template<typename PointType>
 bool MOItems<PointType>::remove(PointType* pt) {
-    auto kv = point_counts.find(pt);
-    if (kv != point_counts.end()) {
-        --(kv->second);
-        // size_t val = --point_counts[item->pt];
-        if (kv->second == 0) {
-            Py_DECREF(kv->first);
+    auto iter = points.find(pt);
+    if (iter != points.end()) {
+        Point<PointType> coords;
+        extract_coords(pt, coords);
+        auto kv = point_counts.find(coords);
+        if (kv != point_counts.end() && --(kv->second) == 0) {
             point_counts.erase(kv);
-            --sum;
         }
+        points.erase(iter);
+        Py_DECREF(pt);
         return true;
     } 
     return false;
@@ -142,15 +143,15 @@ bool MOItems<PointType>::remove(PointType* pt) {
 
 template<typename PointType>
 void MOItems<PointType>::addToNode(std::shared_ptr<STNode<Box2D, R4Py_ContinuousPoint, ContinuousMOType_>> node, int threshold) {
-    for (auto& kv: point_counts) {
-        node->addItem(kv.first, threshold);
+    for (auto pt: points) {
+        node->addItem(pt, threshold);
     }
 }
 
 template<typename PointType>
 void MOItems<PointType>::addToNode(std::shared_ptr<STNode<Box3D, R4Py_ContinuousPoint, ContinuousMOType_>> node, int threshold) {
-    for (auto& kv: point_counts) {
-        node->addItem(kv.first, threshold);
+    for (auto pt: points) {
+        node->addItem(pt, threshold);
     }
 }
 
@@ -158,11 +159,9 @@ template<typename PointType>
 void MOItems<PointType>::getObjectsWithin(const BoundingBox& box, MOMapType* loc_map,
     std::shared_ptr<std::vector<R4Py_Agent*>>& agents) {
 
-    Point<R4Py_ContinuousPoint> ppt;
     for (auto& kv : point_counts) {
         if (box.contains(kv.first)) {
-            extract_coords(kv.first, ppt);
-            auto& agent_lst = (*loc_map)[ppt];
+            auto& agent_lst = (*loc_map)[kv.first];
             agents->insert(agents->end(), agent_lst->begin(), agent_lst->end());
         }
     }
@@ -182,16 +181,16 @@ void MOItems<PointType>::getObjectsWithin(const BoundingBox& box, MOMapType* loc
 
 template<typename PointType>
 size_t MOItems<PointType>::size() const {
-    return sum;
+    return point_counts.size();
 }
 
 template<typename PointType>
 void MOItems<PointType>::clear() {
-    for (auto& kv: point_counts) {
-        Py_DECREF(kv.first);
+    for (auto pt: points) {
+        Py_DECREF(pt);
     }
+    points.clear();
     point_counts.clear();
-    sum = 0;
 }
 
 
-- 
2.43.0


From fea940c94d9c93e22fd17b85c82b6a6d7122ca70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:46 +0000
Subject: [PATCH 09/39] fix: 1 dimensional continuous spaces dereference a
 missing spatial tree

---
 src/repast4py/cspace.h | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/repast4py/cspace.h b/src/repast4py/cspace.h
index cdb1e32..a43c877 100644
--- a/src/repast4py/cspace.h
+++ b/src/repast4py/cspace.h
@@ -66,7 +66,16 @@ template<typename AccessorType, typename BorderType>
 void BaseCSpace<AccessorType, BorderType>::getAgentsWithin(const BoundingBox& bounds, 
     std::shared_ptr<std::vector<R4Py_Agent*>>& agents) 
 {
-    spatial_tree->getObjectsWithin(bounds, agents);
+    if (spatial_tree) {
+        spatial_tree->getObjectsWithin(bounds, agents);
+    } else {
+        // no tree in 1 dimension
+        for (auto& kv : agent_map) {
+            if (kv.second->pt && bounds.contains(kv.second->pt)) {
+                agents->push_back(kv.second->agent);
+            }
+        }
+    }
 }
 
 template<typename AccessorType, typename BorderType>
@@ -77,7 +86,7 @@ bool BaseCSpace<AccessorType, BorderType>::remove(R4Py_Agent* agent) {
 template<typename AccessorType, typename BorderType>
 bool BaseCSpace<AccessorType, BorderType>::remove(R4Py_AgentID* aid) {
     auto iter = agent_map.find(aid);
-    if (iter != agent_map.end() && iter->second->pt) {
+    if (iter != agent_map.end() && iter->second->pt && spatial_tree) {
         spatial_tree->removeItem(iter->second);
     }
     return BaseSpace<R4Py_ContinuousPoint, AccessorType, BorderType>::remove(aid);
@@ -93,17 +102,17 @@ R4Py_ContinuousPoint* BaseCSpace<AccessorType, BorderType>::move(R4Py_Agent* age
         if (!point_equals(iter->second->pt, wpt)) {
             if (accessor.put(agent, location_map, wpt)) {
                 if (iter->second->pt) {
-                    spatial_tree->removeItem(iter->second);
+                    if (spatial_tree) spatial_tree->removeItem(iter->second);
                     // if successful put, and agent is already located 
                     // so need to remove
                     Point<R4Py_ContinuousPoint> ppt;
                     extract_coords(iter->second->pt, ppt);
                     accessor.remove(agent, location_map, ppt);
                     update_point(iter->second->pt, wpt);
-                    spatial_tree->addItem(iter->second);
+                    if (spatial_tree) spatial_tree->addItem(iter->second);
                 }  else {
                     iter->second->pt = create_point(Py_TYPE(pt), wpt);
-                    spatial_tree->addItem(iter->second);
+                    if (spatial_tree) spatial_tree->addItem(iter->second);
                 }
             } else {
                 return nullptr;
-- 
2.43.0


From feb4ebb45cf8ab6dbdcc472d7cc0a4796ca6dfbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:46 +0000
Subject: [PATCH 10/39] fix: periodic borders leave points inside continuous
 bounds unchanged

---
 src/repast4py/borders.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/repast4py/borders.h b/src/repast4py/borders.h
index 18676f7..1ba1186 100644
--- a/src/repast4py/borders.h
+++ b/src/repast4py/borders.h
@@ -107,6 +107,8 @@ using CSStickyBorders = StickyBorders<R4Py_ContinuousPoint>;
 // wraps value into [min, max)
 template <typename CoordType>
 CoordType wrap(CoordType value, CoordType min, CoordType max, CoordType extent) {
+    // rounding must not move a value that is already inside
+    if (value >= min && value < max) return value;
     CoordType nc = fmod(value - min, extent);
     CoordType wrapped = nc < 0 ? max + nc : min + nc;
     // nc can be too small to be distinguished from max or min after the addition
-- 
2.43.0


From 8a88087e5def9b5ee6a9d5b51e7993e6c1e3cf11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:06 +0000
Subject: [PATCH 11/39] fix: synchronize every buffer slice exchanged by two
 ranks of a SharedValueLayer

When two ranks are neighbors in more than one direction (periodic borders, 1
or 2 processes in a dimension) all slices were copied to and read from the same
place in the message, some to the wrong part of the buffer, and 3 x 1 processes
overflowed the metadata.
---
 src/repast4py/value_layer.py | 142 ++++++++++++-----------------------
 1 file changed, 46 insertions(+), 96 deletions(-)

diff --git a/src/repast4py/value_layer.py b/src/repast4py/value_layer.py
index 921f9c6..2ed552c 100644
--- a/src/repast4py/value_layer.py
+++ b/src/repast4py/value_layer.py
@@ -426,34 +426,9 @@ def _compute_meta_data_counts(meta_data, num_dims, offset, num_slices):
     of the metadata (data used to synchronize among ranks) arrays is different. This
     computes the size of the arrays.
     """
-    if num_slices == 1:
-        return np.apply_along_axis(lambda row: np.prod(row[:num_dims]), 1, meta_data)
-    elif num_slices == 2:
-        # return meta_data[:, 0] + meta_data[:, offset]
-        return np.apply_along_axis(
-            lambda row: np.prod(row[:num_dims]) + np.prod(row[offset: offset + num_dims]), 1, meta_data)
-    elif num_slices == 3:
-        return np.apply_along_axis(
-            lambda row: np.prod(row[:num_dims])
-            + np.prod(row[offset: offset + num_dims])
-            + np.prod(row[offset * 2: offset * 2 + num_dims]),
-            1, meta_data)
-    elif num_slices == 4:
-        return np.apply_along_axis(
-            lambda row: np.prod(row[:num_dims])
-            + np.prod(row[offset: offset + num_dims])
-            + np.prod(row[offset * 2: offset * 2 + num_dims])
-            + np.prod(row[offset * 3: offset * 3 + num_dims]),
-            1, meta_data)
-    elif num_slices == 6:
-        return np.apply_along_axis(
-            lambda row: np.prod(row[:num_dims])
-            + np.prod(row[offset: offset + num_dims])
-            + np.prod(row[offset * 2: offset * 2 + num_dims])
-            + np.prod(row[offset * 3: offset * 3 + num_dims])
-            + np.prod(row[offset * 4: offset * 4 + num_dims])
-            + np.prod(row[offset * 5: offset * 5 + num_dims]),
-            1, meta_data)
+    return np.apply_along_axis(
+        lambda row: sum(np.prod(row[i * offset: i * offset + num_dims]) for i in range(num_slices)),
+        1, meta_data)
 
 
 class SharedValueLayer(ValueLayer):
@@ -587,6 +562,14 @@ class SharedValueLayer(ValueLayer):
 
         return (start_val, end_val)
 
+    def _recv_ranges(self, start_val, end_val, full_extent, grid_extent):
+        """Gets the ranges of grid indices, in one dimension, at which a received range of values
+        belongs: those indices that refer to the received locations given the border semantics.
+        """
+        shifts = (0, -full_extent, full_extent) if self.periodic else (0,)
+        return [(start_val + s, end_val + s) for s in shifts
+                if start_val + s >= 0 and end_val + s <= grid_extent]
+
     def _init_buffered_bounds(self, bounds, buffer_size, periodic):
         xmin, xextent = 0, 0
         ymin, yextent = 0, 0
@@ -719,25 +702,15 @@ class SharedValueLayer(ValueLayer):
 
         for ngh_rank, data in enumerate(self.ngh_meta_data_recv):
             slice_data = []
-            if data[0] != 0:
-                row = data[1] + r_trans
+            for i in range(num_sent_slices):
+                idx = offset * i
+                if data[idx] == 0:
+                    break
+                row = data[idx + 1] + r_trans
                 # origin + extent
-                stop_row = row + (data[2] - data[1])
-                row, stop_row = self._wrap_slice_vals(row, stop_row, self.full_bounds.xextent, self.local_bounds.xextent,
-                                                      self.procs_per_dim[0])
-                slice_data.append((ngh_rank, data[0], data[0], (slice(row, stop_row),)))
-
-                for i in range(1, num_sent_slices):
-                    idx = offset * i
-                    if data[idx] != 0:
-                        row = data[idx + 1] + r_trans
-                        # origin + extent
-                        stop_row = row + (data[idx + 2] - data[idx + 1])
-                        row, stop_row = self._wrap_slice_vals(row, stop_row, self.full_bounds.xextent, self.local_bounds.xextent,
-                                                              self.procs_per_dim[0])
-                        slice_data.append((ngh_rank, data[idx], data[idx], (slice(row, stop_row),)))
-                    else:
-                        break
+                stop_row = row + (data[idx + 2] - data[idx + 1])
+                rows = self._recv_ranges(row, stop_row, self.full_bounds.xextent, self.grid.shape[0])
+                slice_data.append((ngh_rank, data[idx], data[idx], [(slice(*r),) for r in rows]))
             if len(slice_data) > 0:
                 recv_buf_data.append(slice_data)
 
@@ -771,13 +744,8 @@ class SharedValueLayer(ValueLayer):
         offset = 6
         data_size = offset
         if self.periodic:
-            if topo.procs_per_dim[0] == 2 and topo.procs_per_dim[1] == 2:
-                data_size = 24
-            elif topo.procs_per_dim[0] == 2 or topo.procs_per_dim[1] == 2:
-                if num_procs == 2:
-                    data_size = 36
-                else:
-                    data_size = 12
+            # a rank can be the neighbor in each of the 8 directions
+            data_size = offset * 8
 
         # send buffer for meta data (bounds etc.)
         meta_data_send = np.zeros((num_procs, data_size), dtype=np.int32)
@@ -807,46 +775,23 @@ class SharedValueLayer(ValueLayer):
         recv_buf = np.empty(np.sum(recv_counts), dtype=buf_dtype)
         recv_buf_data = []
 
-        rts = [r_trans for _ in range(num_sent_slices)]
-        cts = [c_trans for _ in range(num_sent_slices)]
-        if topo.procs_per_dim[0] == 1:
-            cts = [0, 0, 0, 0, c_trans, c_trans]
-        elif topo.procs_per_dim[1] == 1:
-            rts = [0, r_trans, 0, r_trans, r_trans, r_trans]
-
         for ngh_rank, data in enumerate(self.ngh_meta_data_recv):
             # data: shape, pytorch_ordered bounds [ 2 30  0 30 80 82  0  0]
             slice_data = []
-            if data[0] != 0:
-                row = data[2] + rts[0]
-                col = data[4] + cts[0]
+            for i in range(num_sent_slices):
+                idx = offset * i
+                if data[idx] == 0:
+                    break
+                row = data[idx + 2] + r_trans
+                col = data[idx + 4] + c_trans
                 # origin + extent
-                stop_row = row + (data[3] - data[2])
-                stop_col = col + (data[5] - data[4])
-
-                row, stop_row = self._wrap_slice_vals(row, stop_row, self.full_bounds.yextent, self.local_bounds.yextent,
-                                                      self.procs_per_dim[1])
-                col, stop_col = self._wrap_slice_vals(col, stop_col, self.full_bounds.xextent, self.local_bounds.xextent,
-                                                      self.procs_per_dim[0])
-                slice_data.append((ngh_rank, np.prod(data[:2]), data[:2], (slice(row, stop_row), slice(col, stop_col))))
-
-                for i in range(1, num_sent_slices):
-                    idx = offset * i
-                    if data[idx] != 0:
-                        row = data[idx + 2] + rts[i]
-                        col = data[idx + 4] + cts[i]
-                        # origin + extent
-                        stop_row = row + (data[idx + 3] - data[idx + 2])
-                        stop_col = col + (data[idx + 5] - data[idx + 4])
-
-                        row, stop_row = self._wrap_slice_vals(row, stop_row, self.full_bounds.yextent,
-                                                              self.local_bounds.yextent, self.procs_per_dim[1])
-                        col, stop_col = self._wrap_slice_vals(col, stop_col, self.full_bounds.xextent,
-                                                              self.local_bounds.xextent, self.procs_per_dim[0])
-                        slice_data.append((ngh_rank, np.prod(data[idx: idx + 2]), data[idx: idx + 2],
-                                          (slice(row, stop_row), slice(col, stop_col))))
-                    else:
-                        break
+                stop_row = row + (data[idx + 3] - data[idx + 2])
+                stop_col = col + (data[idx + 5] - data[idx + 4])
+
+                rows = self._recv_ranges(row, stop_row, self.full_bounds.yextent, self.grid.shape[0])
+                cols = self._recv_ranges(col, stop_col, self.full_bounds.xextent, self.grid.shape[1])
+                slice_data.append((ngh_rank, np.prod(data[idx: idx + 2]), data[idx: idx + 2],
+                                  [(slice(*r), slice(*c)) for r in rows for c in cols]))
 
             if len(slice_data) > 0:
                 recv_buf_data.append(slice_data)
@@ -960,15 +905,18 @@ class SharedValueLayer(ValueLayer):
         # self.send_data = ((send_buf, (send_counts, send_displs)), ngh_buffers)
         # self.recv_data = ((recv_buf, (recv_counts, recv_displs)), recv_buf_data)
         # ngh_buffers: (ngh_rank, size, shape, bounds, slice_tuple)
-        # recv_buf_data: (ngh_rank, shape, slice_tuple)
+        # recv_buf_data: (ngh_rank, size, shape, list of slice_tuples)
 
         # fill send buffer from grid view
         send_msg, ngh_buffers = self.send_data
         send_displs = send_msg[1][1]
         send_buf = send_msg[0]
+        # there may be more than one slice to a rank
+        next_displs = send_displs.copy()
         for ngh_rank, size, _, _, tslice in ngh_buffers:
-            disp = send_displs[ngh_rank]
+            disp = next_displs[ngh_rank]
             send_buf[disp: disp + size] = self.grid[tslice].numpy().reshape(size)
+            next_displs[ngh_rank] += size
 
         self.cart_comm.Alltoallv(self.send_data[0], self.recv_data[0])
 
@@ -977,14 +925,16 @@ class SharedValueLayer(ValueLayer):
         recv_displs = recv_msg[1][1]
         recv_buf = recv_msg[0]
         for items in recv_buf_data:
-            for ngh_rank, size, shape, tslice in items:
+            disp = recv_displs[items[0][0]]
+            for ngh_rank, size, shape, tslices in items:
                 try:
-                    disp = recv_displs[ngh_rank]
-                    self.grid[tslice] = torch.as_tensor(
-                        recv_buf[disp: disp + size].reshape(shape))
+                    vals = torch.as_tensor(recv_buf[disp: disp + size].reshape(shape))
+                    for tslice in tslices:
+                        self.grid[tslice] = vals
+                    disp += size
 
                 except Exception:
-                    print(self.rank, ngh_rank, size, shape, tslice)
+                    print(self.rank, ngh_rank, size, shape, tslices)
                     raise
         self._buffer_self()
 
-- 
2.43.0


From 69770907477dc63b7e874cebd5effb12cbbc59e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:35 +0000
Subject: [PATCH 12/39] fix: buffer regions for periodic topologies with 1 or 2
 processes in a dimension

The offset to a neighbor was reconstructed from the ranks' coordinates, which
is ambiguous when a dimension has 1 or 2 processes: with n x 1 processes
(n odd) it read past the end of a vector, in 3D the wrong side of the space
was sent, and a 1D space on one process was its own neighbor. Keep the offset
with which the neighbor was found.
---
 src/repast4py/distributed_space.cpp | 150 +++-------------------------
 src/repast4py/distributed_space.h   |   2 +
 2 files changed, 16 insertions(+), 136 deletions(-)

diff --git a/src/repast4py/distributed_space.cpp b/src/repast4py/distributed_space.cpp
index e49f9aa..b0c5ad8 100644
--- a/src/repast4py/distributed_space.cpp
+++ b/src/repast4py/distributed_space.cpp
@@ -40,28 +40,26 @@ void compute_buffer_bounds(CTNeighbor& ngh, int offsets[], int num_dims, Boundin
 
     // 1: ngh to right of me.
     // -1: ngh to left of me.
-    // > 1: ngh is wrapped to left
-    // < -1: ngh is wrapped to right
-    if (offsets[0] == -1 || offsets[0] > 1) {
+    if (offsets[0] == -1) {
         xmin = local_bounds.xmin_;
         xmax = xmin + buffer_size;
-    } else if (offsets[0] == 1 || offsets[0] < -1) {
+    } else if (offsets[0] == 1) {
         xmin = local_bounds.xmax_ - buffer_size;
         xmax = xmin + buffer_size;
     }
 
-    if (offsets[1] == -1 || offsets[1] > 1) {
+    if (offsets[1] == -1) {
         ymin = local_bounds.ymin_;
         ymax = ymin + buffer_size;
-    } else if (offsets[1] == 1 || offsets[1] < -1) {
+    } else if (offsets[1] == 1) {
         ymin = local_bounds.ymax_ - buffer_size;
         ymax = ymin + buffer_size;
     }
 
-    if (offsets[2] == -1 || offsets[2] > 1) {
+    if (offsets[2] == -1) {
         zmin = local_bounds.zmin_;
         zmax = zmin + buffer_size;
-    } else if (offsets[2] == 1 || offsets[2] < -1) {
+    } else if (offsets[2] == 1) {
         zmin = local_bounds.zmax_ - buffer_size;
         zmax = zmin + buffer_size;
     }
@@ -79,130 +77,8 @@ void compute_buffer_bounds(CTNeighbor& ngh, int offsets[], int num_dims, Boundin
 void compute_neighbor_buffers(std::vector<CTNeighbor>& nghs, std::vector<int>& cart_coords, 
     BoundingBox& local_bounds, int num_dims, const int* procs_per_dim, unsigned int buffer_size)
 {
-    int offsets[3] = {0, 0, 0};
-
-    std::set<int> p_ranks;
-    if (num_dims == 1) {
-        for (auto& ngh : nghs) {
-            offsets[0] = ngh.cart_coord_x - cart_coords[0];
-            // if in p_ranks:
-            //    coord_x > card_coords[0] -- to the right of me, so offsets to -1 as if to the left of me.
-            //    coord_x < card_coords[0] -- to the left of me , so offsets to 1 as if to right of me
-            if (p_ranks.find(ngh.rank) != p_ranks.end()) {
-                if (offsets[0] < 0) offsets[0] = 1;
-                else offsets[0] = -1;
-            }
-            compute_buffer_bounds(ngh, offsets, num_dims, local_bounds, buffer_size);
-            p_ranks.emplace(ngh.rank);
-        }
-    } else if (num_dims == 2) {
-        // bool is_0 = cart_coords[0] == 0 && cart_coords[1] == 0;
-        
-        // first element is number of times ngh appears, 2 and 3 and cart coord
-        // differences
-        std::map<int, std::vector<int>> coord_offset_counts;
-        // if (is_0) std::cout << "num nghs: " << nghs.size() << std::endl;
-        for (auto& ngh : nghs) {
-            if (coord_offset_counts.find(ngh.rank) == coord_offset_counts.end()) {
-                int ox = ngh.cart_coord_x - cart_coords[0];
-                int oy = ngh.cart_coord_y - cart_coords[1];
-                // if (is_0) std::cout << "ngh offsets for " << ngh.rank << ": " << ox << ", " << oy << std::endl;
-                coord_offset_counts.emplace(ngh.rank, std::vector<int>{1, ox, oy});
-            } else {
-                coord_offset_counts[ngh.rank][0] += 1;
-                // int ox = ngh.cart_coord_x - cart_coords[0];
-                // int oy = ngh.cart_coord_y - cart_coords[1];
-                // if (is_0) std::cout << "ngh offsets for " << ngh.rank << ": " << ox << ", " << oy << std::endl;
-            }
-        }
-
-        bool x2 = procs_per_dim[0] == 2;
-        bool y2 = procs_per_dim[1] == 2;
-
-        std::map<int, std::vector<int>> fixed_offsets;
-        for (auto kv : coord_offset_counts) {
-            auto& val = kv.second;
-            if (val[0] == 1) {
-                fixed_offsets.emplace(kv.first, std::vector<int>{val[1], val[2]});
-            } else if (val[0] == 2) {
-                // which dimension is duplicated
-                if (val[1] != 0 && x2) {
-                    fixed_offsets.emplace(kv.first, std::vector<int>{1, val[2], -1 , val[2]});
-                } 
-                
-                if (val[2] != 0 && y2) {
-                    fixed_offsets.emplace(kv.first, std::vector<int>{val[1], 1, val[1], -1});
-                }
-            } else if (val[0] == 4) {
-                // both dimensions duplicated
-                fixed_offsets.emplace(kv.first, std::vector<int>{1, 1, 1, -1, -1, 1, -1, -1});
-            } else if (val[0] == 6) {
-                // this will occur with 2 procs and periodic -- meet at left / right or top / bottom
-                // and 4 corners
-                if (x2) {
-                    fixed_offsets.emplace(kv.first, std::vector<int>{-1, -1, -1, 1, 1, -1, 1, 1, -1, 0, 1, 0});
-                } else if (y2) {
-                    fixed_offsets.emplace(kv.first, std::vector<int>{-1, -1, -1, 1, 1, -1, 1, 1, 0, -1, 0, 1});
-                }
-            }
-        }
-
-        std::map<int, int> ngh_offsets_idx;
-        for (auto& ngh : nghs) {
-            int idx = ngh_offsets_idx[ngh.rank];
-            ngh_offsets_idx[ngh.rank] += 2;
-            auto& ngh_offsets = fixed_offsets[ngh.rank];
-            offsets[0] = ngh_offsets[idx];
-            offsets[1] = ngh_offsets[idx + 1];
-            compute_buffer_bounds(ngh, offsets, num_dims, local_bounds, buffer_size);
-            // if (is_0) std::cout << "fixed ngh offsets for " << ngh.rank << ": " << offsets[0] << ", " << offsets[1] << std::endl;
-        }
-
-        // for (auto& ngh : nghs) {
-        //     offsets[0] = ngh.cart_coord_x - cart_coords[0];
-        //     offsets[1] = ngh.cart_coord_y - cart_coords[1];
-        //     if (is_0) std::cout << "ngh offsets for " << ngh.rank << ": " << offsets[0] << ", " << offsets[1] << std::endl;
-        //     if (p_ranks.find(ngh.rank) != p_ranks.end()) {
-        //         if (x2) {
-        //             if (offsets[0] < 0) offsets[0] = 1;
-        //             else if (offsets[0] > 0) offsets[0] = -1;
-        //         }
-        //         if (y2) {
-        //             if (offsets[1] < 0) offsets[1] = 1;
-        //             else if (offsets[1] > 0) offsets[1] = -1;
-        //         }
-        //         if (is_0) std::cout << "ngh offsets for " << ngh.rank << ": " << offsets[0] << ", " << offsets[1] << std::endl;
-        //     }
-        //     compute_buffer_bounds(ngh, offsets, num_dims, local_bounds, buffer_size);
-        //     p_ranks.emplace(ngh.rank);
-        // }
-    } else if (num_dims == 3) {
-        bool x2 = procs_per_dim[0] == 2;
-        bool y2 = procs_per_dim[1] == 2;
-        bool z2 = procs_per_dim[2] == 2;
-        for (auto& ngh : nghs) {
-            offsets[0] = ngh.cart_coord_x - cart_coords[0];
-            offsets[1] = ngh.cart_coord_y - cart_coords[1];
-            offsets[2] = ngh.cart_coord_z - cart_coords[2];
-            if (p_ranks.find(ngh.rank) != p_ranks.end()) {
-                if (x2) {
-                    if (offsets[0] < 0) offsets[0] = 1;
-                    else if (offsets[0] > 0) offsets[0] = -1;
-
-                }
-                if (y2) {
-                    if (offsets[1] < 0) offsets[1] = 1;
-                    else if (offsets[1] > 0) offsets[1] = -1;
-                }
-                if (z2) {
-                    if (offsets[2] < 0) offsets[2] = 1;
-                    else if (offsets[2] > 0) offsets[2] = -1;
-                }
-
-            }
-            compute_buffer_bounds(ngh, offsets, num_dims, local_bounds, buffer_size);
-            p_ranks.emplace(ngh.rank);
-        }
+    for (auto& ngh : nghs) {
+        compute_buffer_bounds(ngh, ngh.offsets, num_dims, local_bounds, buffer_size);
     }
 }
 
@@ -351,8 +227,10 @@ void CartesianTopology::getNeighbors(std::vector<CTNeighbor>& neighbors) {
             MPI_Cart_coords(comm_, n_rank, num_dims_, working);
             // ngh_map.emplace(n_rank, CTNeighbor{n_rank, working[0], -1, -1, nullptr,
             //    {0, 0, 0, 0}});
-            neighbors.push_back(CTNeighbor{n_rank, working[0], -1, -1, nullptr,
-                {0, 0, 0, 0}});
+            if (n_rank != rank) {
+                neighbors.push_back(CTNeighbor{n_rank, working[0], -1, -1, nullptr,
+                    {0, 0, 0, 0}, {xd, 0, 0}});
+            }
         }
 
     } else if (num_dims_ == 2) {
@@ -387,7 +265,7 @@ void CartesianTopology::getNeighbors(std::vector<CTNeighbor>& neighbors) {
                         //ngh_map.emplace(n_rank, CTNeighbor{n_rank, working[0], working[1], -1, nullptr,
                         //{0, 0, 0, 0}});
                         neighbors.push_back(CTNeighbor{n_rank, working[0], working[1], -1, nullptr,
-                            {0, 0, 0, 0}});
+                            {0, 0, 0, 0}, {xd, yd, 0}});
                     }
                 }
             }
@@ -435,7 +313,7 @@ void CartesianTopology::getNeighbors(std::vector<CTNeighbor>& neighbors) {
                         //ngh_map.emplace(n_rank, CTNeighbor{n_rank, working[0], working[1], working[2], nullptr,
                         //{0, 0, 0, 0}});
                         neighbors.push_back(CTNeighbor{n_rank, working[0], working[1], working[2], nullptr,
-                            {0, 0, 0, 0}});
+                            {0, 0, 0, 0}, {xd, yd, zd}});
                     }
                 }
             }
diff --git a/src/repast4py/distributed_space.h b/src/repast4py/distributed_space.h
index 88b6bca..fdc5821 100644
--- a/src/repast4py/distributed_space.h
+++ b/src/repast4py/distributed_space.h
@@ -27,6 +27,8 @@ struct CTNeighbor {
     // buffered agents - tuple: (rank, (xmin, xmax, ymin, ymax, zmin, zmax))
     PyObject* buffer_info;
     BoundingBox local_bounds;
+    // offset (-1, 0 or 1) of the neighbor in each dimension
+    int offsets[3];
 };
 
 struct GetBufferInfo {
-- 
2.43.0


From 2e036731067e3789ba377e31ab12b8ae979380e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:35 +0000
Subject: [PATCH 13/39] fix: CartesianTopology.coordinates has one value for
 each dimension

---
 src/repast4py/distributed_space.cpp |  2 +-
 src/repast4py/spacemodule.cpp       | 17 +++--------------
 2 files changed, 4 insertions(+), 15 deletions(-)

diff --git a/src/repast4py/distributed_space.cpp b/src/repast4py/distributed_space.cpp
index b0c5ad8..26d66ef 100644
--- a/src/repast4py/distributed_space.cpp
+++ b/src/repast4py/distributed_space.cpp
@@ -150,7 +150,7 @@ CartesianTopology::~CartesianTopology() {
 }
 
 void CartesianTopology::getCoords(std::vector<int>& coords) {
-    coords.reserve(num_dims_);
+    coords.resize(num_dims_);
     MPI_Cart_coords(comm_, getRank(), num_dims_, &coords[0]);
 }
 
diff --git a/src/repast4py/spacemodule.cpp b/src/repast4py/spacemodule.cpp
index 890941f..bbcacd2 100644
--- a/src/repast4py/spacemodule.cpp
+++ b/src/repast4py/spacemodule.cpp
@@ -2663,24 +2663,13 @@ static PyObject* CartesianTopology_getLocalBounds(PyObject* self, void* args) {
 static PyObject* CartesianTopology_getCartCoords(PyObject* self, void* closure) {
     std::vector<int> coords;
     ((R4Py_CartesianTopology*)self)->topo->getCoords(coords);
-    #if defined(_MSC_VER)
-    if (coords.size() == 1) {
-        return Py_BuildValue("(L)", coords[0]);
-    } else if (coords.size() == 2) {
-        return Py_BuildValue("(LL)", coords[0], coords[1]);
-    } else {
-        return Py_BuildValue("(LLL)", coords[0], coords[1], coords[2]);
-    }
-    #else
     if (coords.size() == 1) {
-        return Py_BuildValue("(l)", coords[0]);
+        return Py_BuildValue("(i)", coords[0]);
     } else if (coords.size() == 2) {
-        return Py_BuildValue("(ll)", coords[0], coords[1]);
+        return Py_BuildValue("(ii)", coords[0], coords[1]);
     } else {
-        return Py_BuildValue("(lll)", coords[0], coords[1], coords[2]);
+        return Py_BuildValue("(iii)", coords[0], coords[1], coords[2]);
     }
-    #endif
-
 }
 
 static PyObject* CartesianTopology_computeBufferData(PyObject* self, PyObject* args) {
-- 
2.43.0


From 6a9fb5ccb03b86400b8cd4ed25c4e58b58027680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:23 +0000
Subject: [PATCH 14/39] fix: SharedValueLayers can have an integer dtype

The tensor was always created with random values, which torch.rand does not
support for integer types.
---
 src/repast4py/value_layer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/repast4py/value_layer.py b/src/repast4py/value_layer.py
index 2ed552c..931507f 100644
--- a/src/repast4py/value_layer.py
+++ b/src/repast4py/value_layer.py
@@ -479,7 +479,7 @@ class SharedValueLayer(ValueLayer):
             self.buffered_bounds = self.local_bounds
             self.non_buff_grid_offsets = np.zeros(6, dtype=np.int32)
 
-        super().__init__(self.buffered_bounds, borders, 'random', dtype)
+        super().__init__(self.buffered_bounds, borders, init_value, dtype)
 
         nd = 1 if bounds.yextent == 0 else (3 if bounds.zextent > 0 else 2)
         if nd == 3:
-- 
2.43.0


From a234c75318f744a7ee12b71b6fa620b97de50079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:48 +0000
Subject: [PATCH 15/39] fix: periodic SharedValueLayers on one rank, or without
 a buffer

A layer on one rank has no buffer but its values were shifted by the buffer
size and its edges overwritten.
---
 src/repast4py/value_layer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/repast4py/value_layer.py b/src/repast4py/value_layer.py
index 931507f..4d340ff 100644
--- a/src/repast4py/value_layer.py
+++ b/src/repast4py/value_layer.py
@@ -487,7 +487,8 @@ class SharedValueLayer(ValueLayer):
 
         mins = [bounds.xmin, bounds.ymin, bounds.zmin]
         self.buffer_self = []
-        if self.periodic:
+        # a single rank has no buffers
+        if self.periodic and comm.Get_size() > 1 and buffer_size > 0:
             for i in range(0, nd):
                 if self.impl.pt_translation[i] == 0:
                     self.impl.pt_translation[i] = buffer_size - mins[i]
-- 
2.43.0


From db933bf31ca30289214f4cf154422cc82f314f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:47 +0000
Subject: [PATCH 16/39] fix: periodic SharedValueLayers read and write their
 buffers by location

get, set and get_nghs addressed the buffer cells of the ranks on the edge of a
periodic space with indices of other cells or outside of the tensor, and 1D
layers did not account for the buffer. Bounds not starting at 0 were not
supported by the first ranks.
---
 src/repast4py/value_layer.py | 87 ++++++++++++++++++++++++++++++++----
 1 file changed, 78 insertions(+), 9 deletions(-)

diff --git a/src/repast4py/value_layer.py b/src/repast4py/value_layer.py
index 4d340ff..86da574 100644
--- a/src/repast4py/value_layer.py
+++ b/src/repast4py/value_layer.py
@@ -478,21 +478,19 @@ class SharedValueLayer(ValueLayer):
         else:
             self.buffered_bounds = self.local_bounds
             self.non_buff_grid_offsets = np.zeros(6, dtype=np.int32)
+            self.impl_bounds = self.local_bounds
 
-        super().__init__(self.buffered_bounds, borders, init_value, dtype)
+        super().__init__(self.impl_bounds, borders, init_value, dtype)
+        self.bbounds = self.buffered_bounds
 
         nd = 1 if bounds.yextent == 0 else (3 if bounds.zextent > 0 else 2)
         if nd == 3:
             raise ValueError("3D SharedValueLayer is not yet supported")
 
-        mins = [bounds.xmin, bounds.ymin, bounds.zmin]
+        self.tpt = dpt(0, 0, 0)
         self.buffer_self = []
         # a single rank has no buffers
         if self.periodic and comm.Get_size() > 1 and buffer_size > 0:
-            for i in range(0, nd):
-                if self.impl.pt_translation[i] == 0:
-                    self.impl.pt_translation[i] = buffer_size - mins[i]
-
             if len(self.procs_per_dim) == 1 and self.procs_per_dim[0] == 1:
                 self.buffer_self.append(self._buffer_self_X)
 
@@ -509,6 +507,69 @@ class SharedValueLayer(ValueLayer):
             comm.Barrier()
             self._synch_ghosts()
 
+    def _buffered_pt(self, pt: DiscretePoint):
+        """Gets the point as it is addressed in this rank's buffered area. When borders are periodic,
+        the buffered area extends past the global bounds, and the points
+        on the other side of the space that are in the buffer are addressed by these coordinates.
+
+        Args:
+            pt: the point
+
+        Returns:
+            The point with those coordinates that are outside of the buffered area moved into
+            it if wrapping around the global bounds does so.
+        """
+        if not self.periodic or self.impl_bounds is self.local_bounds:
+            return pt
+
+        coords = [int(c) for c in pt.coordinates]
+        gb, ib = self.full_bounds, self.impl_bounds
+        for i in range(len(self.procs_per_dim)):
+            g_min, g_extent = gb[i * 2], gb[i * 2 + 1]
+            min_, max_ = ib[i * 2], ib[i * 2] + ib[i * 2 + 1]
+            if not (min_ <= coords[i] < max_):
+                c = (coords[i] - g_min) % g_extent + g_min
+                if c < min_:
+                    c += g_extent
+                elif c >= max_:
+                    c -= g_extent
+                coords[i] = c
+        self.tpt._reset_from_array(np.array(coords))
+        return self.tpt
+
+    def get(self, pt: DiscretePoint):
+        """Gets the value at the specified point
+
+        Args:
+            pt: the location to get the value of
+
+        Returns:
+            The value at the specified location.
+        """
+        return self.impl.get(self._buffered_pt(pt))
+
+    def set(self, pt: DiscretePoint, val):
+        """Sets the value at the specified location
+
+        Args:
+            pt: the location to set the value of
+            val: the value to set the location to
+        """
+        self.impl.set(self._buffered_pt(pt), val)
+
+    def get_nghs(self, pt: DiscretePoint) -> Tuple:
+        """Gets the neighboring values and locations around the specified point.
+
+        Args:
+            pt: the point whose neighbors to get
+
+        Returns:
+            Tuple: A two elelment tuple consisting of the neighboring values as a pytorch tensor, and
+            the neighboring locations as a np.array: (values, ngh_locations). The first value in
+            the values tensor is the value of the first location in the ngh_locations array, and so forth.
+        """
+        return self.impl.get_nghs(self._buffered_pt(pt))
+
     def _init_value(self, init_value, nd: int):
         if init_value != 'random':
             lb = self.local_bounds
@@ -572,9 +633,9 @@ class SharedValueLayer(ValueLayer):
                 if start_val + s >= 0 and end_val + s <= grid_extent]
 
     def _init_buffered_bounds(self, bounds, buffer_size, periodic):
-        xmin, xextent = 0, 0
-        ymin, yextent = 0, 0
-        zmin, zextent = 0, 0
+        xmin, xextent = bounds.xmin, 0
+        ymin, yextent = bounds.ymin, 0
+        zmin, zextent = bounds.zmin, 0
         # offsets from buffered grid into the local grid data
         self.non_buff_grid_offsets = np.zeros(6, dtype=np.int32)
 
@@ -651,6 +712,14 @@ class SharedValueLayer(ValueLayer):
 
         # bounds including the buffer if necessary
         self.buffered_bounds = BoundingBox(xmin, xextent, ymin, yextent, zmin, zextent)
+        # bounds addressed by the tensor: with periodic borders these always start with the buffer,
+        # and so may extend past the global bounds on both sides
+        self.impl_bounds = self.buffered_bounds
+        if periodic:
+            self.impl_bounds = BoundingBox(
+                self.local_bounds.xmin - buffer_size, xextent,
+                self.local_bounds.ymin - buffer_size if bounds.yextent > 0 else ymin, yextent,
+                self.local_bounds.zmin - buffer_size if bounds.zextent > 0 else zmin, zextent)
 
     def _init_sync_data_1d(self, topo, buffer_size):
         ngh_buffers = []
-- 
2.43.0


From ad4a3b1585f2f2d48e360333750ac63188cba939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:28 +0000
Subject: [PATCH 17/39] fix: value layers on one rank, and
 ReadWriteValueLayers, synchronize with their context

SharedContext.synchronize failed when it had a value layer and was either on
one rank or had a ReadWriteValueLayer, whose get_nghs also failed.
---
 src/repast4py/value_layer.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/repast4py/value_layer.py b/src/repast4py/value_layer.py
index 86da574..61bf337 100644
--- a/src/repast4py/value_layer.py
+++ b/src/repast4py/value_layer.py
@@ -972,6 +972,10 @@ class SharedValueLayer(ValueLayer):
     def _synch_ghosts(self):
         """Synchronizes the ghosted buffer part of this value layer.
         """
+        if self.cart_comm.Get_size() == 1:
+            # no buffers
+            return
+
         # self.send_data = ((send_buf, (send_counts, send_displs)), ngh_buffers)
         # self.recv_data = ((recv_buf, (recv_counts, recv_displs)), recv_buf_data)
         # ngh_buffers: (ngh_rank, size, shape, bounds, slice_tuple)
@@ -1106,7 +1110,7 @@ class ReadWriteValueLayer:
             the neighboring locations as a np.array: (values, ngh_locations). The first value in
             the values tensor is the value of the first location in the ngh_locations array, and so forth.
         """
-        return self.read.get_nghs(pt)
+        return self.read_layer.get_nghs(pt)
 
     def _pre_synch_ghosts(self, agent_manager: AgentManager):
         """Called prior to synchronizing ghosts and before any cross-rank movement
@@ -1117,7 +1121,7 @@ class ReadWriteValueLayer:
         """
         pass
 
-    def _synch_ghosts(self, agent_manager: AgentManager, create_agent: Callable):
+    def _synch_ghosts(self, agent_manager: AgentManager = None, create_agent: Callable = None):
         """Synchronizes the ghosted buffer parts of the read and write value layers.
 
         Args:
-- 
2.43.0


From e0930dc77b8cc79afb0913424e39b176ce8b0c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:49 +0000
Subject: [PATCH 18/39] fix: an agent that changes rank leaves all of its
 context's spaces on the old rank

---
 src/repast4py/context.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/repast4py/context.py b/src/repast4py/context.py
index 2daaa50..4953fcf 100644
--- a/src/repast4py/context.py
+++ b/src/repast4py/context.py
@@ -154,7 +154,6 @@ class SharedContext:
                     if agent_id in self._agent_manager._ghosted_agents:
                         data.append(self._agent_manager.delete_ghosted(agent_id))
 
-                    proj._agent_moving_rank(agent, ngh_rank, data, self._agent_manager)
                     for nb_proj in self.non_bounded_projs:
                         nb_proj._agent_moving_rank(agent, ngh_rank, data, self._agent_manager)
 
@@ -164,6 +163,12 @@ class SharedContext:
 
             proj._clear_oob()
 
+        # a moving agent leaves every bounded projection, including those where it is
+        # out of bounds as well, or has no location
+        for agent, ngh_rank in oob_agents:
+            for proj in self.bounded_projs.values():
+                proj._agent_moving_rank(agent, ngh_rank, [], self._agent_manager)
+
         return send_data
 
     def _process_recv_oob_data(self, recv_data: List, ghosts_to_remove: List, create_agent: Callable):
-- 
2.43.0


From 688e662af1bc9fc86ba9b07c5a34cfec08f53e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:23 +0000
Subject: [PATCH 19/39] fix: an agent requested while it is already a ghost is
 kept up to date by its rank

---
 src/repast4py/context.py | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/repast4py/context.py b/src/repast4py/context.py
index 4953fcf..6395172 100644
--- a/src/repast4py/context.py
+++ b/src/repast4py/context.py
@@ -424,7 +424,9 @@ class SharedContext:
             # 1 is the rank to request from
             # 0 is the id of the agent we are requesting
             agent = self._agent_manager.get_ghost(request[0], 0)
-            if agent is None:
+            # the rank of a ghost that has not been requested so far does not know that
+            # this rank will always need it
+            if agent is None or not self._agent_manager.is_requested(agent.uid):
                 lst = requests[request[1]]
                 if lst is None:
                     requests[request[1]] = [request[0]]
@@ -432,14 +434,16 @@ class SharedContext:
                     requests[request[1]].append(request[0])
             else:
                 existing_ghosts.append(agent)
-                self._agent_manager.add_req_ghost(agent.uid)
-                for proj in self.projections.values():
-                    if agent not in proj:
-                        proj.add(agent)
+                self._add_to_projections(agent)
 
         recv = self.comm.alltoall(requests)
         return (recv, existing_ghosts)
 
+    def _add_to_projections(self, agent: Agent):
+        for proj in self.projections.values():
+            if agent not in proj:
+                proj.add(agent)
+
     def request_agents(self, requested_agents: List, create_agent: Callable) -> List[Agent]:
         """Requests agents from other ranks to be copied to this rank as ghosts.
 
@@ -468,9 +472,13 @@ class SharedContext:
         recv_agents = self.comm.alltoall(sent_agents)
         for rank, agents in enumerate(recv_agents):
             for agent_data in agents:
-                agent = create_agent(agent_data)
+                agent = self._agent_manager.get_ghost(agent_data[0], 0)
+                if agent is None:
+                    agent = create_agent(agent_data)
+                    self._add_ghost(rank, agent)
+                else:
+                    self._add_to_projections(agent)
                 ghosts.append(agent)
-                self._add_ghost(rank, agent)
                 self._agent_manager.add_req_ghost(agent.uid)
 
         return ghosts
-- 
2.43.0


From 3825d8f4921f2038919004574f9b57166ae48455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:00 +0000
Subject: [PATCH 20/39] fix: a ghost names its agent's rank after the agent has
 moved

---
 src/repast4py/context.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/repast4py/context.py b/src/repast4py/context.py
index 6395172..7ddd00f 100644
--- a/src/repast4py/context.py
+++ b/src/repast4py/context.py
@@ -492,6 +492,11 @@ class SharedContext:
         # in a previous call to proj._agent_moving_rank
         all_moved_agents[self.rank] = []
         if any_moved:
+            for uid, dest in itertools.chain(*all_moved_agents):
+                ghost = self._agent_manager.get_ghost(uid, 0)
+                if ghost is not None and dest != self.rank:
+                    ghost.local_rank = dest
+
             for proj in projs:
                 proj._agents_moved_rank(itertools.chain(*all_moved_agents), self._agent_manager)
         return any_moved
-- 
2.43.0


From ff148cb62c679f3956d19fb19885f6fd19113871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:57 +0000
Subject: [PATCH 21/39] fix: a ghost that was requested once is not kept after
 it became local or was removed

---
 src/repast4py/core.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/repast4py/core.py b/src/repast4py/core.py
index 5c15641..c641e8b 100644
--- a/src/repast4py/core.py
+++ b/src/repast4py/core.py
@@ -259,6 +259,7 @@ class AgentManager:
             agent_id: the unique id tuple of the ghost.
         """
         del self._ghost_agents[agent_id]
+        self._req_ghosts.discard(agent_id)
 
     def add_ghost(self, ghosted_rank: int, agent: Agent, incr: int = 1):
         """Adds the specified agent to the ghost collection from
-- 
2.43.0


From cadd8a3373541e229f73fa3743aa87d32b4e4335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:06 +0000
Subject: [PATCH 22/39] fix: synchronize without ghosts handles buffered agents
 that arrive, and those that stay where they are

---
 src/repast4py/context.py |  5 +++++
 src/repast4py/space.py   | 10 ++++++++--
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/repast4py/context.py b/src/repast4py/context.py
index 7ddd00f..d768a82 100644
--- a/src/repast4py/context.py
+++ b/src/repast4py/context.py
@@ -140,14 +140,19 @@ class SharedContext:
             to send the data in the second list to.
         """
         send_data = [[] for i in range(self.comm.size)]
+        moved_ids = set()
         # gather agents to send from the out of bounds (oob) sequence
         for pid, proj in self.bounded_projs.items():
             for agent_id, ngh_rank, pt in proj._get_oob():
                 agent = self._agent_manager.remove_local(agent_id)
                 if agent is None:
+                    if agent_id not in moved_ids:
+                        # a ghost in this rank's buffer
+                        continue
                     # already removed
                     data = [(agent_id,)]
                 else:
+                    moved_ids.add(agent_id)
                     oob_agents.append((agent, ngh_rank))
                     del self._agents_by_type[agent_id[1]][agent_id]
                     data = [agent.save()]
diff --git a/src/repast4py/space.py b/src/repast4py/space.py
index 6e49581..7b0fb27 100644
--- a/src/repast4py/space.py
+++ b/src/repast4py/space.py
@@ -263,7 +263,10 @@ class SharedGrid(_SharedGrid, SharedProjection):
         self.remove(moving_agent)
 
     def _agents_moved_rank(self, moved_agents: List, agent_manager: AgentManager):
-        pass
+        # an agent that is now local on this rank is no longer buffered here
+        arrived = {uid for uid, dest in moved_agents if dest == agent_manager.rank}
+        if arrived:
+            self.buffered_agents = [agent for agent in self.buffered_agents if agent.uid not in arrived]
 
     def _post_agents_moved_rank(self, agent_manager: AgentManager, create_agent: Callable):
         pass
@@ -428,7 +431,10 @@ class SharedCSpace(_SharedContinuousSpace, SharedProjection):
         self.remove(moving_agent)
 
     def _agents_moved_rank(self, moved_agents: List, agent_manager: AgentManager):
-        pass
+        # an agent that is now local on this rank is no longer buffered here
+        arrived = {uid for uid, dest in moved_agents if dest == agent_manager.rank}
+        if arrived:
+            self.buffered_agents = [agent for agent in self.buffered_agents if agent.uid not in arrived]
 
     def _post_agents_moved_rank(self, agent_manager: AgentManager, create_agent: Callable):
         pass
-- 
2.43.0


From f5b321a24b389edf5295bf09d44d80d605409b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:09 +0000
Subject: [PATCH 23/39] fix: adding an agent to a shared space again forgets
 where its predecessor was out of bounds

---
 src/repast4py/distributed_space.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/repast4py/distributed_space.h b/src/repast4py/distributed_space.h
index fdc5821..c6aa729 100644
--- a/src/repast4py/distributed_space.h
+++ b/src/repast4py/distributed_space.h
@@ -216,6 +216,7 @@ void DistributedCartesianSpace<BaseSpaceType>::getAllBounds(MPI_Comm comm) {
 
 template<typename BaseSpaceType>
 bool DistributedCartesianSpace<BaseSpaceType>::add(R4Py_Agent* agent) {
+    eraseOOB(agent->aid);
     return base_space->add(agent);
 }
 
-- 
2.43.0


From 71f9d04d643ec95ad14253cb2fbd8f5ef064372e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:09 +0000
Subject: [PATCH 24/39] fix: agents that are out of bounds when move_agents is
 called move like those of a synchronize

---
 src/repast4py/context.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/repast4py/context.py b/src/repast4py/context.py
index d768a82..124ef91 100644
--- a/src/repast4py/context.py
+++ b/src/repast4py/context.py
@@ -562,10 +562,16 @@ class SharedContext:
             self._agent_manager.delete_ghost(gh_uid)
 
         self._pre_synch_ghosts()
-        send_data = self._gather_oob_data([])
+        oob_moved_agents = []
+        send_data = self._gather_oob_data(oob_moved_agents)
         recv_data = self.comm.alltoall(send_data)
         ghosts_to_remove = []
         self._process_recv_oob_data(recv_data, ghosts_to_remove, create_agent)
+        self._agents_moved(oob_moved_agents, self.projections.values())
+
+        for gh_uid in ghosts_to_remove:
+            self._agent_manager.delete_ghost(gh_uid)
+
         self._synch_ghosts(create_agent)
 
         for proj in self.projections.values():
-- 
2.43.0


From a1dbc223ff7418a4b8d905feab4d548ed61d17d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:50 +0000
Subject: [PATCH 25/39] fix: ranks agree on the edges of a network, which keeps
 them when agents move between ranks

---
 src/repast4py/context.py | 157 +++++++++-----
 src/repast4py/core.py    |   2 +-
 src/repast4py/network.py | 451 +++++++++++++++++----------------------
 3 files changed, 299 insertions(+), 311 deletions(-)

diff --git a/src/repast4py/context.py b/src/repast4py/context.py
index 124ef91..37d4ecc 100644
--- a/src/repast4py/context.py
+++ b/src/repast4py/context.py
@@ -12,6 +12,7 @@ from repast4py import random
 from typing import Callable, List
 
 from .core import AgentManager, SharedProjection, BoundedProjection, Agent
+from .network import SharedNetwork
 from .util import is_empty
 
 
@@ -226,13 +227,78 @@ class SharedContext:
         recv_data = self.comm.alltoall(send_data)
         for updates in recv_data:
             for removed_id in updates:
-                ghost = self._agent_manager.get_ghost(removed_id)
-                for proj in self.projections.values():
-                    proj.remove(ghost)
-                self._agent_manager.delete_ghost(removed_id)
+                self._remove_ghost(removed_id)
 
         self.removed_ghosteds.clear()
 
+    def _remove_ghost(self, agent_id):
+        """Removes the specified ghost, if there is one, from this context and its projections.
+
+        Args:
+            agent_id: the unique id tuple of the ghost
+        """
+        ghost = self._agent_manager.get_ghost(agent_id, 0)
+        if ghost is not None:
+            for proj in self.projections.values():
+                if ghost in proj:
+                    proj.remove(ghost)
+            self._agent_manager.delete_ghost(agent_id)
+
+    def _synch_edges(self, restore_agent: Callable):
+        """Synchronizes the edges of the networks in this context, if any.
+
+        Args:
+            restore_agent: a Callable that when given serialized agent data
+            returns an agent.
+        """
+        networks = [proj for proj in self.non_bounded_projs if isinstance(proj, SharedNetwork)]
+        if networks:
+            self._update_removed_ghosts()
+            for network in networks:
+                network._synch_edges(self._agent_manager, restore_agent)
+
+    def _synch_ghost_refs(self):
+        """Removes the ghosts that are no longer required on this rank from this context and its projections,
+        and lets the ranks where the requested ghosts, and those that participate in an edge, are local know
+        about them.
+        """
+        manager = self._agent_manager
+        required = [[] for _ in range(self.comm.size)]
+        for uid, gh in list(manager._ghost_agents.items()):
+            agent = gh.agent
+            requested = manager.is_requested(uid)
+            has_edge = False
+            gh.ref_count = 0
+            for proj in self.projections.values():
+                if agent in proj:
+                    if isinstance(proj, SharedNetwork):
+                        in_use = proj._has_edge(agent)
+                        has_edge = has_edge or in_use
+                    else:
+                        in_use = not isinstance(proj, BoundedProjection) or proj.get_location(agent) is not None # type: ignore
+                    if in_use or requested:
+                        gh.ref_count += 1
+                    else:
+                        proj.remove(agent)
+
+            if requested or has_edge:
+                required[agent.local_rank].append(uid)
+            elif gh.ref_count == 0:
+                manager.delete_ghost(uid)
+
+        if any(isinstance(proj, SharedNetwork) for proj in self.projections.values()):
+            manager._ghosted_agents.clear()
+            removed = [[] for _ in range(self.comm.size)]
+            for rank, uids in enumerate(self.comm.alltoall(required)):
+                for uid in uids:
+                    if manager.get_local(uid) is None:
+                        removed[rank].append(uid)
+                    else:
+                        manager.tag_as_ghosted(rank, uid)
+            for uids in self.comm.alltoall(removed):
+                for uid in uids:
+                    self._remove_ghost(uid)
+
     def _update_ghosts(self):
         """Updates the state of any agents ghosted from this rank to other ranks.
         """
@@ -286,36 +352,29 @@ class SharedContext:
         if sync_ghosts:
             self._pre_synch_ghosts()
 
-        oob_moved_agents = []
-        # These 3 synchronize bounded projections -- agents that
+        self._synch_edges(restore_agent)
+        # These synchronize bounded projections -- agents that
         # have moved out of a local bounded projection to that
         # controlled by another
-        send_data = self._gather_oob_data(oob_moved_agents)
-        recv_data = self.comm.alltoall(send_data)
-        ghosts_to_remove = []
-        self._process_recv_oob_data(recv_data, ghosts_to_remove, restore_agent)
-        any_moved = self._agents_moved(oob_moved_agents, self.projections.values())
-
-        if any_moved:
-            for gh_uid in ghosts_to_remove:
-                self._agent_manager.delete_ghost(gh_uid)
+        self._move_oob_agents(restore_agent)
+        self._synch_ghost_refs()
 
         if sync_ghosts:
             self._synch_ghosts(restore_agent)
 
-        if any_moved:
-            for proj in self.projections.values():
-                proj._post_agents_moved_rank(self._agent_manager, restore_agent)
+    def _move_oob_agents(self, restore_agent: Callable):
+        """Moves the agents that are out of bounds to the rank whose bounds they are in.
 
-            # synch ghosts for non-oob projections -- they don't need a double synch
-            # to maintain coherences
-            for proj in self.non_bounded_projs:
-                proj._pre_synch_ghosts(self._agent_manager)
-
-                self._update_ghosts()
-                for pid, proj in self.projections.items():
-                    if pid not in self.bounded_projs:
-                        proj._synch_ghosts(self._agent_manager, restore_agent)
+        Args:
+            restore_agent: a Callable that when given serialized agent data
+            returns an agent.
+        """
+        oob_moved_agents = []
+        send_data = self._gather_oob_data(oob_moved_agents)
+        recv_data = self.comm.alltoall(send_data)
+        ghosts_to_remove = []
+        self._process_recv_oob_data(recv_data, ghosts_to_remove, restore_agent)
+        self._agents_moved(oob_moved_agents, ghosts_to_remove, restore_agent)
 
     def contains_type(self, agent_type: int) -> bool:
         """Get whether or not this SharedContexts contains any agents of the specified type
@@ -488,7 +547,14 @@ class SharedContext:
 
         return ghosts
 
-    def _agents_moved(self, moved_agents: List, projs) -> bool:
+    def _agents_moved(self, moved_agents: List, ghosts_to_remove: List, create_agent: Callable):
+        """Notifies the projections of the agents that have moved between ranks.
+
+        Args:
+            moved_agents: a list of (agent, destination rank) of the agents moved off of this rank
+            ghosts_to_remove: the ids of the agents that were ghosts on this rank, and are now local
+            create_agent: a callable that can create an agent from the agent state data.
+        """
         moved_ids = [(x.uid, dest) for x, dest in moved_agents]
         all_moved_agents = self.comm.allgather(moved_ids)
         any_moved = not is_empty(all_moved_agents)
@@ -502,9 +568,14 @@ class SharedContext:
                 if ghost is not None and dest != self.rank:
                     ghost.local_rank = dest
 
-            for proj in projs:
+            for proj in self.projections.values():
                 proj._agents_moved_rank(itertools.chain(*all_moved_agents), self._agent_manager)
-        return any_moved
+
+            for gh_uid in ghosts_to_remove:
+                self._agent_manager.delete_ghost(gh_uid)
+
+            for proj in self.projections.values():
+                proj._post_agents_moved_rank(self._agent_manager, create_agent)
 
     def move_agents(self, agents_to_move: List, create_agent: Callable):
         """Moves agents from this rank to another rank where it becomes a
@@ -523,6 +594,8 @@ class SharedContext:
             create_agent: a Callable that can take the result of an agent :samp: `save()` and
                 return an agent.
         """
+        self._pre_synch_ghosts()
+        self._synch_edges(create_agent)
         sent_agents = [[] for i in range(self.comm.size)]
         moved_agents = []
         for uid, rank in agents_to_move:
@@ -554,25 +627,7 @@ class SharedContext:
                     ghosted_data.pop(self.rank, None)
                     self._agent_manager.set_as_ghosted(ghosted_data, agent.uid)
 
-        self._agents_moved(moved_agents, self.projections.values())
-
-        # received agents that used to be ghosts so
-        # remove them as ghosts as they are now local
-        for gh_uid in ghosts_to_remove:
-            self._agent_manager.delete_ghost(gh_uid)
-
-        self._pre_synch_ghosts()
-        oob_moved_agents = []
-        send_data = self._gather_oob_data(oob_moved_agents)
-        recv_data = self.comm.alltoall(send_data)
-        ghosts_to_remove = []
-        self._process_recv_oob_data(recv_data, ghosts_to_remove, create_agent)
-        self._agents_moved(oob_moved_agents, self.projections.values())
-
-        for gh_uid in ghosts_to_remove:
-            self._agent_manager.delete_ghost(gh_uid)
-
+        self._agents_moved(moved_agents, ghosts_to_remove, create_agent)
+        self._move_oob_agents(create_agent)
+        self._synch_ghost_refs()
         self._synch_ghosts(create_agent)
-
-        for proj in self.projections.values():
-            proj._post_agents_moved_rank(self._agent_manager, create_agent)
diff --git a/src/repast4py/core.py b/src/repast4py/core.py
index c641e8b..8a3fe2a 100644
--- a/src/repast4py/core.py
+++ b/src/repast4py/core.py
@@ -244,7 +244,7 @@ class AgentManager:
 
         """
         # don't remove requested agents
-        if agent.uid not in self._req_ghosts:
+        if agent.uid not in self._req_ghosts and agent.uid in self._ghost_agents:
             ghost_agent = self._ghost_agents[agent.uid]
             ghost_agent.ref_count -= 1
             if ghost_agent.ref_count == 0:
diff --git a/src/repast4py/network.py b/src/repast4py/network.py
index ec68808..b3f2752 100644
--- a/src/repast4py/network.py
+++ b/src/repast4py/network.py
@@ -20,20 +20,13 @@ import math
 import json
 from abc import ABC, abstractmethod
 
-from typing import List, Iterable, Callable, Tuple, Dict
+from typing import List, Iterable, Callable, Tuple, Dict, Optional
 
 from ._core import Agent
 from .core import AgentManager, SharedProjection
 from . import random
 
 
-@dataclass
-class GhostedEdge:
-    local_agent: Agent
-    ghost_agent: Agent
-    edge_attr: Dict
-
-
 class SharedNetwork(SharedProjection, ABC):
     """A network that can be shared across multiple process ranks through
     ghost nodes and edges. This is the base class for the Directed and Undirected
@@ -64,27 +57,23 @@ class SharedNetwork(SharedProjection, ABC):
         self.graph = graph
         self.rank = comm.Get_rank()
 
-        # list of edge keys
-        self.edges_to_update = set()
-        # key is edge tuple, val is GhostedEdge
-        self.ghosted_edges = {}
-        # key is edge tuple, val is GhostedEdge
+        # the keys of the edges between a local and a ghost agent that have been
+        # updated, added or removed on this rank since the last synchronization.
+        # These are dictionaries (key -> None) to preserve the order of the changes.
+        self.edges_to_update = {}
         self.new_edges = {}
-        # key is edge tuple, val is idx of ghost agent in tuple
         self.edges_to_remove = {}
-        # list of edges that need to be recreated when a
-        # agent moves off of this rank. Edge is (u.uid, v.uid)
-        self._agent_moved_edges = []
-        # list of agent ids that should not be ghosted to this
-        # rank after an agent move. The identification of
-        # these agents and communicating to the ghosting rank
-        # occur in different stages so we track this info as field
-        self._no_longer_ghosts = [[] for _ in range(self.comm.size)]
         # list of ghosts agents that need to have their
         # ref count incremented. This can occur when an agent
         # in a buffer zone is added via an edge, but has not
         # yet has the ghost ref count incremented
         self.ghosts_to_ref = []
+        # list of (agent, destination rank) of the agents that are moving
+        # off of this rank
+        self._moving_agents = []
+        # list of edges of agents that have moved to this rank: (u.uid, v.uid, edge
+        # attributes, data of the agent on the other end of the edge and its rank)
+        self._agent_moved_edges = []
 
     def __iter__(self) -> Iterable[Agent]:
         """Gets an Iterable over all the nodes (agents) in
@@ -180,6 +169,23 @@ class SharedNetwork(SharedProjection, ABC):
         """
         pass
 
+    def _add_edge(self, u_agent: Agent, v_agent: Agent, edge_attr: Dict):
+        """Adds an edge between u_agent and v_agent.
+
+        Args:
+            u_agent: The u agent
+            v_agent: The v agent
+            edge_attr: the edge's attributes
+        """
+        for agent in (u_agent, v_agent):
+            if agent.local_rank != self.rank and not self.graph.has_node(agent):
+                self.ghosts_to_ref.append(agent)
+        self.graph.add_edge(u_agent, v_agent, **edge_attr)
+        edge_key = self._add_edge_key(u_agent, v_agent)
+        if self._other_rank(edge_key) is not None:
+            self.new_edges[edge_key] = None
+            self.edges_to_remove.pop(edge_key, None)
+
     @abstractmethod
     def num_edges(self, agent: Agent) -> int:
         """Gets the number of edges that contain the specified agent.
@@ -216,8 +222,38 @@ class SharedNetwork(SharedProjection, ABC):
         Raises:
             NetworkXError: if the agent is not a node in this SharedNetwork.
         """
+        if self.graph.has_node(agent):
+            for edge in list(self._edges(agent)): # type: ignore
+                self._forget_edge(self._get_edge_key(edge))
+                self._remove_edge_key(*edge)
+            # the removal of an agent includes the removal of its edges
+            for edge_key in [edge for edge in self.edges_to_remove if agent in edge]:
+                del self.edges_to_remove[edge_key]
         self.graph.remove_node(agent)
 
+    def _other_rank(self, edge: Tuple) -> Optional[int]:
+        """Gets the rank that shares the specified edge with this rank.
+
+        Args:
+            edge: the edge
+        Returns:
+            The rank of the edge's ghost agent, or None if the edge is not an edge between
+            a local agent and a ghost agent.
+        """
+        u_rank, v_rank = edge[0].local_rank, edge[1].local_rank
+        if (u_rank == self.rank) == (v_rank == self.rank):
+            return None
+        return v_rank if u_rank == self.rank else u_rank
+
+    def _forget_edge(self, edge_key: Tuple):
+        """Removes the specified edge from those to synchronize as new or updated.
+
+        Args:
+            edge_key: the canonical key of the edge
+        """
+        self.edges_to_update.pop(edge_key, None)
+        self.new_edges.pop(edge_key, None)
+
     def update_edge(self, u_agent: Agent, v_agent: Agent, **kwattr):
         """Updates the edge between u_agent and v_agent with the specified
         attributes.
@@ -236,9 +272,8 @@ class SharedNetwork(SharedProjection, ABC):
         for k, v in kwattr.items():
             self.graph.edges[edge_key][k] = v
 
-        if (u_agent.local_rank == self.rank and v_agent.local_rank != self.rank) or \
-           (u_agent.local_rank != self.rank and v_agent.local_rank == self.rank):
-            self.edges_to_update.add(edge_key)
+        if self._other_rank(edge_key) is not None:
+            self.edges_to_update[edge_key] = None
 
     def remove_edge(self, u_agent: Agent, v_agent: Agent):
         """Removes the edge between u_agent and v_agent.
@@ -251,31 +286,20 @@ class SharedNetwork(SharedProjection, ABC):
         """
         self.graph.remove_edge(u_agent, v_agent)
 
-        if u_agent.local_rank != self.rank and v_agent.local_rank == self.rank or \
-           u_agent.local_rank == self.rank and v_agent.local_rank != self.rank:
-            edge_key = self._get_edge_key((u_agent, v_agent))
-            # edge key order might be different than remove edge args
-            # so need to check in edge key which is the ghost
-            self.edges_to_remove[edge_key] = 0 if edge_key[1].local_rank == self.rank else 1
-            del self.ghosted_edges[edge_key]
-            # if removed before update sync or removed before new edge sync
-            # then remove it here
-            self.edges_to_update.discard(edge_key)
-            self.new_edges.pop(edge_key, None)
+        edge_key = self._get_edge_key((u_agent, v_agent))
+        # if removed before update sync or removed before new edge sync
+        # then remove it here
+        self._forget_edge(edge_key)
+        if self._other_rank(edge_key) is not None:
+            self.edges_to_remove[edge_key] = None
 
         self._remove_edge_key(u_agent, v_agent)
 
     def clear_edges(self):
         """Removes all the edges.
         """
-        self.graph.clear_edges()
-        for edge, ghosted_edge in self.ghosted_edges.items():
-            edge_key = self._get_edge_key(edge)
-            self.edges_to_remove[edge_key] = 1 if edge_key[0].local_rank == self.rank else 0
-            self.edges_to_update.discard(edge_key)
-
-        self.new_edges.clear()
-        self.ghosted_edges.clear()
+        for u_agent, v_agent in list(self.graph.edges()):
+            self.remove_edge(u_agent, v_agent)
 
     def contains_edge(self, u_agent: Agent, v_agent: Agent) -> bool:
         """Gets whether or not an edge exists between the u_agent and v_agent.
@@ -296,38 +320,47 @@ class SharedNetwork(SharedProjection, ABC):
             agent_manager: AgentManager used to manage agent synchronization
         """
         sync_edges = [[] for i in range(self.comm.size)]
-        for edge, ghost_idx in self.edges_to_remove.items():
-            ghost = edge[ghost_idx]
-            sync_edges[ghost.local_rank].append((edge[0].uid, edge[1].uid))
-            agent_manager.untag_as_ghosted(ghost.local_rank, edge[not (ghost_idx)].uid)
+        for edge in self.edges_to_remove:
+            other_rank = self._other_rank(edge)
+            if other_rank is not None:
+                sync_edges[other_rank].append((edge[0].uid, edge[1].uid))
 
         self.edges_to_remove.clear()
         to_remove = self.comm.alltoall(sync_edges)
         for edges in to_remove:
             for u_id, v_id in edges:
-                u_agent = agent_manager._ghost_agents.get(u_id)
-                if u_agent is None:
-                    # u_agent is local
-                    u_agent = agent_manager._local_agents[u_id]
-                    v_agent = agent_manager._ghost_agents[v_id].agent
-                    self.graph.remove_edge(u_agent, v_agent)
-                    # if ghost not participating in network, then remove
-                    # Note that remove_ghost will check for inclusion in requested
-                    if not self._has_edge(v_agent):
-                        agent_manager.remove_ghost(v_agent)
-                        self.graph.remove_node(v_agent)
-                else:
-                    v_agent = agent_manager._local_agents[v_id]
-                    # u_agent is GhostAgent so get agent
-                    u_agent = u_agent.agent
+                u_agent = self._get_agent(u_id, agent_manager)
+                v_agent = self._get_agent(v_id, agent_manager)
+                if u_agent is not None and v_agent is not None and self.graph.has_edge(u_agent, v_agent):
+                    # the removal prevails over any update
+                    self._forget_edge(self._get_edge_key((u_agent, v_agent)))
                     self.graph.remove_edge(u_agent, v_agent)
-                    # if ghost not participating in network, then remove
-                    # Note that remove_ghost will check for inclusion in requested
-                    if not self._has_edge(u_agent):
-                        agent_manager.remove_ghost(u_agent)
-                        self.graph.remove_node(u_agent)
+                    self._remove_edge_key(u_agent, v_agent)
+
+    def _get_agent(self, uid: Tuple, agent_manager: AgentManager) -> Optional[Agent]:
+        """Gets the local or ghost agent with the specified id.
 
-                self._remove_edge_key(u_agent, v_agent)
+        Args:
+            uid: the unique id of the agent
+            agent_manager: AgentManager used to manage agent synchronization
+        Returns:
+            The agent or None if there is no such agent on this rank.
+        """
+        agent = agent_manager.get_local(uid)
+        return agent_manager.get_ghost(uid, incr=0) if agent is None else agent
+
+    def _set_edge(self, u_agent: Agent, v_agent: Agent, edge_attr: Dict):
+        """Sets the edge between u_agent and v_agent to be as it is on another rank.
+
+        Args:
+            u_agent: the u node of the edge.
+            v_agent: the v node of the edge.
+            edge_attr: the attributes of the edge
+        """
+        if self.graph.has_edge(u_agent, v_agent):
+            self.graph.edges[u_agent, v_agent].clear()
+        self.graph.add_edge(u_agent, v_agent, **edge_attr)
+        self._add_edge_key(u_agent, v_agent)
 
     def _sync_vertices(self, agent_manager: AgentManager, create_agent: Callable) -> List:
         """Synchronizes vertices across processes.
@@ -349,31 +382,33 @@ class SharedNetwork(SharedProjection, ABC):
         """
         sync_agents = [[] for i in range(self.comm.size)]
         sync_edges = [[] for i in range(self.comm.size)]
-        for nodes, ghosted_edge in self.new_edges.items():
-            local_agent = ghosted_edge.local_agent
-            ghost_agent = ghosted_edge.ghost_agent
-            other_rank = ghost_agent.local_rank
-            self.ghosted_edges[nodes] = ghosted_edge
+        for edge_key in self.new_edges:
+            other_rank = self._other_rank(edge_key)
+            if other_rank is None:
+                continue
+            local_agent = edge_key[0] if edge_key[0].local_rank == self.rank else edge_key[1]
             # not already ghosted so send agent itself
             if not agent_manager.is_ghosted_to(other_rank, local_agent.uid):
                 sync_agents[other_rank].append(local_agent.save())
                 agent_manager.tag_as_ghosted(other_rank, local_agent.uid)
 
-            sync_edges[other_rank].append((nodes[0].uid, nodes[1].uid, ghosted_edge.edge_attr))
-        self.new_edges.clear()
+            sync_edges[other_rank].append((edge_key[0].uid, edge_key[1].uid, self.graph.edges[edge_key]))
 
         for edge_key in self.edges_to_update:
-            ghosted_edge = self.ghosted_edges[edge_key]
-            other_rank = ghosted_edge.ghost_agent.local_rank
-            sync_edges[other_rank].append((edge_key[0].uid, edge_key[1].uid, ghosted_edge.edge_attr))
+            other_rank = self._other_rank(edge_key)
+            if other_rank is not None and edge_key not in self.new_edges:
+                sync_edges[other_rank].append((edge_key[0].uid, edge_key[1].uid, self.graph.edges[edge_key]))
+        self.new_edges.clear()
         self.edges_to_update.clear()
 
         recv_agents = self.comm.alltoall(sync_agents)
         for rank, agents in enumerate(recv_agents):
             for agent_data in agents:
-                agent = create_agent(agent_data)
-                # 1 because added to network
-                agent_manager.add_ghost(rank, agent, 1)
+                agent = agent_manager.get_ghost(agent_data[0])
+                if agent is None:
+                    agent = create_agent(agent_data)
+                    # 1 because added to network
+                    agent_manager.add_ghost(rank, agent, 1)
                 self.add(agent)
 
         return sync_edges
@@ -395,22 +430,18 @@ class SharedNetwork(SharedProjection, ABC):
         recv_edges = self.comm.alltoall(sync_edges)
         for edges in recv_edges:
             for u_id, v_id, edge_attr in edges:
-                u_agent = agent_manager._ghost_agents.get(u_id)
-                if u_agent is None:
-                    # u_agent is local
-                    u_agent = agent_manager._local_agents[u_id]
-                    v_agent = agent_manager._ghost_agents[v_id].agent
-                else:
-                    # u_agent is GhostAgent so get agent from it
-                    u_agent = u_agent.agent
-                    v_agent = agent_manager._local_agents[v_id]
-
-                self.graph.add_edge(u_agent, v_agent, **edge_attr)
-                self._add_edge_key(u_agent, v_agent)
+                u_agent = self._get_agent(u_id, agent_manager)
+                v_agent = self._get_agent(v_id, agent_manager)
+                # None if removed
+                if u_agent is not None and v_agent is not None:
+                    self._set_edge(u_agent, v_agent, edge_attr)
 
-    def _synch_ghosts(self, agent_manager: AgentManager, create_agent: Callable):
+    def _synch_edges(self, agent_manager: AgentManager, create_agent: Callable):
         """Synchronizes the edges and nodes of this projection across ranks.
 
+        This is called before any cross-rank movement synchronization, such that both ranks know
+        the edges of an agent before that agent moves.
+
         Args:
             agent_manager: the AgentManager
             create_agent: a callable that can create an agent instance from
@@ -420,33 +451,33 @@ class SharedNetwork(SharedProjection, ABC):
         sync_edges = self._sync_vertices(agent_manager, create_agent)
         self._sync_edges(sync_edges, agent_manager)
 
+    def _synch_ghosts(self, agent_manager: AgentManager, create_agent: Callable):
+        """Null op: the edges of a SharedNetwork and the ghosts that participate in them
+        are synchronized prior to the ghosts.
+
+        Args:
+            agent_manager: the AgentManager
+            create_agent: a callable that can create an agent instance from
+                an agent id and data.
+        """
+        pass
+
     def _pre_synch_ghosts(self, agent_manager: AgentManager):
         """Called prior to synchronizing ghosts and before any cross-rank movement
         synchronization.
 
-        This synchronizes any necessary proj reference count updates to
-        ranks that ghost to this rank.
+        This makes sure that ghosts in a buffer zone to which an edge has been added
+        remain when they are removed from the buffer.
 
         Args:
             agent_manager: this rank's AgentManager
         """
-        send_msg = [[] for i in range(self.comm.size)]
         for agent in self.ghosts_to_ref:
-            if self.graph.has_node(agent):
-                ghost = agent_manager.get_ghost(agent.uid)
-                if ghost is None:
+            if agent.local_rank != self.rank and self.graph.has_node(agent):
+                if agent_manager.get_ghost(agent.uid) is None:
                     agent_manager.add_ghost(agent.local_rank, agent)
-
-                # ghosting rank need to increment ref count to this rank
-                send_msg[agent.local_rank].append(agent.uid)
-
         self.ghosts_to_ref.clear()
 
-        recv_msg = self.comm.alltoall(send_msg)
-        for rank, agents in enumerate(recv_msg):
-            for agent in agents:
-                agent_manager.tag_as_ghosted(rank, agent)
-
     def _post_agents_moved_rank(self, agent_manager: AgentManager, create_agent: Callable):
         """Notifies this projection that all the agent movement synchronization has occured,
         allowing this projection to perform any necessary actions.
@@ -456,22 +487,12 @@ class SharedNetwork(SharedProjection, ABC):
             create_agent: a callable that can create an agent instance from
                 an agent id and data.
         """
-        for u_id, v_id, edge_attr in self._agent_moved_edges:
-            u = agent_manager.get_local(u_id)
-            if u is None:
-                # incr 0 because should be already as ghost so
-                # ref_count includes this network
-                u = agent_manager.get_ghost(u_id, incr=0)
-
-            v = agent_manager.get_local(v_id)
-            if v is None:
-                # incr 0 because should be already as ghost so
-                # ref_count includes this network
-                v = agent_manager.get_ghost(v_id, incr=0)
-            self.add_edge(u, v, **edge_attr)
+        for u_id, v_id, edge_attr, other_data, other_rank in self._agent_moved_edges:
+            if self._get_agent(other_data[0], agent_manager) is None:
+                agent_manager.add_ghost(other_rank, create_agent(other_data))
+            self._set_edge(self._get_agent(u_id, agent_manager), self._get_agent(v_id, agent_manager), edge_attr)
 
         self._agent_moved_edges.clear()
-        self._synch_ghosts(agent_manager, create_agent)
 
     def _agent_moving_rank(self, moving_agent: Agent, dest_rank: int, moving_agent_data: List,
                            agent_manager: AgentManager):
@@ -493,56 +514,9 @@ class SharedNetwork(SharedProjection, ABC):
             agent_manager: the AgentManager
 
         """
-        # 1. Check if moving agent is in edge with ghost, and ghost
-        # is not requested, meaning that the edge is an artifact of
-        # network sync and not explicitly created on this rank. In that
-        # case, remove the edge, and the node (if the node is not in any other
-        # edges)
-        #
-        # 2. Check if moving agent is in edge with local agent. This edge
-        # needs to be preserved. So, delete edge, and add this rank to the
-        # dictionary in the moved agent_data list (the data used by the dest rank
-        # to set up ghosting of the moved agent).
-        nodes_to_remove = []
-        edges_to_remove = []
-        for u, v, attr in self._edges(moving_agent, data=True): # type: ignore
-            other = v if u.uid == moving_agent.uid else u
-            if other.local_rank != self.rank and not agent_manager.is_requested(other.uid):
-                # other is ghosted and not requested so the edge is artifact of edge created
-                # on other node between u and v, so remove it.
-                edges_to_remove.append((u, v))
-                if self.num_edges(other) == 1:
-                    # other is only on this rank to to be part of the removed edge
-                    # and now the edge is gone so remove as node and ghost
-                    nodes_to_remove.append(other)
-                    agent_manager.remove_ghost(other)
-                    self._no_longer_ghosts[other.local_rank].append(other.uid)
-
-            else:
-                # moving agent participates in edges with local agents
-                # this should tell destination rank to ghost the moved
-                # agent back to this rank, so the edge remains live
-                if len(moving_agent_data) == 1:
-                    moving_agent_data.append({self.rank: 1})
-                else:
-                    if self.rank in moving_agent_data[1]:
-                        moving_agent_data[1][self.rank] += 1
-                    else:
-                        moving_agent_data[1][self.rank] = 1
-
-                # agent will be ghosted to this rank, so need to add it as a
-                # ghost
-                agent_manager.add_ghost(dest_rank, moving_agent, incr=0)
-                self._agent_moved_edges.append((u.uid, v.uid, attr))
-
-        for edge in edges_to_remove:
-            self.graph.remove_edge(*edge)
-            self._remove_edge_key(*edge)
-
-        for node in nodes_to_remove:
-            self.graph.remove_node(node)
-
-        self.graph.remove_node(moving_agent)
+        # all the agents that are moving need to be known before
+        # it can be decided where their edges go
+        self._moving_agents.append((moving_agent, dest_rank))
 
     def _agents_moved_rank(self, moved_agents: List, agent_manager: AgentManager):
         """Notifies this projection that the specified agents have moved rank.
@@ -558,45 +532,43 @@ class SharedNetwork(SharedProjection, ABC):
                 EXCEPT for those moved off of the current rank.
             agent_manager: AgentManager
         """
-        stop_ghosting_ids = self.comm.alltoall(self._no_longer_ghosts)
-        for ghost_rank, ids in enumerate(stop_ghosting_ids):
-            for id in ids:
-                agent_manager.untag_as_ghosted(ghost_rank, id)
-        self._no_longer_ghosts = [[] for _ in range(self.comm.size)]
-
-        for uid, dest in moved_agents:
+        moved = dict(moved_agents)
+        moved.update((agent.uid, dest) for agent, dest in self._moving_agents)
+
+        # 1. An edge travels with the agents that participate in it. The data of the other agent
+        # is included as it may not be a ghost on the destination rank.
+        edges_to_send = [[] for _ in range(self.comm.size)]
+        for agent, dest in self._moving_agents:
+            for u, v, attr in self._edges(agent, data=True): # type: ignore
+                other = v if u is agent else u
+                edges_to_send[dest].append((u.uid, v.uid, attr, other.save(), moved.get(other.uid, other.local_rank)))
+
+        # 2. An edge between a moved agent and an agent that is still local remains, and the moved
+        # agent is now a ghost. The agent is otherwise no longer part of the network on this rank.
+        for agent, dest in self._moving_agents:
+            remaining = False
+            for u, v in list(self._edges(agent)): # type: ignore
+                other = v if u is agent else u
+                if other is not agent and agent_manager.get_local(other.uid) is other:
+                    remaining = True
+                elif self.graph.has_edge(u, v):
+                    self.graph.remove_edge(u, v)
+                    self._remove_edge_key(u, v)
+            if not remaining:
+                self.graph.remove_node(agent)
+            elif agent_manager.get_ghost(agent.uid, incr=0) is None:
+                agent_manager.add_ghost(dest, agent)
+        self._moving_agents.clear()
+
+        # 3. An agent that has moved to this rank replaces its ghost
+        for uid, dest in moved.items():
             if dest == self.rank:
-                # Check if moved agent was formerly a ghost on this rank
-                # and if so, then copy the edges the ghost participated in
-                # to new edges created with the now local agent, and remove
-                # the old ghost
-                ghost = agent_manager.get_ghost(uid)
-                if ghost is not None:
-                    agent = agent_manager.get_local(uid)
-                    edge_list = [e for e in self._edges(ghost, data=True)] # type: ignore
-                    for u, v, attr in edge_list:
-                        self.graph.remove_edge(u, v)
-                        if u.uid == agent.uid:
-                            self.graph.add_edge(agent, v, **attr)
-                        else:
-                            self.graph.add_edge(u, agent, **attr)
-                    self.graph.remove_node(ghost)
-            else:
-                # check if moved agent is a ghost on this rank,
-                # if so, then check if that agent participated in
-                # a ghosted edge. If so, then update the local rank
-                # of that ghost agent so that ghosted edge will be
-                # ghosted to new destination, and add that edge to
-                # the new edges, so it will be ghosted to new rank
-                # during next sync.
-                agent = agent_manager.get_ghost(uid, 0)
-                if agent is not None:
-                    for edge in self._edges(agent): # type: ignore
-                        edge_key = self._get_edge_key(edge)
-                        ge = self.ghosted_edges.get(edge_key, None)
-                        if ge is not None:
-                            ge.ghost_agent.local_rank = dest
-                            self.new_edges[edge_key] = ge
+                ghost = agent_manager.get_ghost(uid, incr=0)
+                if ghost is not None and ghost is not agent_manager.get_local(uid) and self.graph.has_node(ghost):
+                    self.remove(ghost)
+
+        for edges in self.comm.alltoall(edges_to_send):
+            self._agent_moved_edges.extend(edges)
 
 
 class UndirectedSharedNetwork(SharedNetwork):
@@ -663,8 +635,7 @@ class UndirectedSharedNetwork(SharedNetwork):
             u_agent: the u node agent
             v_agent: the v node agent
         """
-        edge_key = (u_agent, v_agent)
-        self.canonical_edge_keys[edge_key] = edge_key
+        edge_key = self.canonical_edge_keys.setdefault((u_agent, v_agent), (u_agent, v_agent))
         self.canonical_edge_keys[(v_agent, u_agent)] = edge_key
         return edge_key
 
@@ -675,9 +646,9 @@ class UndirectedSharedNetwork(SharedNetwork):
             u_agent: the u node agent
             v_agent: the v node agent
         """
-        edge_key = (u_agent, v_agent)
-        self.canonical_edge_keys.pop(edge_key)
-        self.canonical_edge_keys.pop((v_agent, u_agent))
+        self.canonical_edge_keys.pop((u_agent, v_agent))
+        # the same edge if u_agent is v_agent
+        self.canonical_edge_keys.pop((v_agent, u_agent), None)
 
     def add_edge(self, u_agent: Agent, v_agent: Agent, **kwattr):
         """Adds an edge between u_agent and v_agent.
@@ -696,27 +667,7 @@ class UndirectedSharedNetwork(SharedNetwork):
 
             >>> g.add_edge(agent1, agent2, weight=3.1)
         """
-
-        if u_agent.local_rank == self.rank and v_agent.local_rank != self.rank:
-            if not self.graph.has_node(v_agent):
-                self.ghosts_to_ref.append(v_agent)
-            self.graph.add_edge(u_agent, v_agent, **kwattr)
-            edge_key = self._add_edge_key(u_agent, v_agent)
-            ge = GhostedEdge(u_agent, v_agent, self.graph.edges[edge_key])
-            self.new_edges[edge_key] = ge
-            self.edges_to_remove.pop(edge_key, None)
-        elif u_agent.local_rank != self.rank and v_agent.local_rank == self.rank:
-            # assume v_agent is local
-            if not self.graph.has_node(u_agent):
-                self.ghosts_to_ref.append(u_agent)
-            self.graph.add_edge(u_agent, v_agent, **kwattr)
-            edge_key = self._add_edge_key(u_agent, v_agent)
-            ge = GhostedEdge(v_agent, u_agent, self.graph.edges[edge_key])
-            self.new_edges[edge_key] = ge
-            self.edges_to_remove.pop(edge_key, None)
-        else:
-            self._add_edge_key(u_agent, v_agent)
-            self.graph.add_edge(u_agent, v_agent, **kwattr)
+        self._add_edge(u_agent, v_agent, kwattr)
 
     def _edges(self, agent: Agent, data: bool = False):
         """Gets an iterator over the incoming and outgoing edges for the specifed agent.
@@ -813,13 +764,13 @@ class DirectedSharedNetwork(SharedNetwork):
     def _add_edge_key(self, u_agent: Agent, v_agent: Agent) -> Tuple: # type: ignore
         """Creates a canonical edge key for the pair of nodes.
 
-        This is a NOOP on SharedDirectedNetwork
+        Returns the edge on a SharedDirectedNetwork.
 
         Args:
             u_agent: the u node agent
             v_agent: the v node agent
         """
-        pass
+        return (u_agent, v_agent)
 
     def add_edge(self, u_agent: Agent, v_agent: Agent, **kwattr):
         """Adds an edge beteen u_agent and v_agent.
@@ -838,25 +789,7 @@ class DirectedSharedNetwork(SharedNetwork):
 
             >>> g.add_edge(agent1, agent2, weight=3.1)
         """
-        if u_agent.local_rank == self.rank and v_agent.local_rank != self.rank:
-            if not self.graph.has_node(v_agent):
-                self.ghosts_to_ref.append(v_agent)
-            self.graph.add_edge(u_agent, v_agent, **kwattr)
-            edge_key = (u_agent, v_agent)
-            ge = GhostedEdge(u_agent, v_agent, self.graph.edges[edge_key])
-            self.new_edges[edge_key] = ge
-            self.edges_to_remove.pop(edge_key, None)
-        elif u_agent.local_rank != self.rank and v_agent.local_rank == self.rank:
-            # assume v_agent is local
-            if not self.graph.has_node(u_agent):
-                self.ghosts_to_ref.append(u_agent)
-            self.graph.add_edge(u_agent, v_agent, **kwattr)
-            edge_key = (u_agent, v_agent)
-            ge = GhostedEdge(v_agent, u_agent, self.graph.edges[edge_key])
-            self.new_edges[edge_key] = ge
-            self.edges_to_remove.pop(edge_key, None)
-        else:
-            self.graph.add_edge(u_agent, v_agent, **kwattr)
+        self._add_edge(u_agent, v_agent, kwattr)
 
     def _edges(self, agent: Agent, data: bool = False):
         """Gets an iterator over the incoming and outgoing edges for the specifed agent.
-- 
2.43.0


From fff7ccfd8d01873c202f8c914af3e474b82fa885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:15 +0000
Subject: [PATCH 26/39] fix: num_edges of a directed network counts an edge
 from an agent to itself once

---
 src/repast4py/network.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/repast4py/network.py b/src/repast4py/network.py
index b3f2752..a7a01d7 100644
--- a/src/repast4py/network.py
+++ b/src/repast4py/network.py
@@ -810,7 +810,9 @@ class DirectedSharedNetwork(SharedNetwork):
         Returns:
             The number of edges that contain the specified agent
         """
-        return len(self.graph.out_edges(agent)) + len(self.graph.in_edges(agent)) # type: ignore
+        n_edges = len(self.graph.out_edges(agent)) + len(self.graph.in_edges(agent)) # type: ignore
+        # an edge from the agent to itself is both an in and an out edge
+        return n_edges - 1 if self.graph.has_edge(agent, agent) else n_edges
 
 
 @dataclass
-- 
2.43.0


From 6f3beb6c1bd088716ef082ec86deef4e14bb168a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:30 +0000
Subject: [PATCH 27/39] fix: read_network reads any json attribute dictionary,
 including nested, empty and those with braces in strings

---
 src/repast4py/network.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/repast4py/network.py b/src/repast4py/network.py
index a7a01d7..8afcc37 100644
--- a/src/repast4py/network.py
+++ b/src/repast4py/network.py
@@ -15,7 +15,6 @@ from dataclasses import dataclass
 import numpy as np
 import networkx as nx
 from itertools import chain
-import re
 import math
 import json
 from abc import ABC, abstractmethod
@@ -839,15 +838,15 @@ def _parse_graph_desc(line: str):
                          'format: "id [0|1]", where 0 indicates an undirected graph and 1 directed')
 
 
-_LINE_P = re.compile('\{[^}]+\}|\S+')
 _EMPTY_DICT = {}
 
 
 def _parse_node(line: str, line_num: int, graph_data: GraphData, ctx, create_agent: Callable):
     try:
-        vals = _LINE_P.findall(line)
+        # the json attribute dictionary is the remainder of the line
+        vals = line.split(None, 3)
         n_vals = len(vals)
-        if n_vals < 3 or n_vals > 4:
+        if n_vals < 3:
             raise ValueError
         n_id = int(vals[0])
         agent_type = int(vals[1])
@@ -878,9 +877,10 @@ def _request_remote_agents(graph_data: GraphData, ctx, create_agent: Callable):
 def _parse_edge(line: str, line_num: int, graph, graph_data: GraphData):
     requested = set()
     try:
-        vals = _LINE_P.findall(line)
+        # the json attribute dictionary is the remainder of the line
+        vals = line.split(None, 2)
         n_vals = len(vals)
-        if n_vals < 2 or n_vals > 3:
+        if n_vals < 2:
             raise ValueError
 
         u_id = int(vals[0])
-- 
2.43.0


From 0d48e78da3a89d6c135d1282743435bf09b525ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:21 +0000
Subject: [PATCH 28/39] fix: a data set or table can be logged to a file in the
 current directory

---
 src/repast4py/logging.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/repast4py/logging.py b/src/repast4py/logging.py
index cea93f0..95e34b2 100644
--- a/src/repast4py/logging.py
+++ b/src/repast4py/logging.py
@@ -287,7 +287,7 @@ class ReducingDataSet:
 
         if self._rank == 0:
             parent = os.path.dirname(fpath)
-            if not os.path.exists(parent):
+            if parent and not os.path.exists(parent):
                 os.makedirs(parent)
             self.ticks = []
 
@@ -363,7 +363,7 @@ class TabularLogger:
         if self._rank == 0:
             self._fpath = find_free_filename(fpath)
             parent = os.path.dirname(self._fpath)
-            if not os.path.exists(parent):
+            if parent and not os.path.exists(parent):
                 os.makedirs(parent)
 
             with open(self._fpath, 'w', newline='') as fout:
-- 
2.43.0


From e47b243cadd2f559dcac6a414ef2e778d8b62657 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 23:08:21 +0000
Subject: [PATCH 29/39] fix: stops are not restored with a schedule unless
 asked for

---
 src/repast4py/checkpoint.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/repast4py/checkpoint.py b/src/repast4py/checkpoint.py
index 115a8e5..bb7656c 100644
--- a/src/repast4py/checkpoint.py
+++ b/src/repast4py/checkpoint.py
@@ -250,7 +250,9 @@ class Checkpoint:
                     if schedule_state['tick'] == evt_data.at:
                         warnings.warn(f"Scheduling stop at first tick {evt_data.at} in restored schedule")
                     evt = runner.stop
-                
+                else:
+                    evt = IGNORE_EVT
+
                 if evt != IGNORE_EVT:
                     scheduled_evt = self._schedule_evt(runner, evt_type, evt_data, evt) # type: ignore
                     evt_processor(metadata, scheduled_evt)
-- 
2.43.0


From d241aaaab3228a075e6fb3ada891609746806766 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 23:11:07 +0000
Subject: [PATCH 30/39] fix: restoring the events of another tag does not reuse
 the order of events scheduled since

---
 src/repast4py/checkpoint.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/repast4py/checkpoint.py b/src/repast4py/checkpoint.py
index bb7656c..cdcbc89 100644
--- a/src/repast4py/checkpoint.py
+++ b/src/repast4py/checkpoint.py
@@ -236,6 +236,9 @@ class Checkpoint:
         else:
             runner = schedule.runner()
 
+        # events may have been scheduled since another tag was restored
+        last_count = max(schedule_state['last_count'], runner.schedule.last_count)
+
         for evt_data in schedule_state['evts']:
             metadata = evt_data.metadata
             evt_tag = metadata.get('tag', DEFAULT_TAG)
@@ -257,7 +260,6 @@ class Checkpoint:
                     scheduled_evt = self._schedule_evt(runner, evt_type, evt_data, evt) # type: ignore
                     evt_processor(metadata, scheduled_evt)
 
-        last_count = schedule_state['last_count']
         runner.schedule.counter = itertools.count(last_count + 1)
         runner.schedule.last_count = last_count
 
-- 
2.43.0


From cee539d7f96cb494731e5548ca7757aa642d0197 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 23:11:07 +0000
Subject: [PATCH 31/39] fix: voided events do not change the random order,
 which differed after restoring a checkpoint

---
 src/repast4py/schedule.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/repast4py/schedule.py b/src/repast4py/schedule.py
index 710eb05..0261af0 100644
--- a/src/repast4py/schedule.py
+++ b/src/repast4py/schedule.py
@@ -426,7 +426,10 @@ class Schedule:
             go = True
             while go:
                 heapq.heappop(self.queue)
-                self.executing_group.add_evt(evt)
+                # voided events take no part in the random order, as they
+                # are not part of a restored schedule
+                if evt.metadata['__type'] != EvtType.VOID:
+                    self.executing_group.add_evt(evt)
                 if len(self.queue) == 0:
                     go = False
                 else:
-- 
2.43.0


From 75953a89e86c4d75ae89ecd6f98ccadec0b98172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:55 +0000
Subject: [PATCH 32/39] fix: edges from agents on other ranks are restored with
 a directed network

---
 src/repast4py/checkpoint.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/repast4py/checkpoint.py b/src/repast4py/checkpoint.py
index cdcbc89..72d539a 100644
--- a/src/repast4py/checkpoint.py
+++ b/src/repast4py/checkpoint.py
@@ -432,7 +432,7 @@ class NetworkRestorer:
             if edge_t == 0:
                 self.network.add_edge(self.context.agent(u), requests[v], **e_attribs)
             else:
-                self.network.add_edge(requests[v], self.context.agent(u), **e_attribs)
+                self.network.add_edge(requests[u], self.context.agent(v), **e_attribs)
 
     def restore(self, requests: Dict):
         self.requests = requests
-- 
2.43.0


From bca226b3ec1eb7e46859cee2f70a47dbdff47bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:57 +0000
Subject: [PATCH 33/39] fix: saved edge attributes do not change with the
 network after saving

---
 src/repast4py/checkpoint.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/repast4py/checkpoint.py b/src/repast4py/checkpoint.py
index 72d539a..aa705cd 100644
--- a/src/repast4py/checkpoint.py
+++ b/src/repast4py/checkpoint.py
@@ -351,13 +351,13 @@ class Checkpoint:
         if network.is_directed:
             for nd in filter(lambda n: n.local_rank == rank, network.graph.nodes):
                 edge_data = [nd.uid]
-                edge_data.append([(o.uid, o.local_rank, network.graph[nd][o]) for o in network.graph.successors(nd)]) # type: ignore
-                edge_data.append([(o.uid, o.local_rank, network.graph[o][nd]) for o in network.graph.predecessors(nd)]) # type: ignore
+                edge_data.append([(o.uid, o.local_rank, dict(network.graph[nd][o])) for o in network.graph.successors(nd)]) # type: ignore
+                edge_data.append([(o.uid, o.local_rank, dict(network.graph[o][nd])) for o in network.graph.predecessors(nd)]) # type: ignore
                 data.append(edge_data)
         else:
             for nd in filter(lambda n: n.local_rank == rank, network.graph.nodes):
                 edge_data = [nd.uid]
-                edge_data.append([(n.uid, n.local_rank, network.graph[nd][n]) for n in network.graph.neighbors(nd)])
+                edge_data.append([(n.uid, n.local_rank, dict(network.graph[nd][n])) for n in network.graph.neighbors(nd)])
                 data.append(edge_data)
 
         net_data = {"name": network.name, "directed": network.is_directed,
-- 
2.43.0


From b3dc845636e638e041713dcd5cb9cfa2a3fe9b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:57 +0000
Subject: [PATCH 34/39] fix: spaces with agents that have no location can be
 saved and restored

---
 src/repast4py/checkpoint.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/repast4py/checkpoint.py b/src/repast4py/checkpoint.py
index aa705cd..edbfae7 100644
--- a/src/repast4py/checkpoint.py
+++ b/src/repast4py/checkpoint.py
@@ -316,12 +316,14 @@ class Checkpoint:
         locations = {}
 
         for agent in context.agents():
-            locations[agent.uid] = space.get_location(agent).coordinates
+            location = space.get_location(agent)
+            if location is not None:
+                locations[agent.uid] = location.coordinates
         self.spaces[space.name] = locations
 
     def restore_space(self, context: SharedContext, space: Union[SharedGrid, SharedCSpace]):
         """Places all the agents in the specified context into the specified space at the location
-        saved for that agent. The saved locations for the specified space are looked up using
+        saved for that agent, if there is one. The saved locations for the specified space are looked up using
         the space's name.
         
         Args:
@@ -332,12 +334,14 @@ class Checkpoint:
         locations = self.spaces[space.name]
         if isinstance(space, SharedGrid):
             for agent in context.agents():
-                location = locations[agent.uid]
-                space.move(agent, DiscretePoint(location[0], location[1], location[2]))
+                location = locations.get(agent.uid)
+                if location is not None:
+                    space.move(agent, DiscretePoint(location[0], location[1], location[2]))
         else:
             for agent in context.agents():
-                location = locations[agent.uid]
-                space.move(agent, ContinuousPoint(location[0], location[1], location[2]))            
+                location = locations.get(agent.uid)
+                if location is not None:
+                    space.move(agent, ContinuousPoint(location[0], location[1], location[2]))            
 
 
     def save_network(self, network: SharedNetwork, rank: int):
-- 
2.43.0


From 021f3e5f4d88f6e0f1d8e0d9564ab15b6293cb9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:54 +0000
Subject: [PATCH 35/39] fix: saved locations do not change when agents move
 after saving

---
 src/repast4py/checkpoint.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/repast4py/checkpoint.py b/src/repast4py/checkpoint.py
index edbfae7..6b52fdb 100644
--- a/src/repast4py/checkpoint.py
+++ b/src/repast4py/checkpoint.py
@@ -318,7 +318,7 @@ class Checkpoint:
         for agent in context.agents():
             location = space.get_location(agent)
             if location is not None:
-                locations[agent.uid] = location.coordinates
+                locations[agent.uid] = location.coordinates.copy()
         self.spaces[space.name] = locations
 
     def restore_space(self, context: SharedContext, space: Union[SharedGrid, SharedCSpace]):
-- 
2.43.0


From 6d1c56421961b72f6ff94d0beac17e7bad7e1f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:58 +0000
Subject: [PATCH 36/39] fix: a parameters file may be empty

---
 src/repast4py/parameters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/repast4py/parameters.py b/src/repast4py/parameters.py
index c6917ff..e42fe2b 100644
--- a/src/repast4py/parameters.py
+++ b/src/repast4py/parameters.py
@@ -64,7 +64,7 @@ def init_params(parameters_file: str, parameters: str, dump_file: str = None) ->
     """
     global params
     with open(parameters_file) as f_in:
-        params = yaml.load(f_in, Loader=yaml.SafeLoader)
+        params = yaml.load(f_in, Loader=yaml.SafeLoader) or {}
     if parameters != '':
         params.update(json.loads(parameters))
 
-- 
2.43.0


From ada34f3bbd4c24434cac3df2490a492271bad048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:10 +0000
Subject: [PATCH 37/39] fix: agents found within a box are not in order of
 memory addresses

---
 src/repast4py/SpatialTree.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/repast4py/SpatialTree.h b/src/repast4py/SpatialTree.h
index dfe5c72..59993d8 100644
--- a/src/repast4py/SpatialTree.h
+++ b/src/repast4py/SpatialTree.h
@@ -257,15 +257,21 @@ template<typename PointType>
 void SOItems<PointType>::getObjectsWithin(const BoundingBox& box, SOMapType* loc_map,
     std::shared_ptr<std::vector<R4Py_Agent*>>& agents) {
 
+    // points is ordered by address, so gather the agents by location first:
+    // the order of the results must not depend on where points are in memory
+    std::map<Point<R4Py_ContinuousPoint>, R4Py_Agent*, PointComp<R4Py_ContinuousPoint>> found;
     Point<R4Py_ContinuousPoint> ppt;
     for (auto& pt : points) {
         if (box.contains(pt)) {
             extract_coords(pt, ppt);
-            auto agent = (*loc_map)[ppt];
-            agents->push_back(agent);
+            found[ppt] = (*loc_map)[ppt];
         }
     }
 
+    for (auto& kv : found) {
+        agents->push_back(kv.second);
+    }
+
     // for (auto& kv : items) {
     //     if (box.contains(kv.second->pt)) {
     //         Py_INCREF(kv.second->agent);
-- 
2.43.0


From 5900600eac0bfc4a685334128b9f5a087a06fc8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:38 +0000
Subject: [PATCH 38/39] fix: a type without agents has no agents and size 0,
 whether or not there were any before

---
 src/repast4py/context.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/repast4py/context.py b/src/repast4py/context.py
index 37d4ecc..951a7ad 100644
--- a/src/repast4py/context.py
+++ b/src/repast4py/context.py
@@ -412,7 +412,7 @@ class SharedContext:
             if agent_type is None:
                 lst = list(self._agent_manager._local_agents.values())
             else:
-                lst = list(self._agents_by_type[agent_type].values())
+                lst = list(self._agents_by_type.get(agent_type, {}).values())
 
             if shuffle:
                 random.default_rng.shuffle(lst)
@@ -424,7 +424,7 @@ class SharedContext:
             if agent_type is None:
                 return self._agent_manager._local_agents.values().__iter__()
             else:
-                return self._agents_by_type[agent_type].values().__iter__()
+                return self._agents_by_type.get(agent_type, {}).values().__iter__()
 
     def agent(self, agent_id) -> Agent:
         """Gets the specified agent from the collection of local
@@ -469,7 +469,7 @@ class SharedContext:
         counts = {}
         if agent_type_ids:
             for i in agent_type_ids:
-                counts[i] = len(self._agents_by_type[i])
+                counts[i] = len(self._agents_by_type.get(i, {}))
         else:
             counts[-1] = len(self._agent_manager._local_agents)
 
-- 
2.43.0


From 23f24b48837f81c58d353943a1f4298ebabef5d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:42 +0000
Subject: [PATCH 39/39] fix: a shared value layer's bounds may lie beyond 32
 bit integers

---
 src/repast4py/value_layer.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/repast4py/value_layer.py b/src/repast4py/value_layer.py
index 61bf337..685a094 100644
--- a/src/repast4py/value_layer.py
+++ b/src/repast4py/value_layer.py
@@ -741,8 +741,8 @@ class SharedValueLayer(ValueLayer):
         data_size = 3 if topo.procs_per_dim[0] != 2 and self.periodic else 6
 
         num_procs = self.cart_comm.Get_size()
-        meta_data_send = np.zeros((num_procs, data_size), dtype=np.int32)
-        self.ngh_meta_data_recv = np.zeros((num_procs, data_size), dtype=np.int32)
+        meta_data_send = np.zeros((num_procs, data_size), dtype=np.int64)
+        self.ngh_meta_data_recv = np.zeros((num_procs, data_size), dtype=np.int64)
 
         offset = 3
         num_sent_slices = int(data_size / offset)
@@ -818,9 +818,9 @@ class SharedValueLayer(ValueLayer):
             data_size = offset * 8
 
         # send buffer for meta data (bounds etc.)
-        meta_data_send = np.zeros((num_procs, data_size), dtype=np.int32)
+        meta_data_send = np.zeros((num_procs, data_size), dtype=np.int64)
         # recv buffer for meta
-        self.ngh_meta_data_recv = np.zeros((num_procs, data_size), dtype=np.int32)
+        self.ngh_meta_data_recv = np.zeros((num_procs, data_size), dtype=np.int64)
 
         offsets = [0] * num_procs
         for ngh_rank, _, buf_shape, bounds, _ in ngh_buffers:
@@ -893,8 +893,8 @@ class SharedValueLayer(ValueLayer):
         buf_dtype = self.grid[ngh_buffers[0][4]].numpy().dtype
 
         num_procs = self.cart_comm.Get_size()
-        meta_data_send = np.zeros((num_procs, 18), dtype=np.int32)
-        self.ngh_meta_data_recv = np.zeros((num_procs, 18), dtype=np.int32)
+        meta_data_send = np.zeros((num_procs, 18), dtype=np.int64)
+        self.ngh_meta_data_recv = np.zeros((num_procs, 18), dtype=np.int64)
 
         for ngh_rank, _, buf_shape, bounds, _ in ngh_buffers:
             s_idx = 0 if meta_data_send[ngh_rank, 0] == 0 else 9
-- 
2.43.0

