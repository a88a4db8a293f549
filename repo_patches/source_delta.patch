From 453a4a7c3026b4d026d2b172856b9082ec9d2957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:39 +0000
Subject: [PATCH 01/50] fix: keep prioritized events ordered when a tick's
 events are re-sorted

Events added to the executing tick re-sort the group; random events merged into
the prioritized list by the previous sort have a NaN priority, which broke the sort.
---
 src/repast4py/schedule.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/repast4py/schedule.py b/src/repast4py/schedule.py
index cb8fc68..3204fec 100644
--- a/src/repast4py/schedule.py
+++ b/src/repast4py/schedule.py
@@ -208,6 +208,11 @@ class ScheduleGroup:
         self.size_ += 1
 
     def sort(self):
+        # when re-sorting during execution, random events may already be merged into
+        # the prioritized ones: they have no priority to sort by, so take them out again
+        self.random.extend(evt for evt in self.prioritized if evt.priority_type == PriorityType.RANDOM)
+        self.prioritized = [evt for evt in self.prioritized if evt.priority_type != PriorityType.RANDOM]
+
         # sort according to the order of insertion
         # so we have a predictable starting point for randomization
         self.random.sort(key=lambda evt: evt.order_idx)
-- 
2.43.0


From 70f8ffc47cbb0cc16c0137d8b16d25e1644260df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:39 +0000
Subject: [PATCH 02/50] fix: schedule_stop updates the runner's next tick

A rank whose only event is a stop kept next_tick at -1 and the ranks never agreed on a tick.
---
 src/repast4py/schedule.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/repast4py/schedule.py b/src/repast4py/schedule.py
index 3204fec..b8825cc 100644
--- a/src/repast4py/schedule.py
+++ b/src/repast4py/schedule.py
@@ -599,6 +599,7 @@ class SharedScheduleRunner:
             The ScheduledEvent instance that executes the stop event.
         """
         sch_evt = self.schedule.schedule_event(at, self.stop, metadata={'__type': EvtType.STOP})
+        self.next_tick = self.schedule.next_tick()
         return sch_evt
 
     def stop(self):
-- 
2.43.0


From 018b8268602c0d6b9f7907a56d978446276699fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:39 +0000
Subject: [PATCH 03/50] fix: restore directed edges whose source is on another
 rank

For a predecessor edge u is the remote agent and v the local one.
---
 src/repast4py/checkpoint.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/repast4py/checkpoint.py b/src/repast4py/checkpoint.py
index 115a8e5..26010ea 100644
--- a/src/repast4py/checkpoint.py
+++ b/src/repast4py/checkpoint.py
@@ -428,7 +428,7 @@ class NetworkRestorer:
             if edge_t == 0:
                 self.network.add_edge(self.context.agent(u), requests[v], **e_attribs)
             else:
-                self.network.add_edge(requests[v], self.context.agent(u), **e_attribs)
+                self.network.add_edge(requests[u], self.context.agent(v), **e_attribs)
 
     def restore(self, requests: Dict):
         self.requests = requests
-- 
2.43.0


From b22e23c01ca14fdd34b99ec51f6169cec2be56b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:39 +0000
Subject: [PATCH 04/50] fix: restore_schedule restores stops only when
 restore_stop_at is true

---
 src/repast4py/checkpoint.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/repast4py/checkpoint.py b/src/repast4py/checkpoint.py
index 26010ea..965cad0 100644
--- a/src/repast4py/checkpoint.py
+++ b/src/repast4py/checkpoint.py
@@ -250,7 +250,9 @@ class Checkpoint:
                     if schedule_state['tick'] == evt_data.at:
                         warnings.warn(f"Scheduling stop at first tick {evt_data.at} in restored schedule")
                     evt = runner.stop
-                
+                else:
+                    continue
+
                 if evt != IGNORE_EVT:
                     scheduled_evt = self._schedule_evt(runner, evt_type, evt_data, evt) # type: ignore
                     evt_processor(metadata, scheduled_evt)
-- 
2.43.0


From e3a59f94098661fd900f26cec85df8ca7775a095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:39 +0000
Subject: [PATCH 05/50] fix: compute shared buffer strips from the direction of
 each neighbor

With periodic borders a rank can be a neighbor in several directions. Guessing the
directions from coordinate differences read out of bounds on n x 1 process grids,
and missed strips for 3D grids with two processes in several dimensions. A single
rank 1D periodic space was also its own neighbor and replaced its agents by ghosts.
---
 src/repast4py/distributed_space.cpp | 153 ++++------------------------
 src/repast4py/distributed_space.h   |   2 +
 2 files changed, 19 insertions(+), 136 deletions(-)

diff --git a/src/repast4py/distributed_space.cpp b/src/repast4py/distributed_space.cpp
index e49f9aa..b77f1db 100644
--- a/src/repast4py/distributed_space.cpp
+++ b/src/repast4py/distributed_space.cpp
@@ -40,28 +40,26 @@ void compute_buffer_bounds(CTNeighbor& ngh, int offsets[], int num_dims, Boundin
 
     // 1: ngh to right of me.
     // -1: ngh to left of me.
-    // > 1: ngh is wrapped to left
-    // < -1: ngh is wrapped to right
-    if (offsets[0] == -1 || offsets[0] > 1) {
+    if (offsets[0] == -1) {
         xmin = local_bounds.xmin_;
         xmax = xmin + buffer_size;
-    } else if (offsets[0] == 1 || offsets[0] < -1) {
+    } else if (offsets[0] == 1) {
         xmin = local_bounds.xmax_ - buffer_size;
         xmax = xmin + buffer_size;
     }
 
-    if (offsets[1] == -1 || offsets[1] > 1) {
+    if (offsets[1] == -1) {
         ymin = local_bounds.ymin_;
         ymax = ymin + buffer_size;
-    } else if (offsets[1] == 1 || offsets[1] < -1) {
+    } else if (offsets[1] == 1) {
         ymin = local_bounds.ymax_ - buffer_size;
         ymax = ymin + buffer_size;
     }
 
-    if (offsets[2] == -1 || offsets[2] > 1) {
+    if (offsets[2] == -1) {
         zmin = local_bounds.zmin_;
         zmax = zmin + buffer_size;
-    } else if (offsets[2] == 1 || offsets[2] < -1) {
+    } else if (offsets[2] == 1) {
         zmin = local_bounds.zmax_ - buffer_size;
         zmax = zmin + buffer_size;
     }
@@ -79,130 +77,10 @@ void compute_buffer_bounds(CTNeighbor& ngh, int offsets[], int num_dims, Boundin
 void compute_neighbor_buffers(std::vector<CTNeighbor>& nghs, std::vector<int>& cart_coords, 
     BoundingBox& local_bounds, int num_dims, const int* procs_per_dim, unsigned int buffer_size)
 {
-    int offsets[3] = {0, 0, 0};
-
-    std::set<int> p_ranks;
-    if (num_dims == 1) {
-        for (auto& ngh : nghs) {
-            offsets[0] = ngh.cart_coord_x - cart_coords[0];
-            // if in p_ranks:
-            //    coord_x > card_coords[0] -- to the right of me, so offsets to -1 as if to the left of me.
-            //    coord_x < card_coords[0] -- to the left of me , so offsets to 1 as if to right of me
-            if (p_ranks.find(ngh.rank) != p_ranks.end()) {
-                if (offsets[0] < 0) offsets[0] = 1;
-                else offsets[0] = -1;
-            }
-            compute_buffer_bounds(ngh, offsets, num_dims, local_bounds, buffer_size);
-            p_ranks.emplace(ngh.rank);
-        }
-    } else if (num_dims == 2) {
-        // bool is_0 = cart_coords[0] == 0 && cart_coords[1] == 0;
-        
-        // first element is number of times ngh appears, 2 and 3 and cart coord
-        // differences
-        std::map<int, std::vector<int>> coord_offset_counts;
-        // if (is_0) std::cout << "num nghs: " << nghs.size() << std::endl;
-        for (auto& ngh : nghs) {
-            if (coord_offset_counts.find(ngh.rank) == coord_offset_counts.end()) {
-                int ox = ngh.cart_coord_x - cart_coords[0];
-                int oy = ngh.cart_coord_y - cart_coords[1];
-                // if (is_0) std::cout << "ngh offsets for " << ngh.rank << ": " << ox << ", " << oy << std::endl;
-                coord_offset_counts.emplace(ngh.rank, std::vector<int>{1, ox, oy});
-            } else {
-                coord_offset_counts[ngh.rank][0] += 1;
-                // int ox = ngh.cart_coord_x - cart_coords[0];
-                // int oy = ngh.cart_coord_y - cart_coords[1];
-                // if (is_0) std::cout << "ngh offsets for " << ngh.rank << ": " << ox << ", " << oy << std::endl;
-            }
-        }
-
-        bool x2 = procs_per_dim[0] == 2;
-        bool y2 = procs_per_dim[1] == 2;
-
-        std::map<int, std::vector<int>> fixed_offsets;
-        for (auto kv : coord_offset_counts) {
-            auto& val = kv.second;
-            if (val[0] == 1) {
-                fixed_offsets.emplace(kv.first, std::vector<int>{val[1], val[2]});
-            } else if (val[0] == 2) {
-                // which dimension is duplicated
-                if (val[1] != 0 && x2) {
-                    fixed_offsets.emplace(kv.first, std::vector<int>{1, val[2], -1 , val[2]});
-                } 
-                
-                if (val[2] != 0 && y2) {
-                    fixed_offsets.emplace(kv.first, std::vector<int>{val[1], 1, val[1], -1});
-                }
-            } else if (val[0] == 4) {
-                // both dimensions duplicated
-                fixed_offsets.emplace(kv.first, std::vector<int>{1, 1, 1, -1, -1, 1, -1, -1});
-            } else if (val[0] == 6) {
-                // this will occur with 2 procs and periodic -- meet at left / right or top / bottom
-                // and 4 corners
-                if (x2) {
-                    fixed_offsets.emplace(kv.first, std::vector<int>{-1, -1, -1, 1, 1, -1, 1, 1, -1, 0, 1, 0});
-                } else if (y2) {
-                    fixed_offsets.emplace(kv.first, std::vector<int>{-1, -1, -1, 1, 1, -1, 1, 1, 0, -1, 0, 1});
-                }
-            }
-        }
-
-        std::map<int, int> ngh_offsets_idx;
-        for (auto& ngh : nghs) {
-            int idx = ngh_offsets_idx[ngh.rank];
-            ngh_offsets_idx[ngh.rank] += 2;
-            auto& ngh_offsets = fixed_offsets[ngh.rank];
-            offsets[0] = ngh_offsets[idx];
-            offsets[1] = ngh_offsets[idx + 1];
-            compute_buffer_bounds(ngh, offsets, num_dims, local_bounds, buffer_size);
-            // if (is_0) std::cout << "fixed ngh offsets for " << ngh.rank << ": " << offsets[0] << ", " << offsets[1] << std::endl;
-        }
-
-        // for (auto& ngh : nghs) {
-        //     offsets[0] = ngh.cart_coord_x - cart_coords[0];
-        //     offsets[1] = ngh.cart_coord_y - cart_coords[1];
-        //     if (is_0) std::cout << "ngh offsets for " << ngh.rank << ": " << offsets[0] << ", " << offsets[1] << std::endl;
-        //     if (p_ranks.find(ngh.rank) != p_ranks.end()) {
-        //         if (x2) {
-        //             if (offsets[0] < 0) offsets[0] = 1;
-        //             else if (offsets[0] > 0) offsets[0] = -1;
-        //         }
-        //         if (y2) {
-        //             if (offsets[1] < 0) offsets[1] = 1;
-        //             else if (offsets[1] > 0) offsets[1] = -1;
-        //         }
-        //         if (is_0) std::cout << "ngh offsets for " << ngh.rank << ": " << offsets[0] << ", " << offsets[1] << std::endl;
-        //     }
-        //     compute_buffer_bounds(ngh, offsets, num_dims, local_bounds, buffer_size);
-        //     p_ranks.emplace(ngh.rank);
-        // }
-    } else if (num_dims == 3) {
-        bool x2 = procs_per_dim[0] == 2;
-        bool y2 = procs_per_dim[1] == 2;
-        bool z2 = procs_per_dim[2] == 2;
-        for (auto& ngh : nghs) {
-            offsets[0] = ngh.cart_coord_x - cart_coords[0];
-            offsets[1] = ngh.cart_coord_y - cart_coords[1];
-            offsets[2] = ngh.cart_coord_z - cart_coords[2];
-            if (p_ranks.find(ngh.rank) != p_ranks.end()) {
-                if (x2) {
-                    if (offsets[0] < 0) offsets[0] = 1;
-                    else if (offsets[0] > 0) offsets[0] = -1;
-
-                }
-                if (y2) {
-                    if (offsets[1] < 0) offsets[1] = 1;
-                    else if (offsets[1] > 0) offsets[1] = -1;
-                }
-                if (z2) {
-                    if (offsets[2] < 0) offsets[2] = 1;
-                    else if (offsets[2] > 0) offsets[2] = -1;
-                }
-
-            }
-            compute_buffer_bounds(ngh, offsets, num_dims, local_bounds, buffer_size);
-            p_ranks.emplace(ngh.rank);
-        }
+    // the same rank can be a neighbor in more than one direction when borders are periodic, so
+    // use the direction in which each neighbor was found rather than the difference in coordinates
+    for (auto& ngh : nghs) {
+        compute_buffer_bounds(ngh, ngh.offsets, num_dims, local_bounds, buffer_size);
     }
 }
 
@@ -351,8 +229,11 @@ void CartesianTopology::getNeighbors(std::vector<CTNeighbor>& neighbors) {
             MPI_Cart_coords(comm_, n_rank, num_dims_, working);
             // ngh_map.emplace(n_rank, CTNeighbor{n_rank, working[0], -1, -1, nullptr,
             //    {0, 0, 0, 0}});
-            neighbors.push_back(CTNeighbor{n_rank, working[0], -1, -1, nullptr,
-                {0, 0, 0, 0}});
+            // avoid making self a neighbor
+            if (n_rank != rank) {
+                neighbors.push_back(CTNeighbor{n_rank, working[0], -1, -1, nullptr,
+                    {0, 0, 0, 0}, {xd, 0, 0}});
+            }
         }
 
     } else if (num_dims_ == 2) {
@@ -387,7 +268,7 @@ void CartesianTopology::getNeighbors(std::vector<CTNeighbor>& neighbors) {
                         //ngh_map.emplace(n_rank, CTNeighbor{n_rank, working[0], working[1], -1, nullptr,
                         //{0, 0, 0, 0}});
                         neighbors.push_back(CTNeighbor{n_rank, working[0], working[1], -1, nullptr,
-                            {0, 0, 0, 0}});
+                            {0, 0, 0, 0}, {xd, yd, 0}});
                     }
                 }
             }
@@ -435,7 +316,7 @@ void CartesianTopology::getNeighbors(std::vector<CTNeighbor>& neighbors) {
                         //ngh_map.emplace(n_rank, CTNeighbor{n_rank, working[0], working[1], working[2], nullptr,
                         //{0, 0, 0, 0}});
                         neighbors.push_back(CTNeighbor{n_rank, working[0], working[1], working[2], nullptr,
-                            {0, 0, 0, 0}});
+                            {0, 0, 0, 0}, {xd, yd, zd}});
                     }
                 }
             }
diff --git a/src/repast4py/distributed_space.h b/src/repast4py/distributed_space.h
index 88b6bca..0ef3894 100644
--- a/src/repast4py/distributed_space.h
+++ b/src/repast4py/distributed_space.h
@@ -27,6 +27,8 @@ struct CTNeighbor {
     // buffered agents - tuple: (rank, (xmin, xmax, ymin, ymax, zmin, zmax))
     PyObject* buffer_info;
     BoundingBox local_bounds;
+    // direction (-1, 0, 1) of the neighbor in each dimension
+    int offsets[3];
 };
 
 struct GetBufferInfo {
-- 
2.43.0


From 6e64276469a5b0a732c5393a5f93bd9937f89f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:39 +0000
Subject: [PATCH 06/50] fix: size the coordinate vector before MPI writes to it

---
 src/repast4py/distributed_space.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/repast4py/distributed_space.cpp b/src/repast4py/distributed_space.cpp
index b77f1db..daeec39 100644
--- a/src/repast4py/distributed_space.cpp
+++ b/src/repast4py/distributed_space.cpp
@@ -152,7 +152,7 @@ CartesianTopology::~CartesianTopology() {
 }
 
 void CartesianTopology::getCoords(std::vector<int>& coords) {
-    coords.reserve(num_dims_);
+    coords.resize(num_dims_);
     MPI_Cart_coords(comm_, getRank(), num_dims_, &coords[0]);
 }
 
-- 
2.43.0


From 961b476de446d4a2215bbe8624f2d26fa92865e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:39 +0000
Subject: [PATCH 07/50] fix: the size of a requested topology is the product of
 its dimensions

---
 src/repast4py/distributed_space.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/repast4py/distributed_space.cpp b/src/repast4py/distributed_space.cpp
index daeec39..bcc7a4c 100644
--- a/src/repast4py/distributed_space.cpp
+++ b/src/repast4py/distributed_space.cpp
@@ -119,9 +119,9 @@ CartesianTopology::CartesianTopology(MPI_Comm comm, MPI_Comm* cart_comm, const s
 {
     int size;
     MPI_Comm_size(comm, &size);
-    int total_requested_size = 0;
+    int total_requested_size = 1;
     for (auto val : procs_per_dimension) {
-        total_requested_size += val;
+        total_requested_size *= val;
     }
 
     if (total_requested_size > size) {
-- 
2.43.0


From da571e2bb2cb1a04a1cf3a24e3fab9a687129b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:01 +0000
Subject: [PATCH 08/50] fix: a wrapped continuous coordinate never lands on the
 excluded maximum

---
 src/repast4py/borders.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/repast4py/borders.h b/src/repast4py/borders.h
index e822ae3..38a75fd 100644
--- a/src/repast4py/borders.h
+++ b/src/repast4py/borders.h
@@ -90,6 +90,9 @@ void StickyBorders<PointType>::transform(const PointType* pt, Point<PointType>&
 using GridStickyBorders = StickyBorders<R4Py_DiscretePoint>;
 using CSStickyBorders = StickyBorders<R4Py_ContinuousPoint>;
 
+// In the transforms below, rounding can put a wrapped continuous coordinate on the excluded
+// maximum, in which case it wraps to the minimum.
+
 template <typename PointType>
 void transformX(const PointType* pt, Point<PointType>& transformed_pt, const BoundingBox& bounds) {
     using coord_type  = typename TypeSelector<PointType>::type;
@@ -97,6 +100,7 @@ void transformX(const PointType* pt, Point<PointType>& transformed_pt, const Bou
 
     coord_type nc = fmod((data[0] - bounds.xmin_), bounds.x_extent_);
     transformed_pt.x = nc < 0 ? bounds.xmax_ + nc : bounds.xmin_ + nc;
+    if (transformed_pt.x >= bounds.xmax_) transformed_pt.x = bounds.xmin_;
 }
 
 template <typename PointType>
@@ -106,9 +110,11 @@ void transformXY(const PointType* pt, Point<PointType>& transformed_pt, const Bo
 
     coord_type nc = fmod(data[0] - bounds.xmin_, bounds.x_extent_);
     transformed_pt.x = nc < 0 ? bounds.xmax_ + nc : bounds.xmin_ + nc;
+    if (transformed_pt.x >= bounds.xmax_) transformed_pt.x = bounds.xmin_;
 
     nc = fmod(data[1] - bounds.ymin_, bounds.y_extent_);
     transformed_pt.y = nc < 0 ? bounds.ymax_ + nc : bounds.ymin_ + nc; 
+    if (transformed_pt.y >= bounds.ymax_) transformed_pt.y = bounds.ymin_;
 }
 
 template <typename PointType>
@@ -118,12 +124,15 @@ void transformXYZ(const PointType* pt, Point<PointType>& transformed_pt, const B
 
     coord_type nc = fmod((data[0] - bounds.xmin_), bounds.x_extent_);
     transformed_pt.x = nc < 0 ? bounds.xmax_ + nc : bounds.xmin_ + nc;
+    if (transformed_pt.x >= bounds.xmax_) transformed_pt.x = bounds.xmin_;
 
     nc = fmod(data[1] - bounds.ymin_, bounds.y_extent_);
     transformed_pt.y = nc < 0 ? bounds.ymax_ + nc : bounds.ymin_ + nc; 
+    if (transformed_pt.y >= bounds.ymax_) transformed_pt.y = bounds.ymin_;
 
     nc = fmod(data[2] - bounds.zmin_, bounds.z_extent_);
     transformed_pt.z = nc < 0 ? bounds.zmax_ + nc : bounds.zmin_ + nc;
+    if (transformed_pt.z >= bounds.zmax_) transformed_pt.z = bounds.zmin_;
 }
 
 template<typename PointType>
-- 
2.43.0


From c2f348328d6fe4ed795d38c986f2b21e197e1f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:01 +0000
Subject: [PATCH 09/50] fix: periodic 1D and 2D transforms set every coordinate
 of their result

The unused dimensions kept whatever an earlier query had left in the working point.
---
 src/repast4py/borders.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/repast4py/borders.h b/src/repast4py/borders.h
index 38a75fd..21d2113 100644
--- a/src/repast4py/borders.h
+++ b/src/repast4py/borders.h
@@ -101,6 +101,8 @@ void transformX(const PointType* pt, Point<PointType>& transformed_pt, const Bou
     coord_type nc = fmod((data[0] - bounds.xmin_), bounds.x_extent_);
     transformed_pt.x = nc < 0 ? bounds.xmax_ + nc : bounds.xmin_ + nc;
     if (transformed_pt.x >= bounds.xmax_) transformed_pt.x = bounds.xmin_;
+    transformed_pt.y = bounds.ymin_;
+    transformed_pt.z = bounds.zmin_;
 }
 
 template <typename PointType>
@@ -115,6 +117,7 @@ void transformXY(const PointType* pt, Point<PointType>& transformed_pt, const Bo
     nc = fmod(data[1] - bounds.ymin_, bounds.y_extent_);
     transformed_pt.y = nc < 0 ? bounds.ymax_ + nc : bounds.ymin_ + nc; 
     if (transformed_pt.y >= bounds.ymax_) transformed_pt.y = bounds.ymin_;
+    transformed_pt.z = bounds.zmin_;
 }
 
 template <typename PointType>
-- 
2.43.0


From 2002d636344afcff2bc3e15e3773ed5492e33c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:01 +0000
Subject: [PATCH 10/50] fix: sticky continuous borders stay inside bounds with
 large coordinates

---
 src/repast4py/borders.h | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/repast4py/borders.h b/src/repast4py/borders.h
index 21d2113..d0cf3b5 100644
--- a/src/repast4py/borders.h
+++ b/src/repast4py/borders.h
@@ -7,6 +7,10 @@
 #ifndef SRC_BORDERS_H
 #define SRC_BORDERS_H
 
+#include <algorithm>
+#include <cmath>
+#include <limits>
+
 #include "types.h"
 #include "geometry.h"
 
@@ -42,11 +46,16 @@ struct Offset {
 template<>
 struct Offset<R4Py_DiscretePoint> {
     constexpr static long_t value = 1;
+    static long_t last(long_t max) { return max - value; }
 };
 
 template<>
 struct Offset<R4Py_ContinuousPoint> {
     constexpr static double value = 0.00000001;
+    // the offset vanishes by rounding when max is large
+    static double last(double max) {
+        return std::min(max - value, std::nextafter(max, -std::numeric_limits<double>::infinity()));
+    }
 };
 
 template <typename PointType>
@@ -64,9 +73,9 @@ void StickyBorders<PointType>::transform(const PointType* pt, PointType* transfo
     // v = (bounds_.zmax_ - 1) < data[2] ? (bounds_.zmax_ - 1) : data[2];
     // transformed_pt.z = bounds_.zmin_ > v ? bounds_.zmin_ : v;
 
-    t_data[0] = std::max((coord_type)bounds_.xmin_, std::min((coord_type)bounds_.xmax_ - Offset<PointType>::value, data[0]));
-    t_data[1] = std::max((coord_type)bounds_.ymin_, std::min((coord_type)bounds_.ymax_ - Offset<PointType>::value, data[1]));
-    t_data[2] = std::max((coord_type)bounds_.zmin_, std::min((coord_type)bounds_.zmax_ - Offset<PointType>::value, data[2]));
+    t_data[0] = std::max((coord_type)bounds_.xmin_, std::min((coord_type)Offset<PointType>::last(bounds_.xmax_), data[0]));
+    t_data[1] = std::max((coord_type)bounds_.ymin_, std::min((coord_type)Offset<PointType>::last(bounds_.ymax_), data[1]));
+    t_data[2] = std::max((coord_type)bounds_.zmin_, std::min((coord_type)Offset<PointType>::last(bounds_.zmax_), data[2]));
 }
 
 template<typename PointType>
@@ -82,9 +91,9 @@ void StickyBorders<PointType>::transform(const PointType* pt, Point<PointType>&
     // v = (bounds_.zmax_ - 1) < data[2] ? (bounds_.zmax_ - 1) : data[2];
     // transformed_pt.z = bounds_.zmin_ > v ? bounds_.zmin_ : v;
 
-    transformed_pt.x = std::max((coord_type)bounds_.xmin_, std::min((coord_type)bounds_.xmax_ - Offset<PointType>::value, data[0]));
-    transformed_pt.y = std::max((coord_type)bounds_.ymin_, std::min((coord_type)bounds_.ymax_ - Offset<PointType>::value, data[1]));
-    transformed_pt.z = std::max((coord_type)bounds_.zmin_, std::min((coord_type)bounds_.zmax_ - Offset<PointType>::value, data[2]));
+    transformed_pt.x = std::max((coord_type)bounds_.xmin_, std::min((coord_type)Offset<PointType>::last(bounds_.xmax_), data[0]));
+    transformed_pt.y = std::max((coord_type)bounds_.ymin_, std::min((coord_type)Offset<PointType>::last(bounds_.ymax_), data[1]));
+    transformed_pt.z = std::max((coord_type)bounds_.zmin_, std::min((coord_type)Offset<PointType>::last(bounds_.zmax_), data[2]));
 }
 
 using GridStickyBorders = StickyBorders<R4Py_DiscretePoint>;
-- 
2.43.0


From feeabf0d3994b64522575cc3d63fed76d4d1ee0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:43 +0000
Subject: [PATCH 11/50] fix: adding an agent to a space it is already in does
 not leave stale locations

---
 src/repast4py/distributed_space.h | 4 ++++
 src/repast4py/space.h             | 7 +++++++
 2 files changed, 11 insertions(+)

diff --git a/src/repast4py/distributed_space.h b/src/repast4py/distributed_space.h
index 0ef3894..e39abff 100644
--- a/src/repast4py/distributed_space.h
+++ b/src/repast4py/distributed_space.h
@@ -168,6 +168,7 @@ DistributedCartesianSpace<BaseSpaceType>::DistributedCartesianSpace(const std::s
 
 template<typename BaseSpaceType>
 DistributedCartesianSpace<BaseSpaceType>::~DistributedCartesianSpace() {
+    clearOOBData();
     MPI_Comm_free(&cart_comm);
 }
 
@@ -216,6 +217,9 @@ void DistributedCartesianSpace<BaseSpaceType>::getAllBounds(MPI_Comm comm) {
 
 template<typename BaseSpaceType>
 bool DistributedCartesianSpace<BaseSpaceType>::add(R4Py_Agent* agent) {
+    // the key belongs to the agent object that this one is about to replace
+    auto iter = out_of_bounds_agents->find(agent->aid);
+    if (iter != out_of_bounds_agents->end() && iter->first != agent->aid) eraseOOB(agent->aid);
     return base_space->add(agent);
 }
 
diff --git a/src/repast4py/space.h b/src/repast4py/space.h
index 829ea81..69a29fb 100644
--- a/src/repast4py/space.h
+++ b/src/repast4py/space.h
@@ -94,6 +94,13 @@ BaseSpace<PointType, AccessorType, BorderType>::~BaseSpace() {
 
 template<typename PointType, typename AccessorType, typename BorderType>
 bool BaseSpace<PointType, AccessorType, BorderType>::add(R4Py_Agent* agent) {
+    auto iter = agent_map.find(agent->aid);
+    if (iter != agent_map.end()) {
+        // already here: adding again would leave the existing location behind
+        if (iter->second->agent == agent) return false;
+        // a different agent object with the same uid replaces the current one
+        remove(iter->second->agent->aid);
+    }
     auto item = std::make_shared<SpaceItem<PointType>>();
     item->agent = agent;
     Py_INCREF(agent);
-- 
2.43.0


From eb6c0cad386cd19d3ff805ac1ec94cd23cff5562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:01 +0000
Subject: [PATCH 12/50] fix: keep agents that share a point findable in range
 queries

---
 src/repast4py/SpatialTree.h | 82 ++++++++++++++++++++-----------------
 1 file changed, 45 insertions(+), 37 deletions(-)

diff --git a/src/repast4py/SpatialTree.h b/src/repast4py/SpatialTree.h
index 2c5875b..9e8d177 100644
--- a/src/repast4py/SpatialTree.h
+++ b/src/repast4py/SpatialTree.h
@@ -8,6 +8,7 @@
 #define SRC_SPATIALTREE_
 
 #include <vector>
+#include <algorithm>
 #include <map>
 #include <limits>
 #include <numeric>
@@ -90,8 +91,8 @@ template<typename PointType>
 class MOItems {
 
 private:
-    size_t sum;
-    std::map<PointType*, size_t, PtrPointComp<PointType>> point_counts;
+    // keyed by value: the points are the agents' own locations and change when those move
+    std::map<Point<PointType>, std::vector<PointType*>, PointComp<PointType>> point_map;
 
 public:
     MOItems();
@@ -108,49 +109,55 @@ public:
 };
 
 template<typename PointType>
-MOItems<PointType>::MOItems() : sum{0}, point_counts{} {}
+MOItems<PointType>::MOItems() : point_map{} {}
 template<typename PointType>
-MOItems<PointType>::~MOItems() {}
+MOItems<PointType>::~MOItems() {
+    clear();
+}
 
 template<typename PointType>
 void MOItems<PointType>::add(PointType* pt) {
-    auto iter = point_counts.find(pt);
-    if (iter == point_counts.end()) {
-        ++sum;
-        Py_INCREF(pt);
-        point_counts.emplace(pt, 1);
-    } else {
-        ++(iter->second);
-    }
+    Point<PointType> ppt;
+    extract_coords(pt, ppt);
+    Py_INCREF(pt);
+    point_map[ppt].push_back(pt);
 }
 
 template<typename PointType>
 bool MOItems<PointType>::remove(PointType* pt) {
-    auto kv = point_counts.find(pt);
-    if (kv != point_counts.end()) {
-        --(kv->second);
-        // size_t val = --point_counts[item->pt];
-        if (kv->second == 0) {
-            Py_DECREF(kv->first);
-            point_counts.erase(kv);
-            --sum;
+    Point<PointType> ppt;
+    extract_coords(pt, ppt);
+    auto kv = point_map.find(ppt);
+    if (kv != point_map.end()) {
+        auto& pts = kv->second;
+        auto iter = std::find(pts.begin(), pts.end(), pt);
+        if (iter != pts.end()) {
+            Py_DECREF(*iter);
+            pts.erase(iter);
+            if (pts.empty()) {
+                point_map.erase(kv);
+            }
+            return true;
         }
-        return true;
-    } 
+    }
     return false;
 }
 
 template<typename PointType>
 void MOItems<PointType>::addToNode(std::shared_ptr<STNode<Box2D, R4Py_ContinuousPoint, ContinuousMOType_>> node, int threshold) {
-    for (auto& kv: point_counts) {
-        node->addItem(kv.first, threshold);
+    for (auto& kv: point_map) {
+        for (auto pt: kv.second) {
+            node->addItem(pt, threshold);
+        }
     }
 }
 
 template<typename PointType>
 void MOItems<PointType>::addToNode(std::shared_ptr<STNode<Box3D, R4Py_ContinuousPoint, ContinuousMOType_>> node, int threshold) {
-    for (auto& kv: point_counts) {
-        node->addItem(kv.first, threshold);
+    for (auto& kv: point_map) {
+        for (auto pt: kv.second) {
+            node->addItem(pt, threshold);
+        }
     }
 }
 
@@ -158,11 +165,9 @@ template<typename PointType>
 void MOItems<PointType>::getObjectsWithin(const BoundingBox& box, MOMapType* loc_map,
     std::shared_ptr<std::vector<R4Py_Agent*>>& agents) {
 
-    Point<R4Py_ContinuousPoint> ppt;
-    for (auto& kv : point_counts) {
-        if (box.contains(kv.first)) {
-            extract_coords(kv.first, ppt);
-            auto& agent_lst = (*loc_map)[ppt];
+    for (auto& kv : point_map) {
+        if (box.contains(kv.second.front())) {
+            auto& agent_lst = (*loc_map)[kv.first];
             agents->insert(agents->end(), agent_lst->begin(), agent_lst->end());
         }
     }
@@ -182,16 +187,17 @@ void MOItems<PointType>::getObjectsWithin(const BoundingBox& box, MOMapType* loc
 
 template<typename PointType>
 size_t MOItems<PointType>::size() const {
-    return sum;
+    return point_map.size();
 }
 
 template<typename PointType>
 void MOItems<PointType>::clear() {
-    for (auto& kv: point_counts) {
-        Py_DECREF(kv.first);
+    for (auto& kv: point_map) {
+        for (auto pt: kv.second) {
+            Py_DECREF(pt);
+        }
     }
-    point_counts.clear();
-    sum = 0;
+    point_map.clear();
 }
 
 
@@ -220,7 +226,9 @@ template<typename PointType>
 SOItems<PointType>::SOItems() : points{} {}
 
 template<typename PointType>
-SOItems<PointType>::~SOItems() {}
+SOItems<PointType>::~SOItems() {
+    clear();
+}
 
 template<typename PointType>
 void SOItems<PointType>::add(PointType* pt) {
-- 
2.43.0


From e50e1d1c87ae2200189103c3eb06c2bb9eea1f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:29 +0000
Subject: [PATCH 13/50] fix: range query order in single occupancy spaces does
 not depend on addresses

---
 src/repast4py/SpatialTree.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/repast4py/SpatialTree.h b/src/repast4py/SpatialTree.h
index 9e8d177..c3c0aeb 100644
--- a/src/repast4py/SpatialTree.h
+++ b/src/repast4py/SpatialTree.h
@@ -205,7 +205,8 @@ template<typename PointType>
 class SOItems {
 
 private:
-    std::set<PointType*> points;
+    // ordered by location so that query results do not depend on memory addresses
+    std::set<PointType*, PtrPointComp<PointType>> points;
 
 public:
     SOItems();
-- 
2.43.0


From 8537408b3766142b5d1504ba49c908a8922acf00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:29 +0000
Subject: [PATCH 14/50] fix: agent iterators stay valid when agents move or are
 removed during iteration

---
 src/repast4py/core.h         | 22 ++++++++++++++++------
 src/repast4py/coremodule.cpp |  8 ++++----
 2 files changed, 20 insertions(+), 10 deletions(-)

diff --git a/src/repast4py/core.h b/src/repast4py/core.h
index 7e69d80..a9e9b1c 100644
--- a/src/repast4py/core.h
+++ b/src/repast4py/core.h
@@ -12,6 +12,7 @@
 
 #include <list>
 #include <memory>
+#include <vector>
 
 #include "types.h"
 
@@ -57,16 +58,18 @@ struct R4Py_AgentIter {
     AgentIter* iter;
 };
 
+// Iterates over the agents that were in the iterable when the iterator was created. Moving or
+// removing agents during the iteration changes the iterable, and may release the agents.
 template<typename IterableT>
 class TAgentIter : public AgentIter {
 
 private:
-    std::shared_ptr<IterableT> iterable_;
-    typename IterableT::iterator iter_;
+    std::vector<R4Py_Agent*> agents_;
+    std::vector<R4Py_Agent*>::iterator iter_;
 
 public:
     TAgentIter(std::shared_ptr<IterableT>);
-    virtual ~TAgentIter() {}
+    virtual ~TAgentIter();
 
     R4Py_Agent* next() override;
     bool hasNext() override;
@@ -75,16 +78,23 @@ public:
 
 template<typename IterableT>
 TAgentIter<IterableT>::TAgentIter(std::shared_ptr<IterableT> iterable) : AgentIter(),
-    iterable_{iterable}, iter_(iterable_->begin()) {}
+    agents_(iterable->begin(), iterable->end()), iter_(agents_.begin()) {
+    for (auto agent : agents_) Py_INCREF(agent);
+}
+
+template<typename IterableT>
+TAgentIter<IterableT>::~TAgentIter() {
+    for (auto agent : agents_) Py_DECREF(agent);
+}
 
 template<typename IterableT>
 bool TAgentIter<IterableT>::hasNext() {
-    return iter_ != iterable_->end();
+    return iter_ != agents_.end();
 }
 
 template<typename IterableT>
 void TAgentIter<IterableT>::reset() {
-    iter_ = iterable_->begin();
+    iter_ = agents_.begin();
 }
 
 template<typename IterableT>
diff --git a/src/repast4py/coremodule.cpp b/src/repast4py/coremodule.cpp
index 8ab1a32..54009b4 100644
--- a/src/repast4py/coremodule.cpp
+++ b/src/repast4py/coremodule.cpp
@@ -35,12 +35,12 @@ static PyObject* AgentIter_new(PyTypeObject* type, PyObject* args, PyObject* kwd
 
 static PyObject* AgentIter_iter(R4Py_AgentIter* self) {
     Py_INCREF(self);
-    self->iter->reset();
+    if (self->iter) self->iter->reset();
     return (PyObject*) self;
 }
 
 static PyObject* AgentIter_next(R4Py_AgentIter* self) {
-    if (!self->iter->hasNext()) {
+    if (!self->iter || !self->iter->hasNext()) {
         PyErr_SetNone(PyExc_StopIteration);
         return NULL;
     }
@@ -108,12 +108,12 @@ static PyObject* PyObjectIter_new(PyTypeObject* type, PyObject* args, PyObject*
 
 static PyObject* PyObjectIter_iter(R4Py_PyObjectIter* self) {
     Py_INCREF(self);
-    self->iter->reset();
+    if (self->iter) self->iter->reset();
     return (PyObject*) self;
 }
 
 static PyObject* PyObjectIter_next(R4Py_PyObjectIter* self) {
-    if (!self->iter->hasNext()) {
+    if (!self->iter || !self->iter->hasNext()) {
         PyErr_SetNone(PyExc_StopIteration);
         return NULL;
     }
-- 
2.43.0


From 6bfb666d855d486eb27ff84c09ec439d0898df6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:35 +0000
Subject: [PATCH 15/50] fix: agent construction stays in bounds of its id and
 rejects invalid ranks

---
 src/repast4py/coremodule.cpp | 40 +++++++++++++++++++++++++-----------
 1 file changed, 28 insertions(+), 12 deletions(-)

diff --git a/src/repast4py/coremodule.cpp b/src/repast4py/coremodule.cpp
index 54009b4..2de0045 100644
--- a/src/repast4py/coremodule.cpp
+++ b/src/repast4py/coremodule.cpp
@@ -12,6 +12,7 @@
 #include "coremodule.h"
 
 #include <new>
+#include <climits>
 #include "structmember.h"
 
 #include "core.h"
@@ -184,12 +185,13 @@ static PyObject* Agent_new(PyTypeObject* type, PyObject* args, PyObject* kwds) {
             self->aid->rank = 0;
             self->local_rank = 0;
 
-            // self->aid->as_tuple = PyTuple_New(3);
-            // if (!self->aid->as_tuple) {
-            //     delete self->aid;
-            //     Py_TYPE(self)->tp_free((PyObject*)self);
-            //     self = NULL;
-            // }
+            // replaced in Agent_init, which a subclass may fail to call
+            self->aid->as_tuple = Py_BuildValue("(iii)", -1, -1, 0);
+            if (!self->aid->as_tuple) {
+                delete self->aid;
+                Py_TYPE(self)->tp_free((PyObject*)self);
+                self = NULL;
+            }
         } else {
             Py_TYPE(self)->tp_free((PyObject*)self);
             self = NULL;
@@ -202,24 +204,38 @@ static PyObject* Agent_new(PyTypeObject* type, PyObject* args, PyObject* kwds) {
 
 static int Agent_init(R4Py_Agent* self, PyObject* args, PyObject* kwds) {
     static char* kwlist[] = {(char*)"id", (char*)"type", (char*)"rank", NULL};
+    long_t id;
+    int type;
+    long rank = self->aid->rank;
     #if defined(_MSC_VER)
-    if (!PyArg_ParseTupleAndKeywords(args, kwds, "Li|l", kwlist, &self->aid->id, &self->aid->type, &self->aid->rank)) {
+    if (!PyArg_ParseTupleAndKeywords(args, kwds, "Li|l", kwlist, &id, &type, &rank)) {
     # else
-    if (!PyArg_ParseTupleAndKeywords(args, kwds, "li|l", kwlist, &self->aid->id, &self->aid->type, &self->aid->rank)) {
+    if (!PyArg_ParseTupleAndKeywords(args, kwds, "li|l", kwlist, &id, &type, &rank)) {
     #endif
         return -1;
     }
-    self->local_rank = self->aid->rank;
-    if (self->aid->type < 0) {
+    if (type < 0) {
         PyErr_SetString(PyExc_ValueError, "Type component of agent unique id must be a non-negative integer");
         return -1;
     }
+    if (rank < 0 || (unsigned long)rank > UINT_MAX) {
+        PyErr_SetString(PyExc_ValueError, "Rank component of agent unique id must be a non-negative integer");
+        return -1;
+    }
     // TODO - maybe build this with PyTuple_New rather than parse the format string
     #if defined(_MSC_VER)
-    self->aid->as_tuple = Py_BuildValue("(LiI)", self->aid->id, self->aid->type, self->aid->rank);
+    PyObject* as_tuple = Py_BuildValue("(LiI)", id, type, (unsigned int)rank);
     #else
-    self->aid->as_tuple = Py_BuildValue("(liI)", self->aid->id, self->aid->type, self->aid->rank);
+    PyObject* as_tuple = Py_BuildValue("(liI)", id, type, (unsigned int)rank);
     #endif
+    if (!as_tuple) {
+        return -1;
+    }
+    self->aid->id = id;
+    self->aid->type = type;
+    self->aid->rank = (unsigned int)rank;
+    self->local_rank = self->aid->rank;
+    Py_XSETREF(self->aid->as_tuple, as_tuple);
     return 0;
 }
 
-- 
2.43.0


From cd38e32228e5b3f48f955a51988a46c29b6a995e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:44 +0000
Subject: [PATCH 16/50] fix: shared value layers buffer their neighbors' values
 on every topology

The buffers of several areas exchanged with the same neighbor overwrote each other, and
areas were put in the grid according to assumptions on their order and on the origin of
the bounds. Points are now transformed with the full bounds and then translated to the
rank's grid, so that buffered values across a periodic border can be read.
---
 src/repast4py/value_layer.py | 240 ++++++++++++++++++-----------------
 1 file changed, 122 insertions(+), 118 deletions(-)

diff --git a/src/repast4py/value_layer.py b/src/repast4py/value_layer.py
index 921f9c6..94b3e5a 100644
--- a/src/repast4py/value_layer.py
+++ b/src/repast4py/value_layer.py
@@ -426,34 +426,8 @@ def _compute_meta_data_counts(meta_data, num_dims, offset, num_slices):
     of the metadata (data used to synchronize among ranks) arrays is different. This
     computes the size of the arrays.
     """
-    if num_slices == 1:
-        return np.apply_along_axis(lambda row: np.prod(row[:num_dims]), 1, meta_data)
-    elif num_slices == 2:
-        # return meta_data[:, 0] + meta_data[:, offset]
-        return np.apply_along_axis(
-            lambda row: np.prod(row[:num_dims]) + np.prod(row[offset: offset + num_dims]), 1, meta_data)
-    elif num_slices == 3:
-        return np.apply_along_axis(
-            lambda row: np.prod(row[:num_dims])
-            + np.prod(row[offset: offset + num_dims])
-            + np.prod(row[offset * 2: offset * 2 + num_dims]),
-            1, meta_data)
-    elif num_slices == 4:
-        return np.apply_along_axis(
-            lambda row: np.prod(row[:num_dims])
-            + np.prod(row[offset: offset + num_dims])
-            + np.prod(row[offset * 2: offset * 2 + num_dims])
-            + np.prod(row[offset * 3: offset * 3 + num_dims]),
-            1, meta_data)
-    elif num_slices == 6:
-        return np.apply_along_axis(
-            lambda row: np.prod(row[:num_dims])
-            + np.prod(row[offset: offset + num_dims])
-            + np.prod(row[offset * 2: offset * 2 + num_dims])
-            + np.prod(row[offset * 3: offset * 3 + num_dims])
-            + np.prod(row[offset * 4: offset * 4 + num_dims])
-            + np.prod(row[offset * 5: offset * 5 + num_dims]),
-            1, meta_data)
+    return np.apply_along_axis(
+        lambda row: sum(np.prod(row[offset * i: offset * i + num_dims]) for i in range(num_slices)), 1, meta_data)
 
 
 class SharedValueLayer(ValueLayer):
@@ -504,22 +478,26 @@ class SharedValueLayer(ValueLayer):
             self.buffered_bounds = self.local_bounds
             self.non_buff_grid_offsets = np.zeros(6, dtype=np.int32)
 
-        super().__init__(self.buffered_bounds, borders, 'random', dtype)
+        # torch.rand only supports floating point types
+        super().__init__(self.buffered_bounds, borders, 'random' if dtype.is_floating_point or init_value == 'random' else 0, dtype)
 
         nd = 1 if bounds.yextent == 0 else (3 if bounds.zextent > 0 else 2)
         if nd == 3:
             raise ValueError("3D SharedValueLayer is not yet supported")
 
-        mins = [bounds.xmin, bounds.ymin, bounds.zmin]
-        self.buffer_self = []
+        # points are transformed with respect to the full bounds, and then translated into this
+        # rank's buffered grid
+        self.impl.borders = GridPeriodicBorders(bounds) if self.periodic else GridStickyBorders(bounds)
+        local_mins = [self.local_bounds.xmin, self.local_bounds.ymin, self.local_bounds.zmin]
+        for i in range(0, nd):
+            self.impl.pt_translation[i] = self.non_buff_grid_offsets[i * 2] - local_mins[i]
+        self.full_extents = [bounds.xextent, bounds.yextent][:nd]
         if self.periodic:
-            for i in range(0, nd):
-                if self.impl.pt_translation[i] == 0:
-                    self.impl.pt_translation[i] = buffer_size - mins[i]
-
-            if len(self.procs_per_dim) == 1 and self.procs_per_dim[0] == 1:
-                self.buffer_self.append(self._buffer_self_X)
+            self.impl.min_max = np.array([bounds.xmin, bounds.xmin + bounds.xextent - 1,
+                                          bounds.ymin, bounds.ymin + bounds.yextent - 1][:nd * 2])
 
+        self.buffer_self = []
+        if self.periodic and comm.Get_size() > 1 and buffer_size > 0:
             if len(self.procs_per_dim) == 2:
                 if self.procs_per_dim[0] == 1:
                     self.buffer_self.append(self._buffer_self_X)
@@ -572,25 +550,92 @@ class SharedValueLayer(ValueLayer):
         for func in self.buffer_self:
             func()
 
-    def _wrap_slice_vals(self, start_val, end_val, full_extent, local_extent, procs_per_dim):
-        if procs_per_dim > 1:
-            if start_val < 0:
-                start_val += full_extent
-                end_val += full_extent
-            elif start_val >= full_extent:
-                start_val -= full_extent
-                end_val -= full_extent
+    def _compute_recv_slices(self, bounds):
+        """Computes where the values of the area with the specified bounds should be put in this rank's grid.
+
+        When the borders are periodic, the same location can be buffered in more than one place.
+
+        Args:
+            bounds: the min (inclusive) and max (exclusive) of the received area in x, y order.
+        Returns:
+            A list of tuples of slices into the grid, and slices into the received area, both in row major order.
+        """
+        slices = [((), ())]
+        for i in range(0, len(bounds) // 2):
+            size = self.grid.shape[-1 - i]
+            start = bounds[i * 2] + self.impl.pt_translation[i]
+            stop = bounds[i * 2 + 1] + self.impl.pt_translation[i]
+            shifts = [-self.full_extents[i], 0, self.full_extents[i]] if self.periodic else [0]
+            dim_slices = []
+            for shift in shifts:
+                first = max(0, start + shift)
+                last = min(size, stop + shift)
+                if first < last:
+                    dim_slices.append((slice(first, last), slice(first - start - shift, last - start - shift)))
+            slices = [((grid_slice,) + g, (recv_slice,) + r) for g, r in slices for grid_slice, recv_slice in dim_slices]
+        return slices
+
+    def _to_grid_index(self, pt, i: int):
+        """Transforms the specified dimension of a location within the full bounds to an index into this rank's grid.
+
+        Args:
+            pt: the location's coordinates
+            i: the dimension (0 is x, 1 is y)
+        """
+        idx = pt[i] + self.impl.pt_translation[i]
+        size = self.grid.shape[-1 - i]
+        if self.periodic:
+            # location may be in the area buffered from the opposite side
+            idx = np.where(idx < 0, idx + self.full_extents[i], np.where(idx >= size, idx - self.full_extents[i], idx))
+        if np.any(idx < 0) or np.any(idx >= size):
+            raise IndexError(f'Location is outside of the buffered bounds {self.buffered_bounds}')
+        return idx
+
+    def _get_index(self, pt: DiscretePoint):
+        self.impl.borders._transform(pt, self.impl.tpt)
+        coords = self.impl.tpt.coordinates
+        return tuple(int(self._to_grid_index(coords, i)) for i in reversed(range(0, self.grid.dim())))
+
+    def get(self, pt: DiscretePoint):
+        """Gets the value at the specified point
+
+        Args:
+            pt: the location to get the value of
 
-        elif start_val == local_extent and self.periodic:
-            start_val = start_val + self.buffer_size
-            end_val = end_val + self.buffer_size
+        Returns:
+            The value at the specified location.
+        """
+        return self.grid[self._get_index(pt)]
 
-        return (start_val, end_val)
+    def set(self, pt: DiscretePoint, val):
+        """Sets the value at the specified location
+
+        Args:
+            pt: the location to set the value of
+            val: the value to set the location to
+        """
+        self.grid[self._get_index(pt)] = val
+
+    def get_nghs(self, pt: DiscretePoint) -> Tuple:
+        """Gets the neighboring values and locations around the specified point.
+
+        Args:
+            pt: the point whose neighbors to get
+
+        Returns:
+            Tuple: A two elelment tuple consisting of the neighboring values as a pytorch tensor, and
+            the neighboring locations as a np.array: (values, ngh_locations). The first value in
+            the values tensor is the value of the first location in the ngh_locations array, and so forth.
+        """
+        nghs = self.impl.ngh_finder(pt.coordinates, self.impl.min_max)
+        pts = [nghs] if self.grid.dim() == 1 else nghs
+        idx = tuple(torch.as_tensor(self._to_grid_index(pts, i)) for i in reversed(range(0, self.grid.dim())))
+        return (self.grid[idx], nghs)
 
     def _init_buffered_bounds(self, bounds, buffer_size, periodic):
-        xmin, xextent = 0, 0
-        ymin, yextent = 0, 0
-        zmin, zextent = 0, 0
+        xmin, xextent = bounds.xmin, 0
+        ymin, yextent = bounds.ymin, 0
+        zmin, zextent = bounds.zmin, 0
         # offsets from buffered grid into the local grid data
         self.non_buff_grid_offsets = np.zeros(6, dtype=np.int32)
 
@@ -683,9 +728,10 @@ class SharedValueLayer(ValueLayer):
                 (ngh_rank, shape[0], shape, bounds, (slice(row, stop_row),)))
 
         ngh_buffers.sort(key=lambda data: data[0])
-        buf_dtype = self.grid[ngh_buffers[0][4]].numpy().dtype
+        buf_dtype = self.grid.numpy().dtype
 
-        data_size = 3 if topo.procs_per_dim[0] != 2 and self.periodic else 6
+        # a rank can be a neighbor on both sides
+        data_size = 6
 
         num_procs = self.cart_comm.Get_size()
         meta_data_send = np.zeros((num_procs, data_size), dtype=np.int32)
@@ -720,22 +766,13 @@ class SharedValueLayer(ValueLayer):
         for ngh_rank, data in enumerate(self.ngh_meta_data_recv):
             slice_data = []
             if data[0] != 0:
-                row = data[1] + r_trans
-                # origin + extent
-                stop_row = row + (data[2] - data[1])
-                row, stop_row = self._wrap_slice_vals(row, stop_row, self.full_bounds.xextent, self.local_bounds.xextent,
-                                                      self.procs_per_dim[0])
-                slice_data.append((ngh_rank, data[0], data[0], (slice(row, stop_row),)))
+                slice_data.append((ngh_rank, data[0], data[:1], self._compute_recv_slices(data[1: 3])))
 
                 for i in range(1, num_sent_slices):
                     idx = offset * i
                     if data[idx] != 0:
-                        row = data[idx + 1] + r_trans
-                        # origin + extent
-                        stop_row = row + (data[idx + 2] - data[idx + 1])
-                        row, stop_row = self._wrap_slice_vals(row, stop_row, self.full_bounds.xextent, self.local_bounds.xextent,
-                                                              self.procs_per_dim[0])
-                        slice_data.append((ngh_rank, data[idx], data[idx], (slice(row, stop_row),)))
+                        slice_data.append((ngh_rank, data[idx], data[idx: idx + 1],
+                                           self._compute_recv_slices(data[idx + 1: idx + 3])))
                     else:
                         break
             if len(slice_data) > 0:
@@ -765,19 +802,12 @@ class SharedValueLayer(ValueLayer):
 
         # sort by rank of receiving neighbor
         ngh_buffers.sort(key=lambda data: data[0])
-        buf_dtype = self.grid[ngh_buffers[0][4]].numpy().dtype
+        buf_dtype = self.grid.numpy().dtype
         num_procs = self.cart_comm.Get_size()
 
         offset = 6
-        data_size = offset
-        if self.periodic:
-            if topo.procs_per_dim[0] == 2 and topo.procs_per_dim[1] == 2:
-                data_size = 24
-            elif topo.procs_per_dim[0] == 2 or topo.procs_per_dim[1] == 2:
-                if num_procs == 2:
-                    data_size = 36
-                else:
-                    data_size = 12
+        # a rank can be a neighbor in up to 8 directions
+        data_size = offset * 8
 
         # send buffer for meta data (bounds etc.)
         meta_data_send = np.zeros((num_procs, data_size), dtype=np.int32)
@@ -807,44 +837,19 @@ class SharedValueLayer(ValueLayer):
         recv_buf = np.empty(np.sum(recv_counts), dtype=buf_dtype)
         recv_buf_data = []
 
-        rts = [r_trans for _ in range(num_sent_slices)]
-        cts = [c_trans for _ in range(num_sent_slices)]
-        if topo.procs_per_dim[0] == 1:
-            cts = [0, 0, 0, 0, c_trans, c_trans]
-        elif topo.procs_per_dim[1] == 1:
-            rts = [0, r_trans, 0, r_trans, r_trans, r_trans]
-
         for ngh_rank, data in enumerate(self.ngh_meta_data_recv):
             # data: shape, pytorch_ordered bounds [ 2 30  0 30 80 82  0  0]
             slice_data = []
             if data[0] != 0:
-                row = data[2] + rts[0]
-                col = data[4] + cts[0]
-                # origin + extent
-                stop_row = row + (data[3] - data[2])
-                stop_col = col + (data[5] - data[4])
-
-                row, stop_row = self._wrap_slice_vals(row, stop_row, self.full_bounds.yextent, self.local_bounds.yextent,
-                                                      self.procs_per_dim[1])
-                col, stop_col = self._wrap_slice_vals(col, stop_col, self.full_bounds.xextent, self.local_bounds.xextent,
-                                                      self.procs_per_dim[0])
-                slice_data.append((ngh_rank, np.prod(data[:2]), data[:2], (slice(row, stop_row), slice(col, stop_col))))
+                # bounds are in row major order
+                slice_data.append((ngh_rank, np.prod(data[:2]), data[:2],
+                                   self._compute_recv_slices([data[4], data[5], data[2], data[3]])))
 
                 for i in range(1, num_sent_slices):
                     idx = offset * i
                     if data[idx] != 0:
-                        row = data[idx + 2] + rts[i]
-                        col = data[idx + 4] + cts[i]
-                        # origin + extent
-                        stop_row = row + (data[idx + 3] - data[idx + 2])
-                        stop_col = col + (data[idx + 5] - data[idx + 4])
-
-                        row, stop_row = self._wrap_slice_vals(row, stop_row, self.full_bounds.yextent,
-                                                              self.local_bounds.yextent, self.procs_per_dim[1])
-                        col, stop_col = self._wrap_slice_vals(col, stop_col, self.full_bounds.xextent,
-                                                              self.local_bounds.xextent, self.procs_per_dim[0])
                         slice_data.append((ngh_rank, np.prod(data[idx: idx + 2]), data[idx: idx + 2],
-                                          (slice(row, stop_row), slice(col, stop_col))))
+                                           self._compute_recv_slices([data[idx + 4], data[idx + 5], data[idx + 2], data[idx + 3]])))
                     else:
                         break
 
@@ -875,7 +880,7 @@ class SharedValueLayer(ValueLayer):
                 (ngh_rank, np.prod(shape), shape, bounds, (slice(row, stop_row), slice(col, stop_col), slice(z, stop_z))))
 
         ngh_buffers.sort(key=lambda data: data[0])
-        buf_dtype = self.grid[ngh_buffers[0][4]].numpy().dtype
+        buf_dtype = self.grid.numpy().dtype
 
         num_procs = self.cart_comm.Get_size()
         meta_data_send = np.zeros((num_procs, 18), dtype=np.int32)
@@ -960,32 +965,31 @@ class SharedValueLayer(ValueLayer):
         # self.send_data = ((send_buf, (send_counts, send_displs)), ngh_buffers)
         # self.recv_data = ((recv_buf, (recv_counts, recv_displs)), recv_buf_data)
         # ngh_buffers: (ngh_rank, size, shape, bounds, slice_tuple)
-        # recv_buf_data: (ngh_rank, shape, slice_tuple)
+        # recv_buf_data: (ngh_rank, size, shape, list of (grid slices, received area slices))
 
         # fill send buffer from grid view
         send_msg, ngh_buffers = self.send_data
-        send_displs = send_msg[1][1]
+        send_displs = send_msg[1][1].copy()
         send_buf = send_msg[0]
         for ngh_rank, size, _, _, tslice in ngh_buffers:
             disp = send_displs[ngh_rank]
             send_buf[disp: disp + size] = self.grid[tslice].numpy().reshape(size)
+            # more than one area can be sent to the same neighbor
+            send_displs[ngh_rank] += size
 
         self.cart_comm.Alltoallv(self.send_data[0], self.recv_data[0])
 
         # update grid view from recv_buffer
         recv_msg, recv_buf_data = self.recv_data
-        recv_displs = recv_msg[1][1]
+        recv_displs = recv_msg[1][1].copy()
         recv_buf = recv_msg[0]
         for items in recv_buf_data:
-            for ngh_rank, size, shape, tslice in items:
-                try:
-                    disp = recv_displs[ngh_rank]
-                    self.grid[tslice] = torch.as_tensor(
-                        recv_buf[disp: disp + size].reshape(shape))
-
-                except Exception:
-                    print(self.rank, ngh_rank, size, shape, tslice)
-                    raise
+            for ngh_rank, size, shape, slices in items:
+                disp = recv_displs[ngh_rank]
+                values = torch.as_tensor(recv_buf[disp: disp + size].reshape(tuple(shape)))
+                for grid_slice, recv_slice in slices:
+                    self.grid[grid_slice] = values[recv_slice]
+                recv_displs[ngh_rank] += size
         self._buffer_self()
 
 
-- 
2.43.0


From c9029214f0e90e4884b086ea09cd7c63bcede896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:44 +0000
Subject: [PATCH 17/50] fix: neighbors and synchronization of a
 ReadWriteValueLayer in a context

---
 src/repast4py/value_layer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/repast4py/value_layer.py b/src/repast4py/value_layer.py
index 94b3e5a..09a65c8 100644
--- a/src/repast4py/value_layer.py
+++ b/src/repast4py/value_layer.py
@@ -1090,7 +1090,7 @@ class ReadWriteValueLayer:
             the neighboring locations as a np.array: (values, ngh_locations). The first value in
             the values tensor is the value of the first location in the ngh_locations array, and so forth.
         """
-        return self.read.get_nghs(pt)
+        return self.read_layer.get_nghs(pt)
 
     def _pre_synch_ghosts(self, agent_manager: AgentManager):
         """Called prior to synchronizing ghosts and before any cross-rank movement
@@ -1101,7 +1101,7 @@ class ReadWriteValueLayer:
         """
         pass
 
-    def _synch_ghosts(self, agent_manager: AgentManager, create_agent: Callable):
+    def _synch_ghosts(self, agent_manager: AgentManager = None, create_agent: Callable = None):
         """Synchronizes the ghosted buffer parts of the read and write value layers.
 
         Args:
-- 
2.43.0


From 972558220885ca319315dde0a1e8d17a2c74f60b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:57 +0000
Subject: [PATCH 18/50] fix: restarting an agent iterator iterates over the
 current agents

---
 src/repast4py/core.h    | 9 +++++++--
 src/repast4py/space.cpp | 2 ++
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/repast4py/core.h b/src/repast4py/core.h
index a9e9b1c..5dcf002 100644
--- a/src/repast4py/core.h
+++ b/src/repast4py/core.h
@@ -58,12 +58,13 @@ struct R4Py_AgentIter {
     AgentIter* iter;
 };
 
-// Iterates over the agents that were in the iterable when the iterator was created. Moving or
+// Iterates over the agents that were in the iterable when the iteration started. Moving or
 // removing agents during the iteration changes the iterable, and may release the agents.
 template<typename IterableT>
 class TAgentIter : public AgentIter {
 
 private:
+    std::shared_ptr<IterableT> iterable_;
     std::vector<R4Py_Agent*> agents_;
     std::vector<R4Py_Agent*>::iterator iter_;
 
@@ -78,7 +79,7 @@ public:
 
 template<typename IterableT>
 TAgentIter<IterableT>::TAgentIter(std::shared_ptr<IterableT> iterable) : AgentIter(),
-    agents_(iterable->begin(), iterable->end()), iter_(agents_.begin()) {
+    iterable_{iterable}, agents_(iterable->begin(), iterable->end()), iter_(agents_.begin()) {
     for (auto agent : agents_) Py_INCREF(agent);
 }
 
@@ -94,7 +95,11 @@ bool TAgentIter<IterableT>::hasNext() {
 
 template<typename IterableT>
 void TAgentIter<IterableT>::reset() {
+    std::vector<R4Py_Agent*> agents(iterable_->begin(), iterable_->end());
+    for (auto agent : agents) Py_INCREF(agent);
+    agents_.swap(agents);
     iter_ = agents_.begin();
+    for (auto agent : agents) Py_DECREF(agent);
 }
 
 template<typename IterableT>
diff --git a/src/repast4py/space.cpp b/src/repast4py/space.cpp
index 362a962..5e329a3 100644
--- a/src/repast4py/space.cpp
+++ b/src/repast4py/space.cpp
@@ -12,6 +12,8 @@ void decref(AgentListPtr& agent_list) {
     for (auto iter = agent_list->begin(); iter != agent_list->end(); ++iter)  {
         Py_DECREF(*iter);
     }
+    // an iterator may share the list
+    agent_list->clear();
 }
 
 void decref(R4Py_Agent* agent) {
-- 
2.43.0


From b9769475a853db63d59eae04ed79edd15e1a46f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:02 +0000
Subject: [PATCH 19/50] fix: 1D continuous spaces have a spatial tree

Moving an agent in a 1D continuous space dereferenced a null spatial tree.
---
 src/repast4py/SpatialTree.h | 4 +---
 src/repast4py/cspace.h      | 4 +---
 2 files changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/repast4py/SpatialTree.h b/src/repast4py/SpatialTree.h
index c3c0aeb..6875fb7 100644
--- a/src/repast4py/SpatialTree.h
+++ b/src/repast4py/SpatialTree.h
@@ -608,9 +608,7 @@ SpatialTree<BoxType, PointType, AccessorType>::SpatialTree(int threshold, const
     threshold_{threshold},  loc_map_{loc_map} {
 
     NodePoint min(box.xmin_, box.ymin_, box.zmin_);
-    if (box.num_dims == 1) {
-        // TODO 
-    } else if (box.num_dims == 2) {
+    if (box.num_dims == 1 || box.num_dims == 2) {
         root = std::make_shared<Composite2DNode<BoxType, PointType, AccessorType>>(min, box.x_extent_, box.y_extent_);
     } else if (box.num_dims == 3) {
         // std::cout << box.xmin_ << "," << box.ymin_ << "," << box.zmin_ << "," << box.z_extent_ << std::endl;
diff --git a/src/repast4py/cspace.h b/src/repast4py/cspace.h
index cdb1e32..2a5cc8d 100644
--- a/src/repast4py/cspace.h
+++ b/src/repast4py/cspace.h
@@ -47,9 +47,7 @@ BaseCSpace<AccessorType, BorderType>::BaseCSpace(const std::string& name, const
     //using Tree2DType = CPSpatialTreeImpl<SpatialTree<Box2D, R4Py_ContinuousPoint, AccessorType>>;
     // using Tree3DType = CPSpatialTreeImpl<SpatialTree<Box3D, R4Py_ContinuousPoint, AccessorType>>;
 
-    if (bounds.num_dims == 1) {
-        // TODO 
-    } else if (bounds.num_dims == 2) {
+    if (bounds.num_dims == 1 || bounds.num_dims == 2) {
         spatial_tree = std::unique_ptr<CPSpatialTree>(new CPSpatialTreeImpl<SpatialTree<Box2D, R4Py_ContinuousPoint,
             AccessorType>>(tree_threshold, bounds, &location_map));
     } else if (bounds.num_dims == 3) {
-- 
2.43.0


From 2a242e44f42981f17095d93d7c87a2bf40b7cdaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:02 +0000
Subject: [PATCH 20/50] fix: reset points from strided arrays

---
 src/repast4py/spacemodule.cpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/repast4py/spacemodule.cpp b/src/repast4py/spacemodule.cpp
index 890941f..1a41a6d 100644
--- a/src/repast4py/spacemodule.cpp
+++ b/src/repast4py/spacemodule.cpp
@@ -153,19 +153,19 @@ static PyObject* DiscretePoint_reset_from_array(PyObject* self, PyObject* args)
     long_t* d = (long_t*)PyArray_DATA(((R4Py_DiscretePoint*)self)->coords);
     int typ = PyArray_TYPE(arr);
     if (typ == NPY_LONG) {
-        long* o = (long*)PyArray_DATA(arr);
         for (int i = 0; i < c && i < 3; ++i) {
-            d[i] = o[i];
+            // array may be a strided view
+            d[i] = *(long*)PyArray_GETPTR1(arr, i);
         }
     } else if (typ == NPY_LONGLONG) {
-        long_t* o = (long_t*)PyArray_DATA(arr);
         for (int i = 0; i < c && i < 3; ++i) {
-            d[i] = o[i];
+            // array may be a strided view
+            d[i] = *(long_t*)PyArray_GETPTR1(arr, i);
         }
     } else if (typ == NPY_INT) {
-        int* o = (int*)PyArray_DATA(arr);
         for (int i = 0; i < c && i < 3; ++i) {
-            d[i] = o[i];
+            // array may be a strided view
+            d[i] = *(int*)PyArray_GETPTR1(arr, i);
         }
     } else {
         PyErr_SetString(PyExc_RuntimeError, "R4Py_DiscretePoint can only be reset from numpy array of integers");
@@ -403,14 +403,14 @@ static PyObject* ContinuousPoint_reset_from_array(PyObject* self, PyObject* args
     double* d = (double*)PyArray_DATA(((R4Py_ContinuousPoint*)self)->coords);
     int typ = PyArray_TYPE(arr);
     if (typ == NPY_DOUBLE) {
-        double* o = (double*)PyArray_DATA(arr);
         for (int i = 0; i < c && i < 3; ++i) {
-            d[i] = o[i];
+            // array may be a strided view
+            d[i] = *(double*)PyArray_GETPTR1(arr, i);
         }
     } else if (typ == NPY_FLOAT) {
-        float* o = (float*)PyArray_DATA(arr);
         for (int i = 0; i < c && i < 3; ++i) {
-            d[i] = o[i];
+            // array may be a strided view
+            d[i] = *(float*)PyArray_GETPTR1(arr, i);
         }
     } else {
         PyErr_SetString(PyExc_RuntimeError, "R4Py_ContinuousPoint can only be reset from numpy array of floats");
-- 
2.43.0


From 8081921b61d3a1ffc4fe9a1630f3ea8c9009bd90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:02 +0000
Subject: [PATCH 21/50] fix: check the tuple a point is reset from

---
 src/repast4py/spacemodule.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/repast4py/spacemodule.cpp b/src/repast4py/spacemodule.cpp
index 1a41a6d..7242e7f 100644
--- a/src/repast4py/spacemodule.cpp
+++ b/src/repast4py/spacemodule.cpp
@@ -127,10 +127,16 @@ static PyObject* DiscretePoint_reset(PyObject* self, PyObject* args) {
         return NULL;
     }
 
+    if (PyTuple_GET_SIZE(pt) != 3) {
+        PyErr_SetString(PyExc_ValueError, "DiscretePoint can only be reset from a 3 element tuple");
+        return NULL;
+    }
+
     d[0] = PyLong_AsLongT(PyTuple_GET_ITEM(pt, 0));
     d[1] = PyLong_AsLongT(PyTuple_GET_ITEM(pt, 1));
     d[2] = PyLong_AsLongT(PyTuple_GET_ITEM(pt, 2));
-    
+    if (PyErr_Occurred()) return NULL;
+
     Py_RETURN_NONE;
 }
 
@@ -377,9 +383,15 @@ static PyObject* ContinuousPoint_reset(PyObject* self, PyObject* args) {
         return NULL;
     }
 
+    if (PyTuple_GET_SIZE(pt) != 3) {
+        PyErr_SetString(PyExc_ValueError, "ContinuousPoint can only be reset from a 3 element tuple");
+        return NULL;
+    }
+
     d[0] = PyFloat_AsDouble(PyTuple_GET_ITEM(pt, 0));
     d[1] = PyFloat_AsDouble(PyTuple_GET_ITEM(pt, 1));
     d[2] = PyFloat_AsDouble(PyTuple_GET_ITEM(pt, 2));
+    if (PyErr_Occurred()) return NULL;
 
     Py_RETURN_NONE;
 }
-- 
2.43.0


From baecedef3ad3784c8fdb0b082dd693928e729713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:02 +0000
Subject: [PATCH 22/50] fix: release the strings created for a point's repr

---
 src/repast4py/spacemodule.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/repast4py/spacemodule.cpp b/src/repast4py/spacemodule.cpp
index 7242e7f..42c19de 100644
--- a/src/repast4py/spacemodule.cpp
+++ b/src/repast4py/spacemodule.cpp
@@ -492,10 +492,14 @@ static PyMethodDef ContinuousPoint_methods[] = {
 
 static PyObject* ContinuousPoint_repr(R4Py_ContinuousPoint* self) {
     double* data = (double*)PyArray_DATA(self->coords);
-    return PyUnicode_FromFormat("ContinuousPoint(%s, %s, %s)", 
-        PyOS_double_to_string(data[0], 'f', Py_DTSF_ADD_DOT_0, 12, NULL),
-        PyOS_double_to_string(data[1], 'f', Py_DTSF_ADD_DOT_0, 12, NULL),
-        PyOS_double_to_string(data[2], 'f', Py_DTSF_ADD_DOT_0, 12, NULL));
+    char* x = PyOS_double_to_string(data[0], 'f', Py_DTSF_ADD_DOT_0, 12, NULL);
+    char* y = PyOS_double_to_string(data[1], 'f', Py_DTSF_ADD_DOT_0, 12, NULL);
+    char* z = PyOS_double_to_string(data[2], 'f', Py_DTSF_ADD_DOT_0, 12, NULL);
+    PyObject* repr = PyUnicode_FromFormat("ContinuousPoint(%s, %s, %s)", x, y, z);
+    PyMem_Free(x);
+    PyMem_Free(y);
+    PyMem_Free(z);
+    return repr;
 }
 
 static PyObject* ContinuousPoint_richcmp(PyObject* self, PyObject* other, int op) {
-- 
2.43.0


From 9a8af76aa7d273eb2aa7f30a36fd7982631ad4d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:40 +0000
Subject: [PATCH 23/50] fix: release the communicator and arrays used to create
 shared spaces and topologies

---
 src/repast4py/distributed_space.cpp | 18 ++++++++----------
 src/repast4py/spacemodule.cpp       |  7 -------
 2 files changed, 8 insertions(+), 17 deletions(-)

diff --git a/src/repast4py/distributed_space.cpp b/src/repast4py/distributed_space.cpp
index bcc7a4c..236658a 100644
--- a/src/repast4py/distributed_space.cpp
+++ b/src/repast4py/distributed_space.cpp
@@ -96,10 +96,9 @@ CartesianTopology::CartesianTopology(MPI_Comm comm, MPI_Comm* cart_comm, int num
     std::fill_n(procs_per_dim, num_dims, 0);
     MPI_Dims_create(size, num_dims, procs_per_dim);
 
-    int* periods = new int[num_dims];
-    std::fill_n(periods, num_dims, periodic ? 1 : 0);
+    std::vector<int> periods(num_dims, periodic ? 1 : 0);
 
-    MPI_Cart_create(comm, num_dims, procs_per_dim, periods, 0, cart_comm);
+    MPI_Cart_create(comm, num_dims, procs_per_dim, &periods[0], 0, cart_comm);
     comm_ = *cart_comm;
 
     x_remainder = bounds_.x_extent_ % procs_per_dim[0];
@@ -133,10 +132,9 @@ CartesianTopology::CartesianTopology(MPI_Comm comm, MPI_Comm* cart_comm, const s
         procs_per_dim[i] = procs_per_dimension[i];
     }
 
-    int* periods = new int[num_dims_];
-    std::fill_n(periods, num_dims_, periodic ? 1 : 0);
+    std::vector<int> periods(num_dims_, periodic ? 1 : 0);
 
-    MPI_Cart_create(comm, num_dims_, procs_per_dim, periods, 0, cart_comm);
+    MPI_Cart_create(comm, num_dims_, procs_per_dim, &periods[0], 0, cart_comm);
     comm_ = *cart_comm;
     x_remainder = bounds_.x_extent_ % procs_per_dim[0];
     if (num_dims_ > 1) {
@@ -174,8 +172,8 @@ int CartesianTopology::getRank() {
 }
 
 void CartesianTopology::getBounds(int rank, BoundingBox& local_bounds) {
-    int* coords = new int[num_dims_];
-    MPI_Cart_coords(comm_, rank, num_dims_, coords);
+    std::vector<int> coords(num_dims_);
+    MPI_Cart_coords(comm_, rank, num_dims_, &coords[0]);
     long_t x_extent = floor(bounds_.x_extent_ / procs_per_dim[0]);
     long_t xmin = bounds_.xmin_ + x_extent * coords[0];
     adjust_min_extent(coords[0], x_remainder, &xmin, &x_extent);
@@ -206,8 +204,8 @@ void CartesianTopology::getBounds(BoundingBox& local_bounds) {
 }
 
 void CartesianTopology::getNeighbors(std::vector<CTNeighbor>& neighbors) {
-    int* coords = new int[num_dims_];
-    MPI_Cart_coords(comm_, getRank(), num_dims_, coords);
+    std::vector<int> coords(num_dims_);
+    MPI_Cart_coords(comm_, getRank(), num_dims_, &coords[0]);
 
     // we can get duplicate neighbors when we have periodic space 
     // with only two procs in that dimension -- i.e. 1 and -1 offset 
diff --git a/src/repast4py/spacemodule.cpp b/src/repast4py/spacemodule.cpp
index 42c19de..0fae1eb 100644
--- a/src/repast4py/spacemodule.cpp
+++ b/src/repast4py/spacemodule.cpp
@@ -1179,9 +1179,6 @@ static int SharedGrid_init(R4Py_SharedGrid* self, PyObject* args, PyObject* kwds
         return -1;
     }
 
-    // Because we are holding a reference to the communicator
-    // I think this is necessary
-    Py_INCREF(py_comm);
     MPI_Comm* comm_p = PyMPIComm_Get(py_comm);
 
     BoundingBox box(xmin, x_extent, ymin, y_extent, zmin, z_extent);
@@ -2062,9 +2059,6 @@ static int SharedCSpace_init(R4Py_SharedCSpace* self, PyObject* args, PyObject*
         return -1;
     }
 
-    // Because we are holding a reference to the communicator
-    // I think this is necessary
-    Py_INCREF(py_comm);
     MPI_Comm* comm_p = PyMPIComm_Get(py_comm);
 
     BoundingBox box(xmin, x_extent, ymin, y_extent, zmin, z_extent);
@@ -2634,7 +2628,6 @@ static int CartesianTopology_init(R4Py_CartesianTopology* self, PyObject* args,
     if (box.y_extent_ > 0) ++dims;
     if (box.z_extent_ > 0) ++dims;
 
-    Py_INCREF(py_comm);
     MPI_Comm* comm_p = PyMPIComm_Get(py_comm);
     self->topo = new CartesianTopology(*comm_p, &cart_comm, dims, box, (bool)periodic);
     if (!self->topo) {
-- 
2.43.0


From 04d0da301773022a0aa70b2168dfd7c265ee588a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:55 +0000
Subject: [PATCH 24/50] fix: a deleted ghost is no longer a requested ghost

---
 src/repast4py/core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/repast4py/core.py b/src/repast4py/core.py
index 5c15641..dbe2fcb 100644
--- a/src/repast4py/core.py
+++ b/src/repast4py/core.py
@@ -259,6 +259,8 @@ class AgentManager:
             agent_id: the unique id tuple of the ghost.
         """
         del self._ghost_agents[agent_id]
+        # no longer a requested ghost
+        self._req_ghosts.discard(agent_id)
 
     def add_ghost(self, ghosted_rank: int, agent: Agent, incr: int = 1):
         """Adds the specified agent to the ghost collection from
-- 
2.43.0


From a77f5841a7f4c0e9d9828d85d99fcce84991dac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:55 +0000
Subject: [PATCH 25/50] fix: clearing a buffer keeps requested agents and
 agents that are now local

---
 src/repast4py/space.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/repast4py/space.py b/src/repast4py/space.py
index 6e49581..6646697 100644
--- a/src/repast4py/space.py
+++ b/src/repast4py/space.py
@@ -193,8 +193,14 @@ class SharedGrid(_SharedGrid, SharedProjection):
         """
         if self.do_synch:
             for agent in self.buffered_agents:
+                if agent_manager.get_ghost(agent.uid, 0) is not agent:
+                    # agent has become local to this rank, or has been removed
+                    continue
                 self.remove(agent)
                 agent_manager.remove_ghost(agent)
+                if agent_manager.is_requested(agent.uid):
+                    # requested agents remain in all the projections
+                    self.add(agent)
             self.buffered_agents.clear()
 
     def _synch_ghosts(self, agent_manager: AgentManager, create_agent: Callable):
@@ -356,8 +362,14 @@ class SharedCSpace(_SharedContinuousSpace, SharedProjection):
         """
         if self.do_synch:
             for agent in self.buffered_agents:
+                if agent_manager.get_ghost(agent.uid, 0) is not agent:
+                    # agent has become local to this rank, or has been removed
+                    continue
                 self.remove(agent)
                 agent_manager.remove_ghost(agent)
+                if agent_manager.is_requested(agent.uid):
+                    # requested agents remain in all the projections
+                    self.add(agent)
 
             self.buffered_agents.clear()
 
-- 
2.43.0


From d067890d4bd89291d229de0c7b642dc2e3bd7d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:55 +0000
Subject: [PATCH 26/50] fix: requesting an agent that is already a ghost keeps
 it updated

---
 src/repast4py/context.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/repast4py/context.py b/src/repast4py/context.py
index 2daaa50..5092239 100644
--- a/src/repast4py/context.py
+++ b/src/repast4py/context.py
@@ -419,15 +419,18 @@ class SharedContext:
             # 1 is the rank to request from
             # 0 is the id of the agent we are requesting
             agent = self._agent_manager.get_ghost(request[0], 0)
-            if agent is None:
+            # the requested from rank needs to know about the request, even if the agent
+            # is currently a ghost here, so that it keeps this ghost updated.
+            if not self._agent_manager.is_requested(request[0]):
                 lst = requests[request[1]]
                 if lst is None:
                     requests[request[1]] = [request[0]]
                 else:
                     requests[request[1]].append(request[0])
-            else:
+                self._agent_manager.add_req_ghost(request[0])
+
+            if agent is not None:
                 existing_ghosts.append(agent)
-                self._agent_manager.add_req_ghost(agent.uid)
                 for proj in self.projections.values():
                     if agent not in proj:
                         proj.add(agent)
@@ -463,6 +466,9 @@ class SharedContext:
         recv_agents = self.comm.alltoall(sent_agents)
         for rank, agents in enumerate(recv_agents):
             for agent_data in agents:
+                # agent is already here, but was not previously requested
+                if self._agent_manager.get_ghost(agent_data[0], 0) is not None:
+                    continue
                 agent = create_agent(agent_data)
                 ghosts.append(agent)
                 self._add_ghost(rank, agent)
-- 
2.43.0


From e48df6cea82459445357c96438a9daa7551231d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:55 +0000
Subject: [PATCH 27/50] fix: move_agents clears the buffers first and completes
 moves out of bounds

---
 src/repast4py/context.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/repast4py/context.py b/src/repast4py/context.py
index 5092239..fdf838f 100644
--- a/src/repast4py/context.py
+++ b/src/repast4py/context.py
@@ -506,6 +506,8 @@ class SharedContext:
             create_agent: a Callable that can take the result of an agent :samp: `save()` and
                 return an agent.
         """
+        self._pre_synch_ghosts()
+
         sent_agents = [[] for i in range(self.comm.size)]
         moved_agents = []
         for uid, rank in agents_to_move:
@@ -544,11 +546,14 @@ class SharedContext:
         for gh_uid in ghosts_to_remove:
             self._agent_manager.delete_ghost(gh_uid)
 
-        self._pre_synch_ghosts()
-        send_data = self._gather_oob_data([])
+        oob_moved_agents = []
+        send_data = self._gather_oob_data(oob_moved_agents)
         recv_data = self.comm.alltoall(send_data)
         ghosts_to_remove = []
         self._process_recv_oob_data(recv_data, ghosts_to_remove, create_agent)
+        self._agents_moved(oob_moved_agents, self.projections.values())
+        for gh_uid in ghosts_to_remove:
+            self._agent_manager.delete_ghost(gh_uid)
         self._synch_ghosts(create_agent)
 
         for proj in self.projections.values():
-- 
2.43.0


From f87b9cbb94fe8853d666b07ad7038834580b45d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:55 +0000
Subject: [PATCH 28/50] fix: an agent that moves rank leaves all the bounded
 projections of its previous rank

---
 src/repast4py/context.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/repast4py/context.py b/src/repast4py/context.py
index fdf838f..2cf7bf9 100644
--- a/src/repast4py/context.py
+++ b/src/repast4py/context.py
@@ -140,6 +140,7 @@ class SharedContext:
             to send the data in the second list to.
         """
         send_data = [[] for i in range(self.comm.size)]
+        moved = {}
         # gather agents to send from the out of bounds (oob) sequence
         for pid, proj in self.bounded_projs.items():
             for agent_id, ngh_rank, pt in proj._get_oob():
@@ -147,8 +148,12 @@ class SharedContext:
                 if agent is None:
                     # already removed
                     data = [(agent_id,)]
+                    if agent_id in moved:
+                        # moving because of its location in a previous projection
+                        proj._agent_moving_rank(moved[agent_id], ngh_rank, data, self._agent_manager)
                 else:
                     oob_agents.append((agent, ngh_rank))
+                    moved[agent_id] = agent
                     del self._agents_by_type[agent_id[1]][agent_id]
                     data = [agent.save()]
                     if agent_id in self._agent_manager._ghosted_agents:
@@ -164,6 +169,12 @@ class SharedContext:
 
             proj._clear_oob()
 
+        # agents that have moved are no longer in any of the bounded projections
+        for agent, ngh_rank in oob_agents:
+            for proj in self.bounded_projs.values():
+                if agent in proj:
+                    proj._agent_moving_rank(agent, ngh_rank, [], self._agent_manager)
+
         return send_data
 
     def _process_recv_oob_data(self, recv_data: List, ghosts_to_remove: List, create_agent: Callable):
-- 
2.43.0


From e24a24a871e11e7a5c09a0d18561e5c57a8ba584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:55 +0000
Subject: [PATCH 29/50] fix: population queries for a type that has no agents
 on this rank

---
 src/repast4py/context.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/repast4py/context.py b/src/repast4py/context.py
index 2cf7bf9..f084dc6 100644
--- a/src/repast4py/context.py
+++ b/src/repast4py/context.py
@@ -354,7 +354,7 @@ class SharedContext:
             if agent_type is None:
                 lst = list(self._agent_manager._local_agents.values())
             else:
-                lst = list(self._agents_by_type[agent_type].values())
+                lst = list(self._agents_by_type.get(agent_type, {}).values())
 
             if shuffle:
                 random.default_rng.shuffle(lst)
@@ -366,7 +366,7 @@ class SharedContext:
             if agent_type is None:
                 return self._agent_manager._local_agents.values().__iter__()
             else:
-                return self._agents_by_type[agent_type].values().__iter__()
+                return self._agents_by_type.get(agent_type, {}).values().__iter__()
 
     def agent(self, agent_id) -> Agent:
         """Gets the specified agent from the collection of local
@@ -411,7 +411,7 @@ class SharedContext:
         counts = {}
         if agent_type_ids:
             for i in agent_type_ids:
-                counts[i] = len(self._agents_by_type[i])
+                counts[i] = len(self._agents_by_type.get(i, {}))
         else:
             counts[-1] = len(self._agent_manager._local_agents)
 
-- 
2.43.0


From 6442ba746bbc0b82d95c313da5e4692669168adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:05 +0000
Subject: [PATCH 30/50] fix: ghosts of an agent that moved report the rank it
 moved to

---
 src/repast4py/context.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/repast4py/context.py b/src/repast4py/context.py
index f084dc6..9dcd0a8 100644
--- a/src/repast4py/context.py
+++ b/src/repast4py/context.py
@@ -491,6 +491,11 @@ class SharedContext:
         moved_ids = [(x.uid, dest) for x, dest in moved_agents]
         all_moved_agents = self.comm.allgather(moved_ids)
         any_moved = not is_empty(all_moved_agents)
+        # ghosts of the moved agents are now ghosts of agents on their destination rank
+        for uid, dest in itertools.chain(*all_moved_agents):
+            ghost = self._agent_manager.get_ghost(uid, 0)
+            if ghost is not None:
+                ghost.local_rank = dest
         # replace agents moved by this rank with empty list
         # as we can ignore these given that they should be processed
         # in a previous call to proj._agent_moving_rank
-- 
2.43.0


From 3d0435175478ddae933d34154d6041f4ede036c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:06 +0000
Subject: [PATCH 31/50] fix: edges between ranks and their ghosts stay
 consistent when edges or agents are removed, updated or moved

---
 src/repast4py/context.py |   3 +-
 src/repast4py/network.py | 525 +++++++++++++++++++--------------------
 2 files changed, 263 insertions(+), 265 deletions(-)

diff --git a/src/repast4py/context.py b/src/repast4py/context.py
index 9dcd0a8..b1c6568 100644
--- a/src/repast4py/context.py
+++ b/src/repast4py/context.py
@@ -229,7 +229,8 @@ class SharedContext:
             for removed_id in updates:
                 ghost = self._agent_manager.get_ghost(removed_id)
                 for proj in self.projections.values():
-                    proj.remove(ghost)
+                    if ghost in proj:
+                        proj.remove(ghost)
                 self._agent_manager.delete_ghost(removed_id)
 
         self.removed_ghosteds.clear()
diff --git a/src/repast4py/network.py b/src/repast4py/network.py
index ec68808..fe64058 100644
--- a/src/repast4py/network.py
+++ b/src/repast4py/network.py
@@ -64,26 +64,30 @@ class SharedNetwork(SharedProjection, ABC):
         self.graph = graph
         self.rank = comm.Get_rank()
 
-        # list of edge keys
-        self.edges_to_update = set()
+        # keys of the edges to update
+        self.edges_to_update = {}
+        # all the edges between a local agent and a ghost on this rank
         # key is edge tuple, val is GhostedEdge
         self.ghosted_edges = {}
+        # the ghosted edges that have not yet been sent to the ghost's rank
         # key is edge tuple, val is GhostedEdge
         self.new_edges = {}
         # key is edge tuple, val is idx of ghost agent in tuple
         self.edges_to_remove = {}
-        # list of edges that need to be recreated when a
-        # agent moves off of this rank. Edge is (u.uid, v.uid)
-        self._agent_moved_edges = []
-        # list of agent ids that should not be ghosted to this
-        # rank after an agent move. The identification of
-        # these agents and communicating to the ghosting rank
-        # occur in different stages so we track this info as field
-        self._no_longer_ghosts = [[] for _ in range(self.comm.size)]
-        # list of ghosts agents that need to have their
-        # ref count incremented. This can occur when an agent
-        # in a buffer zone is added via an edge, but has not
-        # yet has the ghost ref count incremented
+        # for each rank: the agents moving to that rank, the ranks to which this network
+        # ghosts them, and the edges in which they participate.
+        self._moving_edges = [[] for _ in range(self.comm.size)]
+        # ids of the agents moving off of this rank, and their destination rank
+        self._moving_to = {}
+        # edges received together with a moved agent, and whose other agent is not local
+        # to this rank: [(u.uid, v.uid), attributes, moved agent uid, other agent uid, other agent rank]
+        self._received_edges = []
+        # key is agent uid, val is the set of ranks to which this network ghosts that local agent
+        self._ghosted_to = {}
+        # key is agent uid: the ghosts whose ref count has been incremented by this network
+        self._ghost_refs = {}
+        # list of ghosts added to this network via an edge. These may need to have their
+        # ref count incremented, for example, when an agent in a buffer zone is added via an edge
         self.ghosts_to_ref = []
 
     def __iter__(self) -> Iterable[Agent]:
@@ -216,6 +220,9 @@ class SharedNetwork(SharedProjection, ABC):
         Raises:
             NetworkXError: if the agent is not a node in this SharedNetwork.
         """
+        if self.graph.has_node(agent):
+            for edge in list(self._edges(agent)): # type: ignore
+                self._forget_edge(*edge, notify=agent.local_rank == self.rank)
         self.graph.remove_node(agent)
 
     def update_edge(self, u_agent: Agent, v_agent: Agent, **kwattr):
@@ -238,7 +245,7 @@ class SharedNetwork(SharedProjection, ABC):
 
         if (u_agent.local_rank == self.rank and v_agent.local_rank != self.rank) or \
            (u_agent.local_rank != self.rank and v_agent.local_rank == self.rank):
-            self.edges_to_update.add(edge_key)
+            self.edges_to_update[edge_key] = None
 
     def remove_edge(self, u_agent: Agent, v_agent: Agent):
         """Removes the edge between u_agent and v_agent.
@@ -250,32 +257,35 @@ class SharedNetwork(SharedProjection, ABC):
             NetworkXError: if there is no edge between u_agent and v_agent.
         """
         self.graph.remove_edge(u_agent, v_agent)
+        self._forget_edge(u_agent, v_agent, notify=True)
 
-        if u_agent.local_rank != self.rank and v_agent.local_rank == self.rank or \
-           u_agent.local_rank == self.rank and v_agent.local_rank != self.rank:
-            edge_key = self._get_edge_key((u_agent, v_agent))
+    def _forget_edge(self, u_agent: Agent, v_agent: Agent, notify: bool):
+        """Removes the specified edge from the data used to synchronize this network.
+
+        Args:
+            u_agent: the u node of the edge.
+            v_agent: the v node of the edge.
+            notify: if true and the edge is between a local agent and a ghost, then the edge
+                will be removed from the ghost's rank during the next synchronization.
+        """
+        edge_key = self._get_edge_key((u_agent, v_agent))
+        # if removed before update sync or removed before new edge sync
+        # then remove it here
+        self.edges_to_update.pop(edge_key, None)
+        self.new_edges.pop(edge_key, None)
+        if self.ghosted_edges.pop(edge_key, None) is not None and notify:
             # edge key order might be different than remove edge args
             # so need to check in edge key which is the ghost
             self.edges_to_remove[edge_key] = 0 if edge_key[1].local_rank == self.rank else 1
-            del self.ghosted_edges[edge_key]
-            # if removed before update sync or removed before new edge sync
-            # then remove it here
-            self.edges_to_update.discard(edge_key)
-            self.new_edges.pop(edge_key, None)
 
         self._remove_edge_key(u_agent, v_agent)
 
     def clear_edges(self):
         """Removes all the edges.
         """
+        for u, v in list(self.graph.edges()):
+            self._forget_edge(u, v, notify=True)
         self.graph.clear_edges()
-        for edge, ghosted_edge in self.ghosted_edges.items():
-            edge_key = self._get_edge_key(edge)
-            self.edges_to_remove[edge_key] = 1 if edge_key[0].local_rank == self.rank else 0
-            self.edges_to_update.discard(edge_key)
-
-        self.new_edges.clear()
-        self.ghosted_edges.clear()
 
     def contains_edge(self, u_agent: Agent, v_agent: Agent) -> bool:
         """Gets whether or not an edge exists between the u_agent and v_agent.
@@ -289,124 +299,192 @@ class SharedNetwork(SharedProjection, ABC):
         """
         return self.graph.has_edge(u_agent, v_agent)
 
-    def _sync_removed(self, agent_manager: AgentManager):
-        """Synchronizes the removed edges across processes
+    def _get_agent(self, agent_uid: Tuple, agent_manager: AgentManager) -> Agent:
+        """Gets the specified local or ghost agent.
 
         Args:
-            agent_manager: AgentManager used to manage agent synchronization
+            agent_uid: the unique id of the agent
+            agent_manager: the AgentManager for this model
+        Returns:
+            The specified agent, or None if it is neither local to nor a ghost on this rank.
         """
-        sync_edges = [[] for i in range(self.comm.size)]
-        for edge, ghost_idx in self.edges_to_remove.items():
-            ghost = edge[ghost_idx]
-            sync_edges[ghost.local_rank].append((edge[0].uid, edge[1].uid))
-            agent_manager.untag_as_ghosted(ghost.local_rank, edge[not (ghost_idx)].uid)
+        agent = agent_manager.get_local(agent_uid)
+        return agent_manager.get_ghost(agent_uid, 0) if agent is None else agent
 
-        self.edges_to_remove.clear()
-        to_remove = self.comm.alltoall(sync_edges)
-        for edges in to_remove:
-            for u_id, v_id in edges:
-                u_agent = agent_manager._ghost_agents.get(u_id)
-                if u_agent is None:
-                    # u_agent is local
-                    u_agent = agent_manager._local_agents[u_id]
-                    v_agent = agent_manager._ghost_agents[v_id].agent
-                    self.graph.remove_edge(u_agent, v_agent)
-                    # if ghost not participating in network, then remove
-                    # Note that remove_ghost will check for inclusion in requested
-                    if not self._has_edge(v_agent):
-                        agent_manager.remove_ghost(v_agent)
-                        self.graph.remove_node(v_agent)
-                else:
-                    v_agent = agent_manager._local_agents[v_id]
-                    # u_agent is GhostAgent so get agent
-                    u_agent = u_agent.agent
-                    self.graph.remove_edge(u_agent, v_agent)
-                    # if ghost not participating in network, then remove
-                    # Note that remove_ghost will check for inclusion in requested
-                    if not self._has_edge(u_agent):
-                        agent_manager.remove_ghost(u_agent)
-                        self.graph.remove_node(u_agent)
+    def _set_edge(self, u_agent: Agent, v_agent: Agent, edge_attr: Dict):
+        """Adds, or updates the attributes of, the specified edge whose data has been
+        received from another rank.
 
-                self._remove_edge_key(u_agent, v_agent)
-
-    def _sync_vertices(self, agent_manager: AgentManager, create_agent: Callable) -> List:
-        """Synchronizes vertices across processes.
+        Args:
+            u_agent: the u node of the edge
+            v_agent: the v node of the edge
+            edge_attr: the attributes of the edge
+        """
+        self.graph.add_edge(u_agent, v_agent, **edge_attr)
+        self._add_edge_key(u_agent, v_agent)
+        edge_key = self._get_edge_key((u_agent, v_agent))
+        attr = self.graph.edges[edge_key]
+        if u_agent.local_rank == self.rank and v_agent.local_rank != self.rank:
+            self.ghosted_edges[edge_key] = GhostedEdge(u_agent, v_agent, attr)
+        elif u_agent.local_rank != self.rank and v_agent.local_rank == self.rank:
+            self.ghosted_edges[edge_key] = GhostedEdge(v_agent, u_agent, attr)
 
-        When this rank creates an edge between a vertex local to this rank
-        and a ghost, this will send the local agent to the ghost rank to synchronize
-        the network. The edge data will be added to the List returned from this
-        method, so that edge can be created on the ghost rank as well.
+    def _ref_ghost(self, ghost: Agent, agent_manager: AgentManager):
+        """Increments the ref count of the specified ghost, on behalf of this network.
 
         Args:
-            agent_manager: the agent manager for this model
-            create_agent: a callable used to create any necessary agents
+            ghost: the ghost agent
+            agent_manager: the AgentManager for this model
+        """
+        if agent_manager.get_ghost(ghost.uid) is None:
+            agent_manager.add_ghost(ghost.local_rank, ghost)
+        self._ghost_refs[ghost.uid] = ghost
 
-        Returns:
-            A nested list of the edge data tuples, (u.uid, v.uid, edge_attributes), for
-            edges created betwee agents local to this rank and ghosts on this rank. The
-            list is formatted in "alltoall" format such that index of each nested element
-            is the rank where to send those elements.
+    def _pre_synch_ghosts(self, agent_manager: AgentManager):
+        """Called prior to synchronizing ghosts and before any cross-rank movement
+        synchronization.
+
+        This synchronizes the removed and the updated edges, and notifies the ranks of
+        ghosts that participate in new edges that those agents are ghosted to this rank.
+
+        Args:
+            agent_manager: this rank's AgentManager
         """
-        sync_agents = [[] for i in range(self.comm.size)]
-        sync_edges = [[] for i in range(self.comm.size)]
-        for nodes, ghosted_edge in self.new_edges.items():
-            local_agent = ghosted_edge.local_agent
-            ghost_agent = ghosted_edge.ghost_agent
-            other_rank = ghost_agent.local_rank
-            self.ghosted_edges[nodes] = ghosted_edge
-            # not already ghosted so send agent itself
-            if not agent_manager.is_ghosted_to(other_rank, local_agent.uid):
-                sync_agents[other_rank].append(local_agent.save())
-                agent_manager.tag_as_ghosted(other_rank, local_agent.uid)
-
-            sync_edges[other_rank].append((nodes[0].uid, nodes[1].uid, ghosted_edge.edge_attr))
-        self.new_edges.clear()
+        send_msg = [([], [], []) for i in range(self.comm.size)]
+        for edge, ghost_idx in self.edges_to_remove.items():
+            send_msg[edge[ghost_idx].local_rank][0].append((edge[0].uid, edge[1].uid))
+        self.edges_to_remove.clear()
 
-        for edge_key in self.edges_to_update:
-            ghosted_edge = self.ghosted_edges[edge_key]
-            other_rank = ghosted_edge.ghost_agent.local_rank
-            sync_edges[other_rank].append((edge_key[0].uid, edge_key[1].uid, ghosted_edge.edge_attr))
+        # new edges may already exist on the other rank
+        for edge_key in {**self.edges_to_update, **self.new_edges}:
+            ghosted_edge = self.ghosted_edges.get(edge_key)
+            if ghosted_edge is not None:
+                send_msg[ghosted_edge.ghost_agent.local_rank][1].append((edge_key[0].uid, edge_key[1].uid,
+                                                                         ghosted_edge.edge_attr))
         self.edges_to_update.clear()
 
-        recv_agents = self.comm.alltoall(sync_agents)
-        for rank, agents in enumerate(recv_agents):
-            for agent_data in agents:
-                agent = create_agent(agent_data)
-                # 1 because added to network
-                agent_manager.add_ghost(rank, agent, 1)
-                self.add(agent)
+        for ghost in self.ghosts_to_ref:
+            if self.graph.has_node(ghost) and ghost.uid not in self._ghost_refs:
+                if self._has_edge(ghost):
+                    # ghosting rank needs to increment ref count to this rank
+                    self._ref_ghost(ghost, agent_manager)
+                    send_msg[ghost.local_rank][2].append(ghost.uid)
+                elif not agent_manager.is_requested(ghost.uid):
+                    # the edge has been removed
+                    self.graph.remove_node(ghost)
+        self.ghosts_to_ref.clear()
 
-        return sync_edges
+        not_found = [[] for i in range(self.comm.size)]
+        recv_msg = self.comm.alltoall(send_msg)
+        for removed, _, _ in recv_msg:
+            for u_id, v_id in removed:
+                u_agent = self._get_agent(u_id, agent_manager)
+                v_agent = self._get_agent(v_id, agent_manager)
+                if self.graph.has_edge(u_agent, v_agent):
+                    self.graph.remove_edge(u_agent, v_agent)
+                    self._forget_edge(u_agent, v_agent, notify=False)
+        for rank, (_, updated, ghosted) in enumerate(recv_msg):
+            for u_id, v_id, edge_attr in updated:
+                u_agent = self._get_agent(u_id, agent_manager)
+                v_agent = self._get_agent(v_id, agent_manager)
+                if self.graph.has_edge(u_agent, v_agent):
+                    self.graph.edges[u_agent, v_agent].update(edge_attr)
+            for uid in ghosted:
+                if agent_manager.get_local(uid) is None:
+                    # removed since it was copied to the other rank
+                    not_found[rank].append(uid)
+                else:
+                    agent_manager.tag_as_ghosted(rank, uid)
+                    self._ghosted_to.setdefault(uid, set()).add(rank)
 
-    def _sync_edges(self, sync_edges: List, agent_manager: AgentManager):
-        """Syncronizes edges across ranks between local and non-local agents
+        for uids in self.comm.alltoall(not_found):
+            for uid in uids:
+                self.remove(self._ghost_refs[uid])
+                agent_manager.remove_ghost(self._ghost_refs.pop(uid))
 
-        When this rank creates an edge between a vertex local to this rank
-        and a ghost, this will ghost that edge to the ghost rank. The sync_edges
-        list is expected to be the return value of _sync_vertices.
+    def _sync_edges(self, agent_manager: AgentManager, create_agent: Callable):
+        """Sends the new edges, and those of the agents that moved to this rank, to the rank of the
+        other agent in the edge, together with the local agent in the edge if that is not yet a ghost
+        on that rank. If the other agent is not a ghost on this rank, then that is sent back.
 
         Args:
-            sync_edges: a nested list of the edge data tuples, (u.uid, v.uid, edge_attributes), for
-                edges created betwee agents local to this rank and ghosts on this rank. The
-                list is formatted in "alltoall" format such that index of each nested element
-                is the rank where to send those elements.
-            agent_manager: the AgentManager
+            agent_manager: the AgentManager for this model
+            create_agent: a callable that can create an agent instance from
+                an agent id and data.
         """
-        recv_edges = self.comm.alltoall(sync_edges)
-        for edges in recv_edges:
-            for u_id, v_id, edge_attr in edges:
-                u_agent = agent_manager._ghost_agents.get(u_id)
-                if u_agent is None:
-                    # u_agent is local
-                    u_agent = agent_manager._local_agents[u_id]
-                    v_agent = agent_manager._ghost_agents[v_id].agent
-                else:
-                    # u_agent is GhostAgent so get agent from it
-                    u_agent = u_agent.agent
-                    v_agent = agent_manager._local_agents[v_id]
+        edges = [((edge[0].uid, edge[1].uid), ge.edge_attr, ge.local_agent.uid, ge.ghost_agent.uid, ge.ghost_agent.local_rank)
+                 for edge, ge in self.new_edges.items()]
+        edges += [edge for edge in self._received_edges if agent_manager.get_local(edge[2]) is not None]
+        self.new_edges.clear()
+        self._received_edges.clear()
+
+        send_edges = [[] for i in range(self.comm.size)]
+        send_agents = [{} for i in range(self.comm.size)]
+        requests = [{} for i in range(self.comm.size)]
+        for uids, attr, local_uid, other_uid, rank in edges:
+            send_edges[rank].append((uids, attr, local_uid, other_uid))
+            if not agent_manager.is_ghosted_to(rank, local_uid):
+                send_agents[rank][local_uid] = agent_manager.get_local(local_uid).save()
+            if agent_manager.get_ghost(other_uid, 0) is None:
+                requests[rank][other_uid] = None
+
+        found = [{} for i in range(self.comm.size)]
+        recv = self.comm.alltoall(list(zip(send_edges, send_agents, requests)))
+        for rank, (recv_edges, recv_agents, recv_requests) in enumerate(recv):
+            for uids, attr, ghost_uid, local_uid in recv_edges:
+                if agent_manager.get_local(local_uid) is None:
+                    # removed since the edge was created
+                    continue
+                if agent_manager.get_ghost(ghost_uid, 0) is None:
+                    agent_manager.add_ghost(rank, create_agent(recv_agents[ghost_uid]), incr=0)
+                self._set_edge(*[self._get_agent(uid, agent_manager) for uid in uids], attr)
+                found[rank][local_uid] = None
+            for uid in found[rank]:
+                if uid in recv_requests:
+                    found[rank][uid] = agent_manager.get_local(uid).save()
+
+        recv_found = self.comm.alltoall(found)
+        for uids, attr, _, other_uid, rank in edges:
+            if other_uid in recv_found[rank]:
+                if agent_manager.get_ghost(other_uid, 0) is None:
+                    agent_manager.add_ghost(rank, create_agent(recv_found[rank][other_uid]), incr=0)
+                u_agent, v_agent = [self._get_agent(uid, agent_manager) for uid in uids]
+                if not self.graph.has_edge(u_agent, v_agent):
+                    self._set_edge(u_agent, v_agent, attr)
+
+    def _update_ghosting(self, agent_manager: AgentManager):
+        """Updates what is ghosted from and to this rank by this network to match its
+        edges between local agents and ghosts.
 
-                self.graph.add_edge(u_agent, v_agent, **edge_attr)
-                self._add_edge_key(u_agent, v_agent)
+        Args:
+            agent_manager: the AgentManager for this model
+        """
+        ghosted_to = {}
+        ghosts = {}
+        for ge in self.ghosted_edges.values():
+            ghosted_to.setdefault(ge.local_agent.uid, set()).add(ge.ghost_agent.local_rank)
+            ghosts[ge.ghost_agent.uid] = ge.ghost_agent
+
+        for uid, ranks in ghosted_to.items():
+            for rank in sorted(ranks - self._ghosted_to.get(uid, set())):
+                agent_manager.tag_as_ghosted(rank, uid)
+        for uid, ranks in self._ghosted_to.items():
+            for rank in ranks - ghosted_to.get(uid, set()):
+                # agent may have been removed
+                if agent_manager.is_ghosted_to(rank, uid):
+                    agent_manager.untag_as_ghosted(rank, uid)
+        self._ghosted_to = ghosted_to
+
+        for uid, ghost in ghosts.items():
+            if uid not in self._ghost_refs:
+                self._ref_ghost(ghost, agent_manager)
+        for uid in [uid for uid in self._ghost_refs if uid not in ghosts]:
+            ghost = self._ghost_refs.pop(uid)
+            if agent_manager.get_ghost(uid, 0) is ghost:
+                # Note that remove_ghost will check for inclusion in requested
+                agent_manager.remove_ghost(ghost)
+                if not agent_manager.is_requested(uid) and not self._has_edge(ghost):
+                    self.graph.remove_node(ghost)
 
     def _synch_ghosts(self, agent_manager: AgentManager, create_agent: Callable):
         """Synchronizes the edges and nodes of this projection across ranks.
@@ -416,36 +494,8 @@ class SharedNetwork(SharedProjection, ABC):
             create_agent: a callable that can create an agent instance from
                 an agent id and data.
         """
-        self._sync_removed(agent_manager)
-        sync_edges = self._sync_vertices(agent_manager, create_agent)
-        self._sync_edges(sync_edges, agent_manager)
-
-    def _pre_synch_ghosts(self, agent_manager: AgentManager):
-        """Called prior to synchronizing ghosts and before any cross-rank movement
-        synchronization.
-
-        This synchronizes any necessary proj reference count updates to
-        ranks that ghost to this rank.
-
-        Args:
-            agent_manager: this rank's AgentManager
-        """
-        send_msg = [[] for i in range(self.comm.size)]
-        for agent in self.ghosts_to_ref:
-            if self.graph.has_node(agent):
-                ghost = agent_manager.get_ghost(agent.uid)
-                if ghost is None:
-                    agent_manager.add_ghost(agent.local_rank, agent)
-
-                # ghosting rank need to increment ref count to this rank
-                send_msg[agent.local_rank].append(agent.uid)
-
-        self.ghosts_to_ref.clear()
-
-        recv_msg = self.comm.alltoall(send_msg)
-        for rank, agents in enumerate(recv_msg):
-            for agent in agents:
-                agent_manager.tag_as_ghosted(rank, agent)
+        self._sync_edges(agent_manager, create_agent)
+        self._update_ghosting(agent_manager)
 
     def _post_agents_moved_rank(self, agent_manager: AgentManager, create_agent: Callable):
         """Notifies this projection that all the agent movement synchronization has occured,
@@ -456,21 +506,6 @@ class SharedNetwork(SharedProjection, ABC):
             create_agent: a callable that can create an agent instance from
                 an agent id and data.
         """
-        for u_id, v_id, edge_attr in self._agent_moved_edges:
-            u = agent_manager.get_local(u_id)
-            if u is None:
-                # incr 0 because should be already as ghost so
-                # ref_count includes this network
-                u = agent_manager.get_ghost(u_id, incr=0)
-
-            v = agent_manager.get_local(v_id)
-            if v is None:
-                # incr 0 because should be already as ghost so
-                # ref_count includes this network
-                v = agent_manager.get_ghost(v_id, incr=0)
-            self.add_edge(u, v, **edge_attr)
-
-        self._agent_moved_edges.clear()
         self._synch_ghosts(agent_manager, create_agent)
 
     def _agent_moving_rank(self, moving_agent: Agent, dest_rank: int, moving_agent_data: List,
@@ -493,55 +528,19 @@ class SharedNetwork(SharedProjection, ABC):
             agent_manager: the AgentManager
 
         """
-        # 1. Check if moving agent is in edge with ghost, and ghost
-        # is not requested, meaning that the edge is an artifact of
-        # network sync and not explicitly created on this rank. In that
-        # case, remove the edge, and the node (if the node is not in any other
-        # edges)
-        #
-        # 2. Check if moving agent is in edge with local agent. This edge
-        # needs to be preserved. So, delete edge, and add this rank to the
-        # dictionary in the moved agent_data list (the data used by the dest rank
-        # to set up ghosting of the moved agent).
-        nodes_to_remove = []
-        edges_to_remove = []
-        for u, v, attr in self._edges(moving_agent, data=True): # type: ignore
-            other = v if u.uid == moving_agent.uid else u
-            if other.local_rank != self.rank and not agent_manager.is_requested(other.uid):
-                # other is ghosted and not requested so the edge is artifact of edge created
-                # on other node between u and v, so remove it.
-                edges_to_remove.append((u, v))
-                if self.num_edges(other) == 1:
-                    # other is only on this rank to to be part of the removed edge
-                    # and now the edge is gone so remove as node and ghost
-                    nodes_to_remove.append(other)
-                    agent_manager.remove_ghost(other)
-                    self._no_longer_ghosts[other.local_rank].append(other.uid)
-
-            else:
-                # moving agent participates in edges with local agents
-                # this should tell destination rank to ghost the moved
-                # agent back to this rank, so the edge remains live
-                if len(moving_agent_data) == 1:
-                    moving_agent_data.append({self.rank: 1})
-                else:
-                    if self.rank in moving_agent_data[1]:
-                        moving_agent_data[1][self.rank] += 1
-                    else:
-                        moving_agent_data[1][self.rank] = 1
-
-                # agent will be ghosted to this rank, so need to add it as a
-                # ghost
-                agent_manager.add_ghost(dest_rank, moving_agent, incr=0)
-                self._agent_moved_edges.append((u.uid, v.uid, attr))
-
-        for edge in edges_to_remove:
-            self.graph.remove_edge(*edge)
-            self._remove_edge_key(*edge)
-
-        for node in nodes_to_remove:
-            self.graph.remove_node(node)
-
+        # The edges move with the agent. An edge with an agent that remains on this rank is
+        # sent back by the destination rank, which ghosts the moved agent to this rank.
+        uid = moving_agent.uid
+        edges = []
+        for u, v, attr in list(self._edges(moving_agent, data=True)): # type: ignore
+            other = v if u is moving_agent else u
+            edges.append(((u.uid, v.uid), attr, uid, other.uid, other.local_rank))
+            self._forget_edge(u, v, notify=False)
+        edges += [edge for edge in self._received_edges if edge[2] == uid]
+        self._received_edges = [edge for edge in self._received_edges if edge[2] != uid]
+
+        self._moving_edges[dest_rank].append((uid, self._ghosted_to.pop(uid, set()), edges))
+        self._moving_to[uid] = dest_rank
         self.graph.remove_node(moving_agent)
 
     def _agents_moved_rank(self, moved_agents: List, agent_manager: AgentManager):
@@ -558,45 +557,44 @@ class SharedNetwork(SharedProjection, ABC):
                 EXCEPT for those moved off of the current rank.
             agent_manager: AgentManager
         """
-        stop_ghosting_ids = self.comm.alltoall(self._no_longer_ghosts)
-        for ghost_rank, ids in enumerate(stop_ghosting_ids):
-            for id in ids:
-                agent_manager.untag_as_ghosted(ghost_rank, id)
-        self._no_longer_ghosts = [[] for _ in range(self.comm.size)]
-
-        for uid, dest in moved_agents:
+        recv_edges = self.comm.alltoall(self._moving_edges)
+        moved_to = dict(moved_agents)
+        for uid, dest in moved_to.items():
             if dest == self.rank:
                 # Check if moved agent was formerly a ghost on this rank
                 # and if so, then copy the edges the ghost participated in
                 # to new edges created with the now local agent, and remove
                 # the old ghost
-                ghost = agent_manager.get_ghost(uid)
-                if ghost is not None:
+                ghost = agent_manager.get_ghost(uid, 0)
+                if ghost is not None and self.graph.has_node(ghost):
                     agent = agent_manager.get_local(uid)
-                    edge_list = [e for e in self._edges(ghost, data=True)] # type: ignore
-                    for u, v, attr in edge_list:
-                        self.graph.remove_edge(u, v)
-                        if u.uid == agent.uid:
-                            self.graph.add_edge(agent, v, **attr)
-                        else:
-                            self.graph.add_edge(u, agent, **attr)
-                    self.graph.remove_node(ghost)
+                    for u, v, attr in list(self._edges(ghost, data=True)): # type: ignore
+                        self._forget_edge(u, v, notify=False)
+                        self._set_edge(agent if u is ghost else u, agent if v is ghost else v, attr)
+                    if ghost is not agent:
+                        self.graph.remove_node(ghost)
+                self._ghost_refs.pop(uid, None)
+
+        moved_to.update(self._moving_to)
+        self._moving_edges = [[] for _ in range(self.comm.size)]
+        self._moving_to = {}
+
+        for agents in recv_edges:
+            for uid, ghosted_to, edges in agents:
+                self._ghosted_to[uid] = ghosted_to - {self.rank}
+                self._received_edges += edges
+
+        # edges between agents that are now both local
+        received_edges = []
+        for uids, attr, moved_uid, other_uid, other_rank in self._received_edges:
+            other_rank = moved_to.get(other_uid, other_rank)
+            if other_rank == self.rank:
+                u_agent, v_agent = [agent_manager.get_local(uid) for uid in uids]
+                if u_agent is not None and v_agent is not None:
+                    self._set_edge(u_agent, v_agent, attr)
             else:
-                # check if moved agent is a ghost on this rank,
-                # if so, then check if that agent participated in
-                # a ghosted edge. If so, then update the local rank
-                # of that ghost agent so that ghosted edge will be
-                # ghosted to new destination, and add that edge to
-                # the new edges, so it will be ghosted to new rank
-                # during next sync.
-                agent = agent_manager.get_ghost(uid, 0)
-                if agent is not None:
-                    for edge in self._edges(agent): # type: ignore
-                        edge_key = self._get_edge_key(edge)
-                        ge = self.ghosted_edges.get(edge_key, None)
-                        if ge is not None:
-                            ge.ghost_agent.local_rank = dest
-                            self.new_edges[edge_key] = ge
+                received_edges.append((uids, attr, moved_uid, other_uid, other_rank))
+        self._received_edges = received_edges
 
 
 class UndirectedSharedNetwork(SharedNetwork):
@@ -654,7 +652,7 @@ class UndirectedSharedNetwork(SharedNetwork):
         Returns:
             The canonical edge key
         """
-        return self.canonical_edge_keys[edge]
+        return self.canonical_edge_keys.get(edge, edge)
 
     def _add_edge_key(self, u_agent: Agent, v_agent: Agent) -> Tuple:
         """Creates a canonical edge key for the pair of nodes.
@@ -663,8 +661,8 @@ class UndirectedSharedNetwork(SharedNetwork):
             u_agent: the u node agent
             v_agent: the v node agent
         """
-        edge_key = (u_agent, v_agent)
-        self.canonical_edge_keys[edge_key] = edge_key
+        edge_key = self._get_edge_key((u_agent, v_agent))
+        self.canonical_edge_keys[(u_agent, v_agent)] = edge_key
         self.canonical_edge_keys[(v_agent, u_agent)] = edge_key
         return edge_key
 
@@ -675,9 +673,8 @@ class UndirectedSharedNetwork(SharedNetwork):
             u_agent: the u node agent
             v_agent: the v node agent
         """
-        edge_key = (u_agent, v_agent)
-        self.canonical_edge_keys.pop(edge_key)
-        self.canonical_edge_keys.pop((v_agent, u_agent))
+        self.canonical_edge_keys.pop((u_agent, v_agent), None)
+        self.canonical_edge_keys.pop((v_agent, u_agent), None)
 
     def add_edge(self, u_agent: Agent, v_agent: Agent, **kwattr):
         """Adds an edge between u_agent and v_agent.
@@ -704,7 +701,7 @@ class UndirectedSharedNetwork(SharedNetwork):
             edge_key = self._add_edge_key(u_agent, v_agent)
             ge = GhostedEdge(u_agent, v_agent, self.graph.edges[edge_key])
             self.new_edges[edge_key] = ge
-            self.edges_to_remove.pop(edge_key, None)
+            self.ghosted_edges[edge_key] = ge
         elif u_agent.local_rank != self.rank and v_agent.local_rank == self.rank:
             # assume v_agent is local
             if not self.graph.has_node(u_agent):
@@ -713,7 +710,7 @@ class UndirectedSharedNetwork(SharedNetwork):
             edge_key = self._add_edge_key(u_agent, v_agent)
             ge = GhostedEdge(v_agent, u_agent, self.graph.edges[edge_key])
             self.new_edges[edge_key] = ge
-            self.edges_to_remove.pop(edge_key, None)
+            self.ghosted_edges[edge_key] = ge
         else:
             self._add_edge_key(u_agent, v_agent)
             self.graph.add_edge(u_agent, v_agent, **kwattr)
@@ -845,7 +842,7 @@ class DirectedSharedNetwork(SharedNetwork):
             edge_key = (u_agent, v_agent)
             ge = GhostedEdge(u_agent, v_agent, self.graph.edges[edge_key])
             self.new_edges[edge_key] = ge
-            self.edges_to_remove.pop(edge_key, None)
+            self.ghosted_edges[edge_key] = ge
         elif u_agent.local_rank != self.rank and v_agent.local_rank == self.rank:
             # assume v_agent is local
             if not self.graph.has_node(u_agent):
@@ -854,7 +851,7 @@ class DirectedSharedNetwork(SharedNetwork):
             edge_key = (u_agent, v_agent)
             ge = GhostedEdge(v_agent, u_agent, self.graph.edges[edge_key])
             self.new_edges[edge_key] = ge
-            self.edges_to_remove.pop(edge_key, None)
+            self.ghosted_edges[edge_key] = ge
         else:
             self.graph.add_edge(u_agent, v_agent, **kwattr)
 
-- 
2.43.0


From d7d6f56b077f082d2d3429aff4de35ba1e390398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:03 +0000
Subject: [PATCH 32/50] fix: synchronizing a shared value layer on a single
 rank raised AttributeError

---
 src/repast4py/value_layer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/repast4py/value_layer.py b/src/repast4py/value_layer.py
index 09a65c8..33dc69a 100644
--- a/src/repast4py/value_layer.py
+++ b/src/repast4py/value_layer.py
@@ -967,6 +967,10 @@ class SharedValueLayer(ValueLayer):
         # ngh_buffers: (ngh_rank, size, shape, bounds, slice_tuple)
         # recv_buf_data: (ngh_rank, size, shape, list of (grid slices, received area slices))
 
+        # nothing is buffered when there is only a single rank
+        if self.cart_comm.Get_size() == 1:
+            return
+
         # fill send buffer from grid view
         send_msg, ngh_buffers = self.send_data
         send_displs = send_msg[1][1].copy()
-- 
2.43.0


From 0c63ad71fdbf21098d9156eb6dc082af5c2377c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:24 +0000
Subject: [PATCH 33/50] fix: a saved space aliased the agents' live coordinates
 and could not hold agents without a location

---
 src/repast4py/checkpoint.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/repast4py/checkpoint.py b/src/repast4py/checkpoint.py
index 965cad0..eb0b35d 100644
--- a/src/repast4py/checkpoint.py
+++ b/src/repast4py/checkpoint.py
@@ -314,7 +314,10 @@ class Checkpoint:
         locations = {}
 
         for agent in context.agents():
-            locations[agent.uid] = space.get_location(agent).coordinates
+            location = space.get_location(agent)
+            # agents need not have a location, and the coordinates are live: copy them
+            if location is not None:
+                locations[agent.uid] = location.coordinates.copy()
         self.spaces[space.name] = locations
 
     def restore_space(self, context: SharedContext, space: Union[SharedGrid, SharedCSpace]):
@@ -330,11 +333,15 @@ class Checkpoint:
         locations = self.spaces[space.name]
         if isinstance(space, SharedGrid):
             for agent in context.agents():
-                location = locations[agent.uid]
+                location = locations.get(agent.uid)
+                if location is None:
+                    continue
                 space.move(agent, DiscretePoint(location[0], location[1], location[2]))
         else:
             for agent in context.agents():
-                location = locations[agent.uid]
+                location = locations.get(agent.uid)
+                if location is None:
+                    continue
                 space.move(agent, ContinuousPoint(location[0], location[1], location[2]))            
 
 
-- 
2.43.0


From d58389f1b586c1113045a768e48451859b065b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:24 +0000
Subject: [PATCH 34/50] fix: a saved network aliased the live edge attributes

---
 src/repast4py/checkpoint.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/repast4py/checkpoint.py b/src/repast4py/checkpoint.py
index eb0b35d..c68306a 100644
--- a/src/repast4py/checkpoint.py
+++ b/src/repast4py/checkpoint.py
@@ -356,13 +356,13 @@ class Checkpoint:
         if network.is_directed:
             for nd in filter(lambda n: n.local_rank == rank, network.graph.nodes):
                 edge_data = [nd.uid]
-                edge_data.append([(o.uid, o.local_rank, network.graph[nd][o]) for o in network.graph.successors(nd)]) # type: ignore
-                edge_data.append([(o.uid, o.local_rank, network.graph[o][nd]) for o in network.graph.predecessors(nd)]) # type: ignore
+                edge_data.append([(o.uid, o.local_rank, dict(network.graph[nd][o])) for o in network.graph.successors(nd)]) # type: ignore
+                edge_data.append([(o.uid, o.local_rank, dict(network.graph[o][nd])) for o in network.graph.predecessors(nd)]) # type: ignore
                 data.append(edge_data)
         else:
             for nd in filter(lambda n: n.local_rank == rank, network.graph.nodes):
                 edge_data = [nd.uid]
-                edge_data.append([(n.uid, n.local_rank, network.graph[nd][n]) for n in network.graph.neighbors(nd)])
+                edge_data.append([(n.uid, n.local_rank, dict(network.graph[nd][n])) for n in network.graph.neighbors(nd)])
                 data.append(edge_data)
 
         net_data = {"name": network.name, "directed": network.is_directed,
-- 
2.43.0


From 26add20b69679c85d01fc8f905eda245b6d0e03d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:27 +0000
Subject: [PATCH 35/50] fix: network files with nested or brace-containing
 attributes could not be read

---
 src/repast4py/network.py | 29 +++++++++--------------------
 1 file changed, 9 insertions(+), 20 deletions(-)

diff --git a/src/repast4py/network.py b/src/repast4py/network.py
index fe64058..9ddfbed 100644
--- a/src/repast4py/network.py
+++ b/src/repast4py/network.py
@@ -15,7 +15,6 @@ from dataclasses import dataclass
 import numpy as np
 import networkx as nx
 from itertools import chain
-import re
 import math
 import json
 from abc import ABC, abstractmethod
@@ -901,13 +900,13 @@ def _parse_graph_desc(line: str):
                          'format: "id [0|1]", where 0 indicates an undirected graph and 1 directed')
 
 
-_LINE_P = re.compile('\{[^}]+\}|\S+')
 _EMPTY_DICT = {}
 
 
 def _parse_node(line: str, line_num: int, graph_data: GraphData, ctx, create_agent: Callable):
     try:
-        vals = _LINE_P.findall(line)
+        # the attributes are the rest of the line
+        vals = line.split(None, 3)
         n_vals = len(vals)
         if n_vals < 3 or n_vals > 4:
             raise ValueError
@@ -940,13 +939,15 @@ def _request_remote_agents(graph_data: GraphData, ctx, create_agent: Callable):
 def _parse_edge(line: str, line_num: int, graph, graph_data: GraphData):
     requested = set()
     try:
-        vals = _LINE_P.findall(line)
+        # the attributes are the rest of the line
+        vals = line.split(None, 2)
         n_vals = len(vals)
         if n_vals < 2 or n_vals > 3:
             raise ValueError
 
         u_id = int(vals[0])
         v_id = int(vals[1])
+        attribs = json.loads(vals[2]) if n_vals == 3 else _EMPTY_DICT
 
         u_in = u_id in graph_data.agents
         v_in = v_id in graph_data.agents
@@ -954,10 +955,7 @@ def _parse_edge(line: str, line_num: int, graph, graph_data: GraphData):
         if u_in and v_in:
             u = graph_data.agents[u_id]
             v = graph_data.agents[v_id]
-            if n_vals == 3:
-                graph.add_edge(u, v, **(json.loads(vals[2])))
-            else:
-                graph.add_edge(u, v)
+            graph.add_edge(u, v, **attribs)
         elif u_in and not v_in:
             v_uid = graph_data.remote_agents[v_id]
             if v_id not in requested:
@@ -965,10 +963,7 @@ def _parse_edge(line: str, line_num: int, graph, graph_data: GraphData):
                 requested.add(v_id)
 
             u_uid = graph_data.agents[u_id].uid
-            if n_vals == 3:
-                graph_data.edges.append((u_uid, v_uid, vals[2]))
-            else:
-                graph_data.edges.append((u_uid, v_uid))
+            graph_data.edges.append((u_uid, v_uid, attribs))
 
         elif not u_in and v_in:
             u_uid = graph_data.remote_agents[u_id]
@@ -976,10 +971,7 @@ def _parse_edge(line: str, line_num: int, graph, graph_data: GraphData):
                 graph_data.requested_agents.append((u_uid, u_uid[2]))
                 requested.add(u_id)
             v_uid = graph_data.agents[v_id].uid
-            if n_vals == 3:
-                graph_data.edges.append((u_uid, v_uid, vals[2]))
-            else:
-                graph_data.edges.append((u_uid, v_uid))
+            graph_data.edges.append((u_uid, v_uid, attribs))
 
     except KeyError:
         raise ValueError(f'Error reading graph description file on line {line_num}. Agent with {u_id} or {v_id} cannot be found') # pyright: ignore[reportPossiblyUnboundVariable]
@@ -994,10 +986,7 @@ def _create_edges(graph, graph_data: GraphData):
         u = graph_data.agents[edge[0][0]]
         v = graph_data.agents[edge[1][0]]
 
-        if len(edge) == 3:
-            graph.add_edge(u, v, **(json.loads(edge[2])))
-        else:
-            graph.add_edge(u, v)
+        graph.add_edge(u, v, **edge[2])
 
 
 def read_network(fpath: str, ctx, create_agent: Callable, restore_agent: Callable):
-- 
2.43.0


From 1289dcc01aee72266f2106867e7568bf7a3ab7c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:27 +0000
Subject: [PATCH 36/50] fix: logging to a file in the current directory raised
 FileNotFoundError

---
 src/repast4py/logging.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/repast4py/logging.py b/src/repast4py/logging.py
index cea93f0..95e34b2 100644
--- a/src/repast4py/logging.py
+++ b/src/repast4py/logging.py
@@ -287,7 +287,7 @@ class ReducingDataSet:
 
         if self._rank == 0:
             parent = os.path.dirname(fpath)
-            if not os.path.exists(parent):
+            if parent and not os.path.exists(parent):
                 os.makedirs(parent)
             self.ticks = []
 
@@ -363,7 +363,7 @@ class TabularLogger:
         if self._rank == 0:
             self._fpath = find_free_filename(fpath)
             parent = os.path.dirname(self._fpath)
-            if not os.path.exists(parent):
+            if parent and not os.path.exists(parent):
                 os.makedirs(parent)
 
             with open(self._fpath, 'w', newline='') as fout:
-- 
2.43.0


From e316ef1ee8c59ccdc18727ae20a5539402a06ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:27 +0000
Subject: [PATCH 37/50] fix: a parameters file without any parameters raised
 AttributeError

---
 src/repast4py/parameters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/repast4py/parameters.py b/src/repast4py/parameters.py
index c6917ff..e42fe2b 100644
--- a/src/repast4py/parameters.py
+++ b/src/repast4py/parameters.py
@@ -64,7 +64,7 @@ def init_params(parameters_file: str, parameters: str, dump_file: str = None) ->
     """
     global params
     with open(parameters_file) as f_in:
-        params = yaml.load(f_in, Loader=yaml.SafeLoader)
+        params = yaml.load(f_in, Loader=yaml.SafeLoader) or {}
     if parameters != '':
         params.update(json.loads(parameters))
 
-- 
2.43.0


From e8bbe22e5f948ddfaa7a2b24a9263672620782a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:27 +0000
Subject: [PATCH 38/50] fix: restoring a network whose agents were not restored
 did not raise the documented ValueError

---
 src/repast4py/checkpoint.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/repast4py/checkpoint.py b/src/repast4py/checkpoint.py
index c68306a..e8a00dc 100644
--- a/src/repast4py/checkpoint.py
+++ b/src/repast4py/checkpoint.py
@@ -439,18 +439,24 @@ class NetworkRestorer:
             else:
                 self.network.add_edge(requests[u], self.context.agent(v), **e_attribs)
 
+    def _agent(self, uid):
+        agent = self.context.agent(uid)
+        if agent is None:
+            raise KeyError(uid)
+        return agent
+
     def restore(self, requests: Dict):
         self.requests = requests
         edges = self.network_save["data"]
         try:
             if self.network.is_directed:
                 for node_uid, successors, predecessors in edges:
-                    node = self.context.agent(node_uid)
+                    node = self._agent(node_uid)
                     self._add_edges(node, successors, self._make_suc_edge, self._add_suc_edge)
                     self._add_edges(node, predecessors, self._make_pre_edge, self._add_pre_edge)
             else:
                 for node_uid, others in edges:
-                    node = self.context.agent(node_uid)
+                    node = self._agent(node_uid)
                     self._add_edges(node, others, self._make_suc_edge, self._add_suc_edge)
         except KeyError:
             raise ValueError("Expected agent not found in context. Have agents been restored to the context?")
-- 
2.43.0


From 9cbae15908026c0ee8557767b1518460db1766d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:44 +0000
Subject: [PATCH 39/50] fix: events scheduled between two partial restores of a
 schedule got the sequence numbers of later ones

---
 src/repast4py/checkpoint.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/repast4py/checkpoint.py b/src/repast4py/checkpoint.py
index e8a00dc..af4a4db 100644
--- a/src/repast4py/checkpoint.py
+++ b/src/repast4py/checkpoint.py
@@ -235,6 +235,8 @@ class Checkpoint:
             runner.schedule.tick = schedule_state['tick']
         else:
             runner = schedule.runner()
+        # events may have been scheduled since an earlier, partial restore
+        last_count = max(schedule_state['last_count'], runner.schedule.last_count)
 
         for evt_data in schedule_state['evts']:
             metadata = evt_data.metadata
@@ -257,7 +259,6 @@ class Checkpoint:
                     scheduled_evt = self._schedule_evt(runner, evt_type, evt_data, evt) # type: ignore
                     evt_processor(metadata, scheduled_evt)
 
-        last_count = schedule_state['last_count']
         runner.schedule.counter = itertools.count(last_count + 1)
         runner.schedule.last_count = last_count
 
-- 
2.43.0


From 72633ff300526d2100193066e1f75793c4b4c778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:19 +0000
Subject: [PATCH 40/50] fix: voided events took part in random ordering, so
 that a restored schedule, which lacks them, ran differently

---
 src/repast4py/schedule.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/repast4py/schedule.py b/src/repast4py/schedule.py
index b8825cc..a8c379e 100644
--- a/src/repast4py/schedule.py
+++ b/src/repast4py/schedule.py
@@ -424,7 +424,10 @@ class Schedule:
             go = True
             while go:
                 heapq.heappop(self.queue)
-                self.executing_group.add_evt(evt)
+                # voided events must not take part in the random ordering: they are
+                # not checkpointed, so a restored schedule would be ordered differently
+                if evt.metadata['__type'] != EvtType.VOID:
+                    self.executing_group.add_evt(evt)
                 if len(self.queue) == 0:
                     go = False
                 else:
-- 
2.43.0


From 87602e77a6f786b8943c32eb4c684a4d92558837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:17 +0000
Subject: [PATCH 41/50] fix: a projection added later receives only the
 requested ghosts

---
 src/repast4py/core.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/repast4py/core.py b/src/repast4py/core.py
index dbe2fcb..a0af061 100644
--- a/src/repast4py/core.py
+++ b/src/repast4py/core.py
@@ -277,14 +277,16 @@ class AgentManager:
         self._ghost_agents[uid] = ghost_agent
 
     def add_ghosts_to_projection(self, projection):
-        """Adds all the ghost agents to the specified projection.
+        """Adds all the requested ghost agents to the specified projection. Any other
+        ghosts belong to the projections that ghosted them.
 
         Args:
             projection: The projection to add the ghosts to
         """
-        for gh in self._ghost_agents.values():
-            gh.ref_count += 1
-            projection.add(gh.agent)
+        for uid, gh in self._ghost_agents.items():
+            if uid in self._req_ghosts:
+                gh.ref_count += 1
+                projection.add(gh.agent)
 
     def get_ghost(self, agent_uid: Tuple, incr: int = 1) -> Agent:
         """Gets the agent with the specified id from the collection
-- 
2.43.0


From f4e2594903e9747dfe3b16ca1ad57c91bd713f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:51 +0000
Subject: [PATCH 42/50] fix: num_edges counted an edge from an agent to itself
 twice in directed networks

---
 src/repast4py/network.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/repast4py/network.py b/src/repast4py/network.py
index 9ddfbed..33df2a1 100644
--- a/src/repast4py/network.py
+++ b/src/repast4py/network.py
@@ -873,7 +873,9 @@ class DirectedSharedNetwork(SharedNetwork):
         Returns:
             The number of edges that contain the specified agent
         """
-        return len(self.graph.out_edges(agent)) + len(self.graph.in_edges(agent)) # type: ignore
+        # an edge from the agent to itself is both an outgoing and an incoming edge
+        self_loops = self.graph.number_of_edges(agent, agent)
+        return len(self.graph.out_edges(agent)) + len(self.graph.in_edges(agent)) - self_loops # type: ignore
 
 
 @dataclass
-- 
2.43.0


From b703c6219fa9f0053f03a0f18bb126bbb2542366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:12 +0000
Subject: [PATCH 43/50] fix: equal points were also unequal

---
 src/repast4py/spacemodule.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/repast4py/spacemodule.cpp b/src/repast4py/spacemodule.cpp
index 0fae1eb..7794311 100644
--- a/src/repast4py/spacemodule.cpp
+++ b/src/repast4py/spacemodule.cpp
@@ -247,10 +247,11 @@ static PyObject* DiscretePoint_repr(R4Py_DiscretePoint* self) {
 }
 
 static PyObject* DiscretePoint_richcmp(PyObject* self, PyObject* other, int op) {
-    if (op == Py_EQ && Py_TYPE(self) == Py_TYPE(other)) {
+    if ((op == Py_EQ || op == Py_NE) && Py_TYPE(self) == Py_TYPE(other)) {
         long_t* p1 = (long_t*)PyArray_DATA(((R4Py_DiscretePoint*)self)->coords);
         long_t* p2 = (long_t*)PyArray_DATA(((R4Py_DiscretePoint*)other)->coords);
-        if (p1[0] == p2[0] && p1[1] == p2[1] && p1[2] == p2[2]) 
+        bool equal = p1[0] == p2[0] && p1[1] == p2[1] && p1[2] == p2[2];
+        if (equal == (op == Py_EQ))
             Py_RETURN_TRUE;
         else
             Py_RETURN_FALSE;
@@ -503,10 +504,11 @@ static PyObject* ContinuousPoint_repr(R4Py_ContinuousPoint* self) {
 }
 
 static PyObject* ContinuousPoint_richcmp(PyObject* self, PyObject* other, int op) {
-    if (op == Py_EQ && Py_TYPE(self) == Py_TYPE(other)) {
+    if ((op == Py_EQ || op == Py_NE) && Py_TYPE(self) == Py_TYPE(other)) {
         double* p1 = (double*)PyArray_DATA(((R4Py_ContinuousPoint*)self)->coords);
         double* p2 = (double*)PyArray_DATA(((R4Py_ContinuousPoint*)other)->coords);
-        if (p1[0] == p2[0] && p1[1] == p2[1] && p1[2] == p2[2]) 
+        bool equal = p1[0] == p2[0] && p1[1] == p2[1] && p1[2] == p2[2];
+        if (equal == (op == Py_EQ))
             Py_RETURN_TRUE;
         else
             Py_RETURN_FALSE;
-- 
2.43.0


From 5ee7d8a706032012c1175d1c3fa35dd231cba0f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:12 +0000
Subject: [PATCH 44/50] fix: events scheduled for the current tick between
 ticks never ran

---
 src/repast4py/schedule.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/repast4py/schedule.py b/src/repast4py/schedule.py
index a8c379e..108805e 100644
--- a/src/repast4py/schedule.py
+++ b/src/repast4py/schedule.py
@@ -308,7 +308,7 @@ class Schedule:
         if at >= self.tick:
             self.last_count = next(self.counter)
             evt.order_idx = self.last_count
-            if at == self.tick:
+            if at == self.tick and self.executing_group.executing:
                 self.executing_group.add_evt(evt)
             else:
                 heapq.heappush(self.queue, (at, self.last_count, evt))
-- 
2.43.0


From fe4af886c599f276cea53dbec40688c0d7a535fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:56 +0000
Subject: [PATCH 45/50] fix: synchronising after an agent was removed and added
 again failed

---
 src/repast4py/context.py |  7 +++++++
 src/repast4py/core.py    |  9 +++++++++
 src/repast4py/network.py | 10 ++++++++++
 3 files changed, 26 insertions(+)

diff --git a/src/repast4py/context.py b/src/repast4py/context.py
index b1c6568..bcbe0a6 100644
--- a/src/repast4py/context.py
+++ b/src/repast4py/context.py
@@ -224,6 +224,8 @@ class SharedContext:
         for gh in self.removed_ghosteds:
             for rank in gh.ghost_ranks:
                 send_data[rank].append(gh.agent.uid)
+            for proj in self.projections.values():
+                proj._agent_removed(gh.agent.uid)
         recv_data = self.comm.alltoall(send_data)
         for updates in recv_data:
             for removed_id in updates:
@@ -231,6 +233,7 @@ class SharedContext:
                 for proj in self.projections.values():
                     if ghost in proj:
                         proj.remove(ghost)
+                    proj._agent_removed(removed_id)
                 self._agent_manager.delete_ghost(removed_id)
 
         self.removed_ghosteds.clear()
@@ -285,6 +288,8 @@ class SharedContext:
                 with this SharedContext are also synchronized. Defaults to True.
         """
 
+        # before anything else: a removed agent may have been added again
+        self._update_removed_ghosts()
         if sync_ghosts:
             self._pre_synch_ghosts()
 
@@ -466,6 +471,7 @@ class SharedContext:
         Returns:
             The list of requested agents.
         """
+        self._update_removed_ghosts()
         sent_agents = [[] for i in range(self.comm.size)]
         requested, ghosts = self._send_requests(requested_agents)
         for rank, requests in enumerate(requested):
@@ -523,6 +529,7 @@ class SharedContext:
             create_agent: a Callable that can take the result of an agent :samp: `save()` and
                 return an agent.
         """
+        self._update_removed_ghosts()
         self._pre_synch_ghosts()
 
         sent_agents = [[] for i in range(self.comm.size)]
diff --git a/src/repast4py/core.py b/src/repast4py/core.py
index a0af061..21b2984 100644
--- a/src/repast4py/core.py
+++ b/src/repast4py/core.py
@@ -356,6 +356,15 @@ class SharedProjection(Protocol):
         """
         pass
 
+    def _agent_removed(self, agent_id: Tuple):
+        """Notifies this projection, at the next synchronization, that the specified agent was
+        removed from the simulation.
+
+        Args:
+            agent_id: the unique id tuple of the agent, which was local to, or a ghost on, this rank.
+        """
+        pass
+
     def _agents_moved_rank(self, moved_agents: List, agent_manager: AgentManager):
         """Notifies this projection that the specified agents have moved rank.
 
diff --git a/src/repast4py/network.py b/src/repast4py/network.py
index 33df2a1..39beee4 100644
--- a/src/repast4py/network.py
+++ b/src/repast4py/network.py
@@ -507,6 +507,16 @@ class SharedNetwork(SharedProjection, ABC):
         """
         self._synch_ghosts(agent_manager, create_agent)
 
+    def _agent_removed(self, agent_id: Tuple):
+        """Notifies this projection, at the next synchronization, that the specified agent was
+        removed from the simulation.
+
+        Args:
+            agent_id: the unique id tuple of the agent, which was local to, or a ghost on, this rank.
+        """
+        self._ghosted_to.pop(agent_id, None)
+        self._ghost_refs.pop(agent_id, None)
+
     def _agent_moving_rank(self, moving_agent: Agent, dest_rank: int, moving_agent_data: List,
                            agent_manager: AgentManager):
         """Notifies this projection that the specified agent is moving from the current rank
-- 
2.43.0


From 54ada5f0ca5eb8f8db531b730e41f46c9c6b347a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:56 +0000
Subject: [PATCH 46/50] fix: grids wrapped coordinates beyond 2^53 to the wrong
 cell

---
 src/repast4py/borders.h | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/repast4py/borders.h b/src/repast4py/borders.h
index d0cf3b5..664eefd 100644
--- a/src/repast4py/borders.h
+++ b/src/repast4py/borders.h
@@ -102,12 +102,21 @@ using CSStickyBorders = StickyBorders<R4Py_ContinuousPoint>;
 // In the transforms below, rounding can put a wrapped continuous coordinate on the excluded
 // maximum, in which case it wraps to the minimum.
 
+inline double wrapped_offset(double coord, long_t min, long_t extent) {
+    return fmod(coord - min, extent);
+}
+
+// exact for every integer: doubles are not, and the difference can overflow
+inline long_t wrapped_offset(long_t coord, long_t min, long_t extent) {
+    return extent > 0 ? (coord % extent - min % extent) % extent : 0;
+}
+
 template <typename PointType>
 void transformX(const PointType* pt, Point<PointType>& transformed_pt, const BoundingBox& bounds) {
     using coord_type  = typename TypeSelector<PointType>::type;
     coord_type* data = (coord_type*) PyArray_DATA(pt->coords);
 
-    coord_type nc = fmod((data[0] - bounds.xmin_), bounds.x_extent_);
+    coord_type nc = wrapped_offset(data[0], bounds.xmin_, bounds.x_extent_);
     transformed_pt.x = nc < 0 ? bounds.xmax_ + nc : bounds.xmin_ + nc;
     if (transformed_pt.x >= bounds.xmax_) transformed_pt.x = bounds.xmin_;
     transformed_pt.y = bounds.ymin_;
@@ -119,11 +128,11 @@ void transformXY(const PointType* pt, Point<PointType>& transformed_pt, const Bo
     using coord_type  = typename TypeSelector<PointType>::type;
     coord_type* data = (coord_type*) PyArray_DATA(pt->coords);
 
-    coord_type nc = fmod(data[0] - bounds.xmin_, bounds.x_extent_);
+    coord_type nc = wrapped_offset(data[0], bounds.xmin_, bounds.x_extent_);
     transformed_pt.x = nc < 0 ? bounds.xmax_ + nc : bounds.xmin_ + nc;
     if (transformed_pt.x >= bounds.xmax_) transformed_pt.x = bounds.xmin_;
 
-    nc = fmod(data[1] - bounds.ymin_, bounds.y_extent_);
+    nc = wrapped_offset(data[1], bounds.ymin_, bounds.y_extent_);
     transformed_pt.y = nc < 0 ? bounds.ymax_ + nc : bounds.ymin_ + nc; 
     if (transformed_pt.y >= bounds.ymax_) transformed_pt.y = bounds.ymin_;
     transformed_pt.z = bounds.zmin_;
@@ -134,15 +143,15 @@ void transformXYZ(const PointType* pt, Point<PointType>& transformed_pt, const B
     using coord_type  = typename TypeSelector<PointType>::type;
     coord_type* data = (coord_type*) PyArray_DATA(pt->coords);
 
-    coord_type nc = fmod((data[0] - bounds.xmin_), bounds.x_extent_);
+    coord_type nc = wrapped_offset(data[0], bounds.xmin_, bounds.x_extent_);
     transformed_pt.x = nc < 0 ? bounds.xmax_ + nc : bounds.xmin_ + nc;
     if (transformed_pt.x >= bounds.xmax_) transformed_pt.x = bounds.xmin_;
 
-    nc = fmod(data[1] - bounds.ymin_, bounds.y_extent_);
+    nc = wrapped_offset(data[1], bounds.ymin_, bounds.y_extent_);
     transformed_pt.y = nc < 0 ? bounds.ymax_ + nc : bounds.ymin_ + nc; 
     if (transformed_pt.y >= bounds.ymax_) transformed_pt.y = bounds.ymin_;
 
-    nc = fmod(data[2] - bounds.zmin_, bounds.z_extent_);
+    nc = wrapped_offset(data[2], bounds.zmin_, bounds.z_extent_);
     transformed_pt.z = nc < 0 ? bounds.zmax_ + nc : bounds.zmin_ + nc;
     if (transformed_pt.z >= bounds.zmax_) transformed_pt.z = bounds.zmin_;
 }
-- 
2.43.0


From abb877ce4111692da1645264fb8d6a43434e80e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:56 +0000
Subject: [PATCH 47/50] fix: moving to a point whose class has its own __new__
 crashed

---
 src/repast4py/geometry.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/repast4py/geometry.cpp b/src/repast4py/geometry.cpp
index c6c3eb0..b79e74b 100644
--- a/src/repast4py/geometry.cpp
+++ b/src/repast4py/geometry.cpp
@@ -9,8 +9,18 @@
 
 namespace repast4py {
 
+// creates an object of the specified type with the constructor of the native point it derives from:
+// a Python subclass' own __new__ may need arguments that are not known here
+static PyObject* new_point(PyTypeObject* pt_type) {
+    PyTypeObject* native = pt_type;
+    while (native->tp_base && native->tp_base != &PyBaseObject_Type) {
+        native = native->tp_base;
+    }
+    return native->tp_new(pt_type, NULL, NULL);
+}
+
 R4Py_DiscretePoint* create_point(PyTypeObject* pt_type, const Point<R4Py_DiscretePoint>& wpt) {
-    R4Py_DiscretePoint* pt = (R4Py_DiscretePoint*)pt_type->tp_new(pt_type, NULL, NULL);
+    R4Py_DiscretePoint* pt = (R4Py_DiscretePoint*)new_point(pt_type);
     update_point(pt, wpt);
     return pt;
 }
@@ -42,7 +52,7 @@ void update_point(R4Py_DiscretePoint* pt, const Point<R4Py_DiscretePoint>& coord
 }
 
 R4Py_ContinuousPoint* create_point(PyTypeObject* pt_type, const Point<R4Py_ContinuousPoint>& wpt) {
-    R4Py_ContinuousPoint* pt = (R4Py_ContinuousPoint*)pt_type->tp_new(pt_type, NULL, NULL);
+    R4Py_ContinuousPoint* pt = (R4Py_ContinuousPoint*)new_point(pt_type);
     update_point(pt, wpt);
     return pt;
 }
-- 
2.43.0


From 49af7b95bb9e8af1160d6c8ac807a07cbd3b5a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:18 +0000
Subject: [PATCH 48/50] fix: spaces, borders and topologies whose __init__ did
 not run crashed

---
 src/repast4py/spacemodule.cpp | 60 +++++++++++++++++++++++++++++++++++
 1 file changed, 60 insertions(+)

diff --git a/src/repast4py/spacemodule.cpp b/src/repast4py/spacemodule.cpp
index 7794311..62b67ba 100644
--- a/src/repast4py/spacemodule.cpp
+++ b/src/repast4py/spacemodule.cpp
@@ -33,6 +33,13 @@ constexpr int PERIODIC_BRDR = 1;
 constexpr int MULT_OT = 0;
 constexpr int SINGLE_OT = 1;
 
+// Whether an object has its native part: it is made by __init__, which subclasses may fail to call.
+static bool initialised(const void* native) {
+    if (native) return true;
+    PyErr_SetString(PyExc_RuntimeError, "The object has not been initialised");
+    return false;
+}
+
 
 //////////////////// DiscretePoint ///////////////////////
 
@@ -632,6 +639,7 @@ static PyObject* GridStickyBorders_transform(PyObject* self, PyObject* args) {
     if (!PyArg_ParseTuple(args, "O!O!", &DiscretePointType, &pt, &DiscretePointType, &ret_pt)) {
         return NULL;
     }
+    if (!initialised(((R4Py_GridStickyBorders*)self)->borders)) return NULL;
     ((R4Py_GridStickyBorders*)self)->borders->transform((R4Py_DiscretePoint*)pt, (R4Py_DiscretePoint*)ret_pt);
     Py_RETURN_NONE;
 }
@@ -747,6 +755,7 @@ static PyObject* GridPeriodicBorders_transform(PyObject* self, PyObject* args) {
     if (!PyArg_ParseTuple(args, "O!O!", &DiscretePointType, &pt, &DiscretePointType, &ret_pt)) {
         return NULL;
     }
+    if (!initialised(((R4Py_GridPeriodicBorders*)self)->borders)) return NULL;
     ((R4Py_GridPeriodicBorders*)self)->borders->transform((R4Py_DiscretePoint*)pt, (R4Py_DiscretePoint*)ret_pt);
     Py_RETURN_NONE;
 }
@@ -898,6 +907,7 @@ static PyObject* Grid_add(PyObject* self, PyObject* args) {
     if (!PyArg_ParseTuple(args, "O!", &R4Py_AgentType, &agent)) {
         return NULL;
     }
+    if (!initialised(((R4Py_Grid*)self)->grid)) return NULL;
     bool ret_val = ((R4Py_Grid*)self)->grid->add((R4Py_Agent*)agent);
     return PyBool_FromLong(static_cast<long>(ret_val));
 }
@@ -907,6 +917,7 @@ static PyObject* Grid_remove(PyObject* self, PyObject* args) {
     if (!PyArg_ParseTuple(args, "O!", &R4Py_AgentType, &agent)) {
         return NULL;
     }
+    if (!initialised(((R4Py_Grid*)self)->grid)) return NULL;
     bool ret_val = ((R4Py_Grid*)self)->grid->remove((R4Py_Agent*)agent);
     return PyBool_FromLong(static_cast<long>(ret_val));
 }
@@ -916,6 +927,7 @@ static PyObject* Grid_contains(PyObject* self, PyObject* args) {
     if (!PyArg_ParseTuple(args, "O!", &R4Py_AgentType, &agent)) {
         return NULL;
     }
+    if (!initialised(((R4Py_Grid*)self)->grid)) return NULL;
     bool ret_val = ((R4Py_Grid*)self)->grid->contains((R4Py_Agent*)agent);
     return PyBool_FromLong(static_cast<long>(ret_val));
 }
@@ -926,6 +938,7 @@ static PyObject* Grid_getLocation(PyObject* self, PyObject* args) {
         return NULL;
     }
 
+    if (!initialised(((R4Py_Grid*)self)->grid)) return NULL;
     R4Py_DiscretePoint* pt = ((R4Py_Grid*)self)->grid->getLocation((R4Py_Agent*)agent);
     if (pt) {
         Py_INCREF(pt);
@@ -943,6 +956,7 @@ static PyObject* Grid_move(PyObject* self, PyObject* args) {
     }
 
     try {
+        if (!initialised(((R4Py_Grid*)self)->grid)) return NULL;
         R4Py_DiscretePoint* ret = ((R4Py_Grid*)self)->grid->move((R4Py_Agent*)agent, (R4Py_DiscretePoint*)pt);
         if (ret) {
             Py_INCREF(ret);
@@ -963,6 +977,7 @@ static PyObject* Grid_getAgent(PyObject* self, PyObject* args) {
         return NULL;
     }
 
+    if (!initialised(((R4Py_Grid*)self)->grid)) return NULL;
     R4Py_Agent* ret =  ((R4Py_Grid*)self)->grid->getAgentAt((R4Py_DiscretePoint*)pt);
     if (ret) {
         // Is this necessary??
@@ -980,6 +995,7 @@ static PyObject* Grid_getAgents(PyObject* self, PyObject* args) {
         return NULL;
     }
 
+    if (!initialised(((R4Py_Grid*)self)->grid)) return NULL;
     AgentListPtr list = ((R4Py_Grid*)self)->grid->getAgentsAt((R4Py_DiscretePoint*)pt);
     R4Py_AgentIter* agent_iter = (R4Py_AgentIter*)R4Py_AgentIterType.tp_new(&R4Py_AgentIterType, NULL, NULL);
     agent_iter->iter = new TAgentIter<AgentList>(list);
@@ -987,6 +1003,7 @@ static PyObject* Grid_getAgents(PyObject* self, PyObject* args) {
 }
 
 static PyObject* Grid_getName(PyObject* self, PyObject* args) {
+    if (!initialised(((R4Py_Grid*)self)->grid)) return NULL;
     return PyUnicode_FromString(((R4Py_Grid*)self)->grid->name().c_str());
 }
 
@@ -1229,6 +1246,7 @@ static PyObject* SharedGrid_add(PyObject* self, PyObject* args) {
     if (!PyArg_ParseTuple(args, "O!", &R4Py_AgentType, &agent)) {
         return NULL;
     }
+    if (!initialised(((R4Py_SharedGrid*)self)->grid)) return NULL;
     bool ret_val = ((R4Py_SharedGrid*)self)->grid->add((R4Py_Agent*)agent);
     return PyBool_FromLong(static_cast<long>(ret_val));
 }
@@ -1238,6 +1256,7 @@ static PyObject* SharedGrid_remove(PyObject* self, PyObject* args) {
     if (!PyArg_ParseTuple(args, "O!", &R4Py_AgentType, &agent)) {
         return NULL;
     }
+    if (!initialised(((R4Py_SharedGrid*)self)->grid)) return NULL;
     bool ret_val = ((R4Py_SharedGrid*)self)->grid->remove((R4Py_Agent*)agent);
     return PyBool_FromLong(static_cast<long>(ret_val));
 }
@@ -1247,6 +1266,7 @@ static PyObject* SharedGrid_contains(PyObject* self, PyObject* args) {
     if (!PyArg_ParseTuple(args, "O!", &R4Py_AgentType, &agent)) {
         return NULL;
     }
+    if (!initialised(((R4Py_SharedGrid*)self)->grid)) return NULL;
     bool ret_val = ((R4Py_SharedGrid*)self)->grid->contains((R4Py_Agent*)agent);
     return PyBool_FromLong(static_cast<long>(ret_val));
 }
@@ -1257,6 +1277,7 @@ static PyObject* SharedGrid_getLocation(PyObject* self, PyObject* args) {
         return NULL;
     }
 
+    if (!initialised(((R4Py_SharedGrid*)self)->grid)) return NULL;
     R4Py_DiscretePoint* pt = ((R4Py_SharedGrid*)self)->grid->getLocation((R4Py_Agent*)agent);
     if (pt) {
         Py_INCREF(pt);
@@ -1274,6 +1295,7 @@ static PyObject* SharedGrid_move(PyObject* self, PyObject* args) {
     }
 
     try {
+        if (!initialised(((R4Py_SharedGrid*)self)->grid)) return NULL;
         R4Py_DiscretePoint* ret = ((R4Py_SharedGrid*)self)->grid->move((R4Py_Agent*)agent, (R4Py_DiscretePoint*)pt);
         if (ret) {
             Py_INCREF(ret);
@@ -1305,6 +1327,7 @@ static PyObject* SharedGrid_synchMove(PyObject* self, PyObject* args) {
     pt_data[1] = obj_data[1];
     pt_data[2] = obj_data[2];
 
+    if (!initialised(((R4Py_SharedGrid*)self)->grid)) return NULL;
     ((R4Py_SharedGrid*)self)->grid->move((R4Py_Agent*)agent, pt);
     Py_DECREF(pt);
 
@@ -1317,6 +1340,7 @@ static PyObject* SharedGrid_getAgent(PyObject* self, PyObject* args) {
         return NULL;
     }
 
+    if (!initialised(((R4Py_SharedGrid*)self)->grid)) return NULL;
     R4Py_Agent* ret =  ((R4Py_SharedGrid*)self)->grid->getAgentAt((R4Py_DiscretePoint*)pt);
     if (ret) {
         // Is this necessary??
@@ -1334,6 +1358,7 @@ static PyObject* SharedGrid_getAgents(PyObject* self, PyObject* args) {
         return NULL;
     }
 
+    if (!initialised(((R4Py_SharedGrid*)self)->grid)) return NULL;
     AgentListPtr list = ((R4Py_SharedGrid*)self)->grid->getAgentsAt((R4Py_DiscretePoint*)pt);
     R4Py_AgentIter* agent_iter = (R4Py_AgentIter*)R4Py_AgentIterType.tp_new(&R4Py_AgentIterType, NULL, NULL);
     agent_iter->iter = new TAgentIter<AgentList>(list);
@@ -1350,6 +1375,7 @@ static PyObject* SharedGrid_getNumAgents(PyObject* self, PyObject* args, PyObjec
         return NULL;
     }
 
+    if (!initialised(((R4Py_SharedGrid*)self)->grid)) return NULL;
     AgentListPtr list = ((R4Py_SharedGrid*)self)->grid->getAgentsAt((R4Py_DiscretePoint*)pt);
     if (agent_type == -1) {
         return PyLong_FromLongT(list->size());
@@ -1365,6 +1391,7 @@ static PyObject* SharedGrid_getNumAgents(PyObject* self, PyObject* args, PyObjec
 }
 
 static PyObject* SharedGrid_getOOBData(PyObject* self, PyObject* args) {
+    if (!initialised(((R4Py_SharedGrid*)self)->grid)) return NULL;
     std::shared_ptr<std::map<R4Py_AgentID*, PyObject*, agent_id_comp>> oob = ((R4Py_SharedGrid*)self)->grid->getOOBData();
     R4Py_PyObjectIter* obj_iter = (R4Py_PyObjectIter*)R4Py_PyObjectIterType.tp_new(&R4Py_PyObjectIterType, NULL, NULL);
     obj_iter->iter = new ValueIter<std::map<R4Py_AgentID*, PyObject*, agent_id_comp>>(oob);
@@ -1372,6 +1399,7 @@ static PyObject* SharedGrid_getOOBData(PyObject* self, PyObject* args) {
 }
 
 static PyObject* SharedGrid_getBufferData(PyObject* self, PyObject* args) { 
+    if (!initialised(((R4Py_SharedGrid*)self)->grid)) return NULL;
     std::shared_ptr<std::vector<CTNeighbor>> nghs = ((R4Py_SharedGrid*)self)->grid->getNeighborData();
     R4Py_PyObjectIter* obj_iter = (R4Py_PyObjectIter*)R4Py_PyObjectIterType.tp_new(&R4Py_PyObjectIterType, NULL, NULL);
     obj_iter->iter = new SequenceIter<std::vector<CTNeighbor>, GetBufferInfo>(nghs);
@@ -1379,11 +1407,13 @@ static PyObject* SharedGrid_getBufferData(PyObject* self, PyObject* args) {
 }
 
 static PyObject* SharedGrid_clearOOBData(PyObject* self, PyObject* args) {
+    if (!initialised(((R4Py_SharedGrid*)self)->grid)) return NULL;
     ((R4Py_SharedGrid*)self)->grid->clearOOBData();
     Py_RETURN_NONE;
 }
 
 static PyObject* SharedGrid_getLocalBounds(PyObject* self, PyObject* args) {
+    if (!initialised(((R4Py_SharedGrid*)self)->grid)) return NULL;
     BoundingBox bounds = ((R4Py_SharedGrid*)self)->grid->getLocalBounds();
     #if defined(_MSC_VER)
     PyObject* box_args = Py_BuildValue("(LLLLLL)", bounds.xmin_, bounds.x_extent_, bounds.ymin_, bounds.y_extent_,
@@ -1563,6 +1593,7 @@ static PyMethodDef SharedGrid_methods[] = {
 };
 
 static PyObject* SharedGrid_getName(PyObject* self, PyObject* args) {
+    if (!initialised(((R4Py_SharedGrid*)self)->grid)) return NULL;
     return PyUnicode_FromString(((R4Py_SharedGrid*)self)->grid->name().c_str());
 }
 
@@ -1722,6 +1753,7 @@ static PyObject* CSpace_add(PyObject* self, PyObject* args) {
     if (!PyArg_ParseTuple(args, "O!", &R4Py_AgentType, &agent)) {
         return NULL;
     }
+    if (!initialised(((R4Py_CSpace*)self)->space)) return NULL;
     bool ret_val = ((R4Py_CSpace*)self)->space->add((R4Py_Agent*)agent);
     return PyBool_FromLong(static_cast<long>(ret_val));
 }
@@ -1731,6 +1763,7 @@ static PyObject* CSpace_remove(PyObject* self, PyObject* args) {
     if (!PyArg_ParseTuple(args, "O!", &R4Py_AgentType, &agent)) {
         return NULL;
     }
+    if (!initialised(((R4Py_CSpace*)self)->space)) return NULL;
     bool ret_val = ((R4Py_CSpace*)self)->space->remove((R4Py_Agent*)agent);
     return PyBool_FromLong(static_cast<long>(ret_val));
 }
@@ -1740,6 +1773,7 @@ static PyObject* CSpace_contains(PyObject* self, PyObject* args) {
     if (!PyArg_ParseTuple(args, "O!", &R4Py_AgentType, &agent)) {
         return NULL;
     }
+    if (!initialised(((R4Py_CSpace*)self)->space)) return NULL;
     bool ret_val = ((R4Py_CSpace*)self)->space->contains((R4Py_Agent*)agent);
     return PyBool_FromLong(static_cast<long>(ret_val));
 }
@@ -1750,6 +1784,7 @@ static PyObject* CSpace_getLocation(PyObject* self, PyObject* args) {
         return NULL;
     }
 
+    if (!initialised(((R4Py_CSpace*)self)->space)) return NULL;
     R4Py_ContinuousPoint* pt = ((R4Py_CSpace*)self)->space->getLocation((R4Py_Agent*)agent);
     if (pt) {
         Py_INCREF(pt);
@@ -1767,6 +1802,7 @@ static PyObject* CSpace_move(PyObject* self, PyObject* args) {
     }
 
     try {
+        if (!initialised(((R4Py_CSpace*)self)->space)) return NULL;
         R4Py_ContinuousPoint* ret = ((R4Py_CSpace*)self)->space->move((R4Py_Agent*)agent, (R4Py_ContinuousPoint*)pt);
         if (ret) {
             Py_INCREF(ret);
@@ -1787,6 +1823,7 @@ static PyObject* CSpace_getAgent(PyObject* self, PyObject* args) {
         return NULL;
     }
 
+    if (!initialised(((R4Py_CSpace*)self)->space)) return NULL;
     R4Py_Agent* ret =  ((R4Py_CSpace*)self)->space->getAgentAt((R4Py_ContinuousPoint*)pt);
     if (ret) {
         // Is this necessary??
@@ -1804,6 +1841,7 @@ static PyObject* CSpace_getAgents(PyObject* self, PyObject* args) {
         return NULL;
     }
 
+    if (!initialised(((R4Py_CSpace*)self)->space)) return NULL;
     AgentListPtr list = ((R4Py_CSpace*)self)->space->getAgentsAt((R4Py_ContinuousPoint*)pt);
     R4Py_AgentIter* agent_iter = (R4Py_AgentIter*)R4Py_AgentIterType.tp_new(&R4Py_AgentIterType, NULL, NULL);
     agent_iter->iter = new TAgentIter<AgentList>(list);
@@ -1831,6 +1869,7 @@ static PyObject* CSpace_getAgentsWithin(PyObject* self, PyObject* args) {
 
     BoundingBox box(xmin, width, ymin, height, zmin, depth);
     std::shared_ptr<std::vector<R4Py_Agent*>> agents = std::make_shared<std::vector<R4Py_Agent*>>();
+    if (!initialised(((R4Py_CSpace*)self)->space)) return NULL;
     ((R4Py_CSpace*)self)->space->getAgentsWithin(box, agents);
     R4Py_AgentIter* agent_iter = (R4Py_AgentIter*)R4Py_AgentIterType.tp_new(&R4Py_AgentIterType, NULL, NULL);
     agent_iter->iter = new TAgentIter<std::vector<R4Py_Agent*>>(agents);
@@ -1838,6 +1877,7 @@ static PyObject* CSpace_getAgentsWithin(PyObject* self, PyObject* args) {
 }
 
 static PyObject* CSpace_getName(PyObject* self, PyObject* args) {
+    if (!initialised(((R4Py_CSpace*)self)->space)) return NULL;
     return PyUnicode_FromString(((R4Py_CSpace*)self)->space->name().c_str());
 }
 
@@ -2111,6 +2151,7 @@ static PyObject* SharedCSpace_add(PyObject* self, PyObject* args) {
     if (!PyArg_ParseTuple(args, "O!", &R4Py_AgentType, &agent)) {
         return NULL;
     }
+    if (!initialised(((R4Py_SharedCSpace*)self)->space)) return NULL;
     bool ret_val = ((R4Py_SharedCSpace*)self)->space->add((R4Py_Agent*)agent);
     return PyBool_FromLong(static_cast<long>(ret_val));
 }
@@ -2131,6 +2172,7 @@ static PyObject* SharedCSpace_remove(PyObject* self, PyObject* args) {
     //          sleep(5);
     // }
 
+    if (!initialised(((R4Py_SharedCSpace*)self)->space)) return NULL;
     bool ret_val = ((R4Py_SharedCSpace*)self)->space->remove((R4Py_Agent*)agent);
     return PyBool_FromLong(static_cast<long>(ret_val));
 }
@@ -2141,6 +2183,7 @@ static PyObject* SharedCSpace_contains(PyObject* self, PyObject* args) {
         return NULL;
     }
 
+    if (!initialised(((R4Py_SharedCSpace*)self)->space)) return NULL;
     bool ret_val = ((R4Py_SharedCSpace*)self)->space->contains((R4Py_Agent*)agent);
     return PyBool_FromLong(static_cast<long>(ret_val));
 }
@@ -2151,6 +2194,7 @@ static PyObject* SharedCSpace_getLocation(PyObject* self, PyObject* args) {
         return NULL;
     }
 
+    if (!initialised(((R4Py_SharedCSpace*)self)->space)) return NULL;
     R4Py_ContinuousPoint* pt = ((R4Py_SharedCSpace*)self)->space->getLocation((R4Py_Agent*)agent);
     if (pt) {
         Py_INCREF(pt);
@@ -2168,6 +2212,7 @@ static PyObject* SharedCSpace_move(PyObject* self, PyObject* args) {
     }
 
     try {
+        if (!initialised(((R4Py_SharedCSpace*)self)->space)) return NULL;
         R4Py_ContinuousPoint* ret = ((R4Py_SharedCSpace*)self)->space->move((R4Py_Agent*)agent, (R4Py_ContinuousPoint*)pt);
         if (ret) {
             Py_INCREF(ret);
@@ -2199,6 +2244,7 @@ static PyObject* SharedCSpace_synchMove(PyObject* self, PyObject* args) {
     pt_data[1] = obj_data[1];
     pt_data[2] = obj_data[2];
 
+    if (!initialised(((R4Py_SharedCSpace*)self)->space)) return NULL;
     ((R4Py_SharedCSpace*)self)->space->move((R4Py_Agent*)agent, pt);
     Py_DECREF(pt);
 
@@ -2211,6 +2257,7 @@ static PyObject* SharedCSpace_getAgent(PyObject* self, PyObject* args) {
         return NULL;
     }
 
+    if (!initialised(((R4Py_SharedCSpace*)self)->space)) return NULL;
     R4Py_Agent* ret =  ((R4Py_SharedCSpace*)self)->space->getAgentAt((R4Py_ContinuousPoint*)pt);
     if (ret) {
         // Is this necessary??
@@ -2228,6 +2275,7 @@ static PyObject* SharedCSpace_getAgents(PyObject* self, PyObject* args) {
         return NULL;
     }
 
+    if (!initialised(((R4Py_SharedCSpace*)self)->space)) return NULL;
     AgentListPtr list = ((R4Py_SharedCSpace*)self)->space->getAgentsAt((R4Py_ContinuousPoint*)pt);
     R4Py_AgentIter* agent_iter = (R4Py_AgentIter*)R4Py_AgentIterType.tp_new(&R4Py_AgentIterType, NULL, NULL);
     agent_iter->iter = new TAgentIter<AgentList>(list);
@@ -2244,6 +2292,7 @@ static PyObject* SharedCSpace_getNumAgents(PyObject* self, PyObject* args, PyObj
         return NULL;
     }
 
+    if (!initialised(((R4Py_SharedCSpace*)self)->space)) return NULL;
     AgentListPtr list = ((R4Py_SharedCSpace*)self)->space->getAgentsAt((R4Py_ContinuousPoint*)pt);
     if (agent_type == -1) {
         return PyLong_FromLongT(list->size());
@@ -2259,6 +2308,7 @@ static PyObject* SharedCSpace_getNumAgents(PyObject* self, PyObject* args, PyObj
 }
 
 static PyObject* SharedCSpace_getOOBData(PyObject* self, PyObject* args) {
+    if (!initialised(((R4Py_SharedCSpace*)self)->space)) return NULL;
     std::shared_ptr<std::map<R4Py_AgentID*, PyObject*, agent_id_comp>> oob = ((R4Py_SharedCSpace*)self)->space->getOOBData();
     R4Py_PyObjectIter* obj_iter = (R4Py_PyObjectIter*)R4Py_PyObjectIterType.tp_new(&R4Py_PyObjectIterType, NULL, NULL);
     obj_iter->iter = new ValueIter<std::map<R4Py_AgentID*, PyObject*, agent_id_comp>>(oob);
@@ -2266,6 +2316,7 @@ static PyObject* SharedCSpace_getOOBData(PyObject* self, PyObject* args) {
 }
 
 static PyObject* SharedCSpace_getBufferData(PyObject* self, PyObject* args) { 
+    if (!initialised(((R4Py_SharedCSpace*)self)->space)) return NULL;
     std::shared_ptr<std::vector<CTNeighbor>> nghs = ((R4Py_SharedCSpace*)self)->space->getNeighborData();
     R4Py_PyObjectIter* obj_iter = (R4Py_PyObjectIter*)R4Py_PyObjectIterType.tp_new(&R4Py_PyObjectIterType, NULL, NULL);
     obj_iter->iter = new SequenceIter<std::vector<CTNeighbor>, GetBufferInfo>(nghs);
@@ -2273,11 +2324,13 @@ static PyObject* SharedCSpace_getBufferData(PyObject* self, PyObject* args) {
 }
 
 static PyObject* SharedCSpace_clearOOBData(PyObject* self, PyObject* args) {
+    if (!initialised(((R4Py_SharedCSpace*)self)->space)) return NULL;
     ((R4Py_SharedCSpace*)self)->space->clearOOBData();
     Py_RETURN_NONE;
 }
 
 static PyObject* SharedCSpace_getLocalBounds(PyObject* self, PyObject* args) {
+    if (!initialised(((R4Py_SharedCSpace*)self)->space)) return NULL;
     BoundingBox bounds = ((R4Py_SharedCSpace*)self)->space->getLocalBounds();
     #if defined(_MSC_VER)
     PyObject* box_args = Py_BuildValue("(LLLLLL)", bounds.xmin_, bounds.x_extent_, bounds.ymin_, bounds.y_extent_,
@@ -2318,6 +2371,7 @@ static PyObject* SharedCSpace_getAgentsWithin(PyObject* self, PyObject* args) {
 
     BoundingBox box(xmin, width, ymin, height, zmin, depth);
     std::shared_ptr<std::vector<R4Py_Agent*>> agents = std::make_shared<std::vector<R4Py_Agent*>>();
+    if (!initialised(((R4Py_SharedCSpace*)self)->space)) return NULL;
     ((R4Py_SharedCSpace*)self)->space->getAgentsWithin(box, agents);
     R4Py_AgentIter* agent_iter = (R4Py_AgentIter*)R4Py_AgentIterType.tp_new(&R4Py_AgentIterType, NULL, NULL);
     agent_iter->iter = new TAgentIter<std::vector<R4Py_Agent*>>(agents);
@@ -2325,6 +2379,7 @@ static PyObject* SharedCSpace_getAgentsWithin(PyObject* self, PyObject* args) {
 }
 
 static PyObject* SharedCSpace_getName(PyObject* self, PyObject* args) {
+    if (!initialised(((R4Py_SharedCSpace*)self)->space)) return NULL;
     return PyUnicode_FromString(((R4Py_SharedCSpace*)self)->space->name().c_str());
 }
 
@@ -2646,12 +2701,14 @@ static int CartesianTopology_init(R4Py_CartesianTopology* self, PyObject* args,
 
 static PyObject* CartesianTopology_getCartComm(PyObject* self, void* closure) {
     PyObject* comm = ((R4Py_CartesianTopology*)self)->cart_comm;
+    if (!initialised(comm)) return NULL;
     Py_INCREF(comm);
     return comm;
 }
 
 static PyObject* CartesianTopology_getLocalBounds(PyObject* self, void* args) {
     BoundingBox bounds(0, 0, 0, 0, 0, 0);
+    if (!initialised(((R4Py_CartesianTopology*)self)->topo)) return NULL;
     ((R4Py_CartesianTopology*)self)->topo->getBounds(bounds);
     #if defined(_MSC_VER)
     PyObject* box_args = Py_BuildValue("(LLLLLL)", bounds.xmin_, bounds.x_extent_, bounds.ymin_, bounds.y_extent_,
@@ -2673,6 +2730,7 @@ static PyObject* CartesianTopology_getLocalBounds(PyObject* self, void* args) {
 
 static PyObject* CartesianTopology_getCartCoords(PyObject* self, void* closure) {
     std::vector<int> coords;
+    if (!initialised(((R4Py_CartesianTopology*)self)->topo)) return NULL;
     ((R4Py_CartesianTopology*)self)->topo->getCoords(coords);
     #if defined(_MSC_VER)
     if (coords.size() == 1) {
@@ -2713,6 +2771,7 @@ static PyObject* CartesianTopology_computeBufferData(PyObject* self, PyObject* a
     // }
     
     std::vector<int> coords;
+    if (!initialised(((R4Py_CartesianTopology*)self)->topo)) return NULL;
     ((R4Py_CartesianTopology*)self)->topo->getCoords(coords);
     auto nghs = std::make_shared<std::vector<CTNeighbor>>();
     ((R4Py_CartesianTopology*)self)->topo->getNeighbors(*nghs);
@@ -2728,6 +2787,7 @@ static PyObject* CartesianTopology_computeBufferData(PyObject* self, PyObject* a
 }
 
 static PyObject* CartesianTopology_procsPerDim(PyObject* self, void* args) {
+    if (!initialised(((R4Py_CartesianTopology*)self)->topo)) return NULL;
     int num_dims = ((R4Py_CartesianTopology*)self)->topo->numDims();
     const int* procs_per_dim = ((R4Py_CartesianTopology*)self)->topo->procsPerDim();
 
-- 
2.43.0


From 6be6b9dc12b5f85a2804e7cadd16d1f560e1853d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:15 +0000
Subject: [PATCH 49/50] fix: events without a priority must not disturb the
 order of the others, nor repeating events go back in time

The default priority, NaN, does not compare, so one such event left the prioritised
events of its tick unsorted. A negative interval made a repeating event run in the
past, and NaN as interval corrupted the queue.
---
 src/repast4py/schedule.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/repast4py/schedule.py b/src/repast4py/schedule.py
index 108805e..a4fbb17 100644
--- a/src/repast4py/schedule.py
+++ b/src/repast4py/schedule.py
@@ -102,6 +102,8 @@ class RepeatingEvent(ScheduledEvent):
                  priority: float = float('nan'), metadata: Dict = {}):
         _metadata = {'__type': EvtType.REPEATING}
         _metadata.update(metadata)
+        if not interval >= 0:
+            raise ValueError(f'The interval of a repeating event must not be negative: {interval}')
         super().__init__(at, evt, priority_type, priority, _metadata)
         self.interval = interval
 
@@ -224,7 +226,8 @@ class ScheduleGroup:
         if self.prioritized:
             rng = random.default_rng
             # add random actions randomly to prioritized actions
-            self.prioritized.sort(key=lambda evt: evt.priority)
+            # events without a priority (NaN, the default, does not compare) follow those with one
+            self.prioritized.sort(key=lambda evt: (evt.priority != evt.priority, evt.priority))
             for evt in self.random:
                 idx = rng.integers(0, len(self.prioritized), endpoint=True)
                 self.prioritized.insert(idx, evt)
-- 
2.43.0


From 570ed2cde942b8cea1dc81c882d8eb8f4eb2defa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:15 +0000
Subject: [PATCH 50/50] fix: coordinates that are not numbers are no location

Moving an agent to NaN, or to an infinite coordinate in a periodic continuous space, put it outside
the bounds and, as NaN cannot be ordered, among the agents of an unrelated location, where it stayed
after it had left. Such moves are now refused, and queries at NaN find nobody.
---
 src/repast4py/cspace.h   | 5 +++++
 src/repast4py/geometry.h | 6 ++++++
 src/repast4py/space.h    | 2 ++
 3 files changed, 13 insertions(+)

diff --git a/src/repast4py/cspace.h b/src/repast4py/cspace.h
index 2a5cc8d..cc4067c 100644
--- a/src/repast4py/cspace.h
+++ b/src/repast4py/cspace.h
@@ -88,6 +88,11 @@ R4Py_ContinuousPoint* BaseCSpace<AccessorType, BorderType>::move(R4Py_Agent* age
     auto iter = agent_map.find(agent->aid);
     if (iter != agent_map.end()) {
         borders.transform(pt, wpt);
+        if (!is_location(wpt)) {
+            R4Py_AgentID* id = agent->aid;
+            throw std::invalid_argument("Error moving agent (" + std::to_string(id->id) + "," +
+                std::to_string(id->type) + "): the coordinates are not a location in " + name_);
+        }
         if (!point_equals(iter->second->pt, wpt)) {
             if (accessor.put(agent, location_map, wpt)) {
                 if (iter->second->pt) {
diff --git a/src/repast4py/geometry.h b/src/repast4py/geometry.h
index a9ceed1..90cc2df 100644
--- a/src/repast4py/geometry.h
+++ b/src/repast4py/geometry.h
@@ -75,6 +75,12 @@ void extract_coords(R4Py_ContinuousPoint* pt, Point<R4Py_ContinuousPoint>& coord
 void update_point(R4Py_ContinuousPoint* pt, const Point<R4Py_ContinuousPoint>& coords);
 
 
+// false if any coordinate is NaN, which cannot be ordered, and so is no location
+template<typename PointType>
+bool is_location(const Point<PointType>& pt) {
+    return pt.x == pt.x && pt.y == pt.y && pt.z == pt.z;
+}
+
 template<typename PointType>
 struct PointComp {
     bool operator()(const Point<PointType>& p1, const Point<PointType>& p2) {
diff --git a/src/repast4py/space.h b/src/repast4py/space.h
index 69a29fb..1acaf98 100644
--- a/src/repast4py/space.h
+++ b/src/repast4py/space.h
@@ -134,12 +134,14 @@ bool BaseSpace<PointType, AccessorType, BorderType>::remove(R4Py_Agent* agent) {
 template<typename PointType, typename AccessorType, typename BorderType>
 R4Py_Agent* BaseSpace<PointType, AccessorType, BorderType>::getAgentAt(PointType* pt) {
     extract_coords(pt, wpt);
+    if (!is_location(wpt)) return nullptr;
     return accessor.get(location_map, wpt);
 }
 
 template<typename PointType, typename AccessorType, typename BorderType>
 AgentListPtr BaseSpace<PointType, AccessorType, BorderType>::getAgentsAt(PointType* pt) {
     extract_coords(pt, wpt);
+    if (!is_location(wpt)) return std::make_shared<AgentList>();
     return accessor.getAll(location_map, wpt);
 }
 
-- 
2.43.0

