From 545ece9058adb2f61eba22ff48c588c864aac715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:58 +0000
Subject: [PATCH 01/21] fix: Graph::removeEdge rejects the id one past the last
 edge

---
 ndt_gslam/include/ndt_gslam/slam_optimizer/pose_graph.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ndt_gslam/include/ndt_gslam/slam_optimizer/pose_graph.h b/ndt_gslam/include/ndt_gslam/slam_optimizer/pose_graph.h
index c6e1319..b148888 100644
--- a/ndt_gslam/include/ndt_gslam/slam_optimizer/pose_graph.h
+++ b/ndt_gslam/include/ndt_gslam/slam_optimizer/pose_graph.h
@@ -99,7 +99,7 @@ typename Graph<P, T>::Id Graph<P, T>::addEdge(E&& edg)
 template <typename P, typename T>
 bool Graph<P, T>::removeEdge(Id edge_id)
 {
-  if (edge_id > edges_.size())
+  if (edge_id >= edges_.size())
     return false;
   if (std::find(id_edge_pool_.begin(), id_edge_pool_.end(), edge_id) !=
       id_edge_pool_.end())
-- 
2.43.0


From f2fac0946b690067b9c5774c21fd6ac6f4afbd46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:58 +0000
Subject: [PATCH 02/21] fix: removing an edge also removes it from the edge
 lists of its nodes

---
 .../ndt_gslam/slam_optimizer/pose_graph.h     | 20 +++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/ndt_gslam/include/ndt_gslam/slam_optimizer/pose_graph.h b/ndt_gslam/include/ndt_gslam/slam_optimizer/pose_graph.h
index b148888..b28d605 100644
--- a/ndt_gslam/include/ndt_gslam/slam_optimizer/pose_graph.h
+++ b/ndt_gslam/include/ndt_gslam/slam_optimizer/pose_graph.h
@@ -1,6 +1,7 @@
 #ifndef NDT_GSLAM_POSE_GRAPH
 #define NDT_GSLAM_POSE_GRAPH
 
+#include <algorithm>
 #include <Eigen/Eigen>
 #include <iostream>
 #include <map>
@@ -104,6 +105,9 @@ bool Graph<P, T>::removeEdge(Id edge_id)
   if (std::find(id_edge_pool_.begin(), id_edge_pool_.end(), edge_id) !=
       id_edge_pool_.end())
     return false;
+  E* edge = edges_[edge_id].get();
+  nodes_[edge->getFrom()->getId()]->removeEdgeOut(edge);
+  nodes_[edge->getTo()->getId()]->removeEdgeIn(edge);
   id_edge_pool_.push_back(edge_id);
   edges_[edge_id].reset(nullptr);
   return true;
@@ -399,6 +403,8 @@ public:
   void addToPose(const typename P::Pose& pose);
   bool addEdgeOut(Edge<P, T>* e);
   bool addEdgeIn(Edge<P, T>* e);
+  void removeEdgeOut(Edge<P, T>* e);
+  void removeEdgeIn(Edge<P, T>* e);
   edge_list_t& getEdgesIn();
   edge_list_t& getEdgesOut();
   //    bool removeEdge(Id id);
@@ -472,6 +478,20 @@ bool Node<P, T>::addEdgeIn(Edge<P, T>* e)
   return false;
 }
 
+template <typename P, typename T>
+void Node<P, T>::removeEdgeOut(Edge<P, T>* e)
+{
+  edges_out_.erase(std::remove(edges_out_.begin(), edges_out_.end(), e),
+                   edges_out_.end());
+}
+
+template <typename P, typename T>
+void Node<P, T>::removeEdgeIn(Edge<P, T>* e)
+{
+  edges_in_.erase(std::remove(edges_in_.begin(), edges_in_.end(), e),
+                  edges_in_.end());
+}
+
 template <typename P, typename T>
 typename Node<P, T>::edge_list_t& Node<P, T>::getEdgesIn()
 {
-- 
2.43.0


From 23358d919465236d63aea5659d7ec4872d359538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:58 +0000
Subject: [PATCH 03/21] fix: graph iterators never read the end slot and skip
 removed first edges

---
 .../ndt_gslam/slam_optimizer/pose_graph.h     | 46 +++++++++++--------
 1 file changed, 26 insertions(+), 20 deletions(-)

diff --git a/ndt_gslam/include/ndt_gslam/slam_optimizer/pose_graph.h b/ndt_gslam/include/ndt_gslam/slam_optimizer/pose_graph.h
index b28d605..4dcd09e 100644
--- a/ndt_gslam/include/ndt_gslam/slam_optimizer/pose_graph.h
+++ b/ndt_gslam/include/ndt_gslam/slam_optimizer/pose_graph.h
@@ -264,24 +264,19 @@ public:
   ListIterator(const DataIter& begin, const DataIter& end)
     : current_(begin), end_(end)
   {
+    skipEmpty();
   }
   self_type operator++()
   {
     ++current_;
-    // in case of empty field in list skip this field and go on
-    while (*current_ == nullptr && current_ != end_) {
-      ++current_;
-    }
+    skipEmpty();
     return *this;
   }
   self_type operator++(int)
   {
-    ++current_;
-    // in case of empty field in list skip this field and go on
-    while (current_ != end_ && current_->get() == nullptr) {
-      ++current_;
-    }
-    return *this;
+    self_type old(*this);
+    ++(*this);
+    return old;
   }
   reference operator*()
   {
@@ -301,6 +296,14 @@ public:
   }
 
 private:
+  // in case of empty field in list skip this field and go on
+  void skipEmpty()
+  {
+    while (current_ != end_ && current_->get() == nullptr) {
+      ++current_;
+    }
+  }
+
   DataIter current_;
   DataIter end_;
 };
@@ -322,24 +325,19 @@ public:
   ConstListIterator(const DataIter& begin, const DataIter& end)
     : current_(begin), end_(end)
   {
+    skipEmpty();
   }
   self_type operator++()
   {
     ++current_;
-    // in case of empty field in list skip this field and go on
-    while (*current_ == nullptr && current_ != end_) {
-      ++current_;
-    }
+    skipEmpty();
     return *this;
   }
   self_type operator++(int)
   {
-    ++current_;
-    // in case of empty field in list skip this field and go on
-    while (current_ != end_ && current_->get() == nullptr) {
-      ++current_;
-    }
-    return *this;
+    self_type old(*this);
+    ++(*this);
+    return old;
   }
   reference operator*()
   {
@@ -359,6 +357,14 @@ public:
   }
 
 private:
+  // in case of empty field in list skip this field and go on
+  void skipEmpty()
+  {
+    while (current_ != end_ && current_->get() == nullptr) {
+      ++current_;
+    }
+  }
+
   DataIter current_;
   DataIter end_;
 };
-- 
2.43.0


From cc34a9c7763f7051f533d4e5dda44e6f801608ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:58 +0000
Subject: [PATCH 04/21] fix: covarInverse tests each eigenvalue instead of
 off-diagonal zeros

---
 ndt_gslam/include/ndt_gslam/utils/covariance_inverse.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ndt_gslam/include/ndt_gslam/utils/covariance_inverse.h b/ndt_gslam/include/ndt_gslam/utils/covariance_inverse.h
index 34f3223..5fd50a0 100644
--- a/ndt_gslam/include/ndt_gslam/utils/covariance_inverse.h
+++ b/ndt_gslam/include/ndt_gslam/utils/covariance_inverse.h
@@ -31,7 +31,7 @@ bool covarInverse(const Eigen::Matrix<Scalar, 3, 3> &cov,
     double max_eval = evals.maxCoeff();
     // test if every eigenval is big enough
     for (int i = 0; i < evals.cols(); ++i) {
-      if (max_eval > evals(i) * eval_factor) {
+      if (max_eval > evals(i, i) * eval_factor) {
         evals(i, i) = max_eval / eval_factor;
         recalc = true;
       }
-- 
2.43.0


From f7653401dac4518933744a596495eb960ae6c3b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:58 +0000
Subject: [PATCH 05/21] fix: split terminates for an empty token

---
 ndt_gslam/include/ndt_gslam/utils/string_tools.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ndt_gslam/include/ndt_gslam/utils/string_tools.h b/ndt_gslam/include/ndt_gslam/utils/string_tools.h
index bbf24e5..c780d7c 100644
--- a/ndt_gslam/include/ndt_gslam/utils/string_tools.h
+++ b/ndt_gslam/include/ndt_gslam/utils/string_tools.h
@@ -22,6 +22,11 @@ std::vector<std::string> split(const std::string& data,
                                const std::string& token)
 {
   std::vector<std::string> output;
+  if (token.empty()) {
+    // an empty token separates nothing
+    output.push_back(data);
+    return output;
+  }
   size_t pos = std::string::npos;
   std::string temp = data;
   do {
-- 
2.43.0


From bce1fe015c04ee3e8561c6d7d7d1addb355084d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:32 +0000
Subject: [PATCH 06/21] fix: copying a grid keeps its size and its empty cells

---
 ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h b/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h
index 05de2c7..4fbf293 100644
--- a/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h
+++ b/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h
@@ -310,10 +310,12 @@ VoxelGrid2D<CellType>::VoxelGrid2D(const VoxelGrid2D& other)
   , valid_cells_(other.valid_cells_)
 {
   cells_.resize(other.cells_.size());
-  for (const std::unique_ptr<CellType>& cell : other.cells_) {
+  for (size_t i = 0; i < other.cells_.size(); ++i) {
+    if (other.cells_[i].get() == nullptr)
+      continue;
     CellType* new_cell = new CellType;
-    *new_cell = *cell;
-    cells_.emplace_back(new_cell);
+    *new_cell = *other.cells_[i];
+    cells_[i].reset(new_cell);
   }
 }
 
-- 
2.43.0


From afb1130dd3613735a473e455f0cd96e826f83a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:34 +0000
Subject: [PATCH 07/21] fix: grid bounds agree with the cell coordinates on the
 borders

---
 .../include/ndt_gslam/ndt/voxel_grid2d.h      | 81 +++++++++++--------
 1 file changed, 49 insertions(+), 32 deletions(-)

diff --git a/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h b/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h
index 4fbf293..b134e90 100644
--- a/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h
+++ b/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h
@@ -266,12 +266,16 @@ private:
   size_t calcIndex(const std::pair<size_t, size_t>& coords) const;
   // <colls, rows> of table
   std::pair<size_t, size_t> calcCoordinates(const Point& pt) const;
+  // column and row relative to the centroid cell. Columns grow to the right,
+  // rows grow downwards.
+  double calcColumn(double x) const;
+  double calcRow(double y) const;
 
   void enlargeToFit(const Point& pt);
-  size_t calcIncLeft(float pt) const;
-  size_t calcIncRight(float pt) const;
-  size_t calcIncUp(float pt) const;
-  size_t calcIncDown(float pt) const;
+  size_t calcIncLeft(double pt) const;
+  size_t calcIncRight(double pt) const;
+  size_t calcIncUp(double pt) const;
+  size_t calcIncDown(double pt) const;
   void enlargeGrid(size_t left, size_t right, size_t up, size_t down);
   void moveLeft(size_t move);
   void moveRight(size_t move);
@@ -393,12 +397,15 @@ bool VoxelGrid2D<CellType>::removeCell(const Point& posistion)
 template <typename CellType>
 bool VoxelGrid2D<CellType>::isInside(const Point& pt) const
 {
-  if (pt(0) >=
-          -static_cast<double>(width_left_) * cell_size_ - cell_size_half_ &&
-      pt(0) <= width_right_ * cell_size_ + cell_size_half_ &&
-      pt(1) >=
-          -static_cast<double>(height_down_) * cell_size_ - cell_size_half_ &&
-      pt(1) <= height_up_ * cell_size_ + cell_size_half_)
+  // compares columns and rows instead of metric borders. Rounding and borders
+  // shared by two cells are then resolved in the same way as in
+  // calcCoordinates
+  double col = calcColumn(pt(0));
+  double row = calcRow(pt(1));
+  if (col >= -static_cast<double>(width_left_) &&
+      col <= static_cast<double>(width_right_) &&
+      row >= -static_cast<double>(height_up_) &&
+      row <= static_cast<double>(height_down_))
     return true;
   else
     return false;
@@ -647,15 +654,25 @@ std::pair<size_t, size_t>
 VoxelGrid2D<CellType>::calcCoordinates(const Point& pt) const
 {
   std::pair<size_t, size_t> coords;
-  float minx = cell_size_ * width_left_;
-  float maxy = cell_size_ * height_up_;
-  coords.first = static_cast<size_t>(
-      std::floor((pt(0) + minx + cell_size_half_) / cell_size_));
-  coords.second = static_cast<size_t>(
-      std::floor((-pt(1) + maxy + cell_size_half_) / cell_size_));
+  coords.first =
+      static_cast<size_t>(calcColumn(pt(0)) + static_cast<double>(width_left_));
+  coords.second =
+      static_cast<size_t>(calcRow(pt(1)) + static_cast<double>(height_up_));
   return coords;
 }
 
+template <typename CellType>
+double VoxelGrid2D<CellType>::calcColumn(double x) const
+{
+  return std::floor((x + cell_size_half_) / cell_size_);
+}
+
+template <typename CellType>
+double VoxelGrid2D<CellType>::calcRow(double y) const
+{
+  return std::floor((-y + cell_size_half_) / cell_size_);
+}
+
 template <typename CellType>
 void VoxelGrid2D<CellType>::enlargeToFit(const Point& pt)
 {
@@ -668,38 +685,38 @@ void VoxelGrid2D<CellType>::enlargeToFit(const Point& pt)
 }
 
 template <typename CellType>
-size_t VoxelGrid2D<CellType>::calcIncLeft(float pt) const
+size_t VoxelGrid2D<CellType>::calcIncLeft(double pt) const
 {
-  float minx = -static_cast<float>(width_left_) * cell_size_ - cell_size_half_;
-  if (pt < minx)
-    return static_cast<size_t>(std::ceil((minx - pt) / cell_size_));
+  double minx = -static_cast<double>(width_left_);
+  if (calcColumn(pt) < minx)
+    return static_cast<size_t>(minx - calcColumn(pt));
   return 0;
 }
 
 template <typename CellType>
-size_t VoxelGrid2D<CellType>::calcIncRight(float pt) const
+size_t VoxelGrid2D<CellType>::calcIncRight(double pt) const
 {
-  float maxx = width_right_ * cell_size_ + cell_size_half_;
-  if (pt > maxx)
-    return static_cast<size_t>(std::ceil((pt - maxx) / cell_size_));
+  double maxx = static_cast<double>(width_right_);
+  if (calcColumn(pt) > maxx)
+    return static_cast<size_t>(calcColumn(pt) - maxx);
   return 0;
 }
 
 template <typename CellType>
-size_t VoxelGrid2D<CellType>::calcIncUp(float pt) const
+size_t VoxelGrid2D<CellType>::calcIncUp(double pt) const
 {
-  float maxy = height_up_ * cell_size_ + cell_size_half_;
-  if (pt > maxy)
-    return static_cast<size_t>(std::ceil((pt - maxy) / cell_size_));
+  double maxy = -static_cast<double>(height_up_);
+  if (calcRow(pt) < maxy)
+    return static_cast<size_t>(maxy - calcRow(pt));
   return 0;
 }
 
 template <typename CellType>
-size_t VoxelGrid2D<CellType>::calcIncDown(float pt) const
+size_t VoxelGrid2D<CellType>::calcIncDown(double pt) const
 {
-  float miny = -static_cast<float>(height_down_) * cell_size_ - cell_size_half_;
-  if (pt < miny)
-    return static_cast<size_t>(std::ceil((miny - pt) / cell_size_));
+  double miny = static_cast<double>(height_down_);
+  if (calcRow(pt) > miny)
+    return static_cast<size_t>(calcRow(pt) - miny);
   return 0;
 }
 
-- 
2.43.0


From cef4cc58f922d78711356abacdb58fc05714c88f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:36 +0000
Subject: [PATCH 08/21] fix: removeCell returns a value when the position is
 inside

---
 ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h b/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h
index b134e90..6d33049 100644
--- a/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h
+++ b/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h
@@ -392,6 +392,7 @@ bool VoxelGrid2D<CellType>::removeCell(const Point& posistion)
     --valid_cells_;
   }
   cells_[idx].reset(nullptr);
+  return true;
 }
 
 template <typename CellType>
-- 
2.43.0


From 7284711ee6a675981617c98fc28d380410303ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:37 +0000
Subject: [PATCH 09/21] fix: number of valid cells follows clear, translate and
 rayTrace

---
 ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h b/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h
index 6d33049..5f4b17e 100644
--- a/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h
+++ b/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h
@@ -556,6 +556,7 @@ VoxelGrid2D<CellType>::rayTrace(const Point& start, const Point& end)
 
   if (cells_[idx_current].get() == nullptr) {
     cells_[idx_current].reset(new CellType());
+    ++valid_cells_;
   }
   res.push_back(cells_[idx_current].get());
   double total_dist = 0;
@@ -565,6 +566,7 @@ VoxelGrid2D<CellType>::rayTrace(const Point& start, const Point& end)
     if (idx_current != idx_old) {
       if (cells_[idx_current].get() == nullptr) {
         cells_[idx_current].reset(new CellType());
+        ++valid_cells_;
       }
       res.push_back(cells_[idx_current].get());
       // std::cout << p.transpose() << std::endl;
@@ -605,6 +607,12 @@ void VoxelGrid2D<CellType>::translate(const Eigen::Vector2i& translation,
   moveRight(right);
   moveUp(up);
   moveDown(down);
+  // cells moved out of the grid are gone
+  valid_cells_ = 0;
+  for (auto&& cell : cells_) {
+    if (cell.get() != nullptr)
+      ++valid_cells_;
+  }
 }
 
 template <typename CellType>
@@ -613,6 +621,7 @@ void VoxelGrid2D<CellType>::clear()
   for (auto&& cell : cells_) {
     cell.reset(nullptr);
   }
+  valid_cells_ = 0;
 }
 
 template <typename CellType>
-- 
2.43.0


From b1bd40e6c56dacc039316e6549f97ab5cb55e6f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:39 +0000
Subject: [PATCH 10/21] fix: getCentroid uses the extents of the grid

---
 ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h b/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h
index 5f4b17e..fbada20 100644
--- a/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h
+++ b/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h
@@ -479,9 +479,9 @@ VoxelGrid2D<CellType>::getCentroid(const Point& pt) const
 {
   std::pair<size_t, size_t> coords = calcCoordinates(pt);
   double x =
-      (static_cast<long>(coords.first) - static_cast<long>(left)) * cell_size_;
+      (static_cast<long>(coords.first) - static_cast<long>(width_left_)) * cell_size_;
   double y =
-      -(static_cast<long>(coords.second) - static_cast<long>(up)) * cell_size_;
+      -(static_cast<long>(coords.second) - static_cast<long>(height_up_)) * cell_size_;
   return std::pair<double, double>(x, y);
 }
 
-- 
2.43.0


From 86819f7e5a8109685fe64c4d51699390a126265d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:41 +0000
Subject: [PATCH 11/21] fix: ray shorter than one cell ends in its start cell

---
 ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h b/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h
index fbada20..c49498c 100644
--- a/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h
+++ b/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h
@@ -528,13 +528,6 @@ VoxelGrid2D<CellType>::rayTrace(const Point& start, const Point& end)
   Point start_in;
   bool end_indise = false;
   Point delta;
-  double minx =
-      -static_cast<double>(width_left_) * cell_size_ - cell_size_half_;
-  double maxx = width_right_ * cell_size_ + cell_size_half_;
-  double miny =
-      -static_cast<double>(height_down_) * cell_size_ - cell_size_half_;
-  double maxy = height_up_ * cell_size_ + cell_size_half_;
-
   if (!isInside(start)) {
     return res;
   }
@@ -560,7 +553,7 @@ VoxelGrid2D<CellType>::rayTrace(const Point& start, const Point& end)
   }
   res.push_back(cells_[idx_current].get());
   double total_dist = 0;
-  for (size_t i = 0; i < 2 * static_cast<size_t>(std::floor(length)) - 1; ++i) {
+  for (size_t i = 0; i + 1 < 2 * static_cast<size_t>(std::floor(length)); ++i) {
     // total_dist += delta_dist;
     // if program  is still in the same cell like last time just step forward
     if (idx_current != idx_old) {
@@ -572,7 +565,7 @@ VoxelGrid2D<CellType>::rayTrace(const Point& start, const Point& end)
       // std::cout << p.transpose() << std::endl;
     }
     p += delta;
-    if (p(0) >= maxx || p(0) <= minx || p(1) >= maxy || p(1) <= miny)
+    if (!isInside(p))
       return res;
     idx_old = idx_current;
     idx_current = calcIndex(p);
-- 
2.43.0


From 3bc55fd55a186d642592c34e9fe8e685c9b5cae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:28 +0000
Subject: [PATCH 12/21] fix: degenerate covariance leaves the cell without
 Gaussian

---
 ndt_gslam/src/ndt/ndt_cell.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ndt_gslam/src/ndt/ndt_cell.cpp b/ndt_gslam/src/ndt/ndt_cell.cpp
index f3294eb..7a19460 100644
--- a/ndt_gslam/src/ndt/ndt_cell.cpp
+++ b/ndt_gslam/src/ndt/ndt_cell.cpp
@@ -219,6 +219,7 @@ void NDTCell::rescaleCovar()
   Eigen::SelfAdjointEigenSolver<Matrix> solver(cov_);
   Matrix evacs = solver.eigenvectors();
   Matrix evals = solver.eigenvalues().asDiagonal();
+  gaussian_ = true;
   if (evals(0, 0) < 0 || evals(1, 1) < 0 || evals(2, 2) <= 0)
     gaussian_ = false;
 
@@ -232,7 +233,6 @@ void NDTCell::rescaleCovar()
   if (icov_.maxCoeff() == std::numeric_limits<float>::infinity() ||
       icov_.minCoeff() == -std::numeric_limits<float>::infinity())
     gaussian_ = false;
-  gaussian_ = true;
 }
 
 double NDTCell::calcMaxLikelihoodOnLine(const Vector &start, const Vector &end,
-- 
2.43.0


From d47a844f03636e3acfaccf298dd5c1ef7e054406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:39 +0000
Subject: [PATCH 13/21] fix: zero length ray does not turn the occupancy of a
 cell into NaN

---
 ndt_gslam/src/ndt/ndt_cell.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ndt_gslam/src/ndt/ndt_cell.cpp b/ndt_gslam/src/ndt/ndt_cell.cpp
index 7a19460..be232b4 100644
--- a/ndt_gslam/src/ndt/ndt_cell.cpp
+++ b/ndt_gslam/src/ndt/ndt_cell.cpp
@@ -238,6 +238,10 @@ void NDTCell::rescaleCovar()
 double NDTCell::calcMaxLikelihoodOnLine(const Vector &start, const Vector &end,
                                         Vector &pt) const
 {
+  // without direction or curvature the end of the ray is the only candidate
+  pt = end;
+  if (start == end)
+    return 1.0;
   Vector l = (end - start) / (end - start).norm();
   Vector a = icov_ * l;
   Vector b = (end - mean_);
-- 
2.43.0


From 2fd53292b944af0045a65fde0b3332a76049f2ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:52 +0000
Subject: [PATCH 14/21] fix: setOccupancy scales its argument to the range of
 the cell

---
 ndt_gslam/include/ndt_gslam/ndt/ndt_cell.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ndt_gslam/include/ndt_gslam/ndt/ndt_cell.h b/ndt_gslam/include/ndt_gslam/ndt/ndt_cell.h
index 28ec657..308d6b4 100644
--- a/ndt_gslam/include/ndt_gslam/ndt/ndt_cell.h
+++ b/ndt_gslam/include/ndt_gslam/ndt/ndt_cell.h
@@ -139,7 +139,7 @@ public:
    */
   void setOccupancy(int8_t occup)
   {
-    occup_ = occup;
+    occup_ = static_cast<float>(occup) / 100;
   }
 
   /**
-- 
2.43.0


From edf58511c3ffb986c0b5be5ef5addde78e9ac1ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:30 +0000
Subject: [PATCH 15/21] fix: line search picks the cubic's minimiser when
 stepping backwards

---
 ndt_gslam/include/ndt_gslam/registration/ndt_reg_tools.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/ndt_gslam/include/ndt_gslam/registration/ndt_reg_tools.h b/ndt_gslam/include/ndt_gslam/registration/ndt_reg_tools.h
index 8179fe0..d1f04a1 100644
--- a/ndt_gslam/include/ndt_gslam/registration/ndt_reg_tools.h
+++ b/ndt_gslam/include/ndt_gslam/registration/ndt_reg_tools.h
@@ -155,6 +155,8 @@ double trialValueSelectionMT(double a_l, double f_l, double g_l, double a_u,
     // Equation 2.4.52 [Sun, Yuan 2006]
     double z = 3 * (f_t - f_l) / (a_t - a_l) - g_t - g_l;
     double w = std::sqrt(z * z - g_t * g_l);
+    if (a_t < a_l)
+      w = -w;  // minimizer for a step taken backwards
     // Equation 2.4.56 [Sun, Yuan 2006]
     double a_c = a_l + (a_t - a_l) * (w - g_l - z) / (g_t - g_l + 2 * w);
 
@@ -177,6 +179,8 @@ double trialValueSelectionMT(double a_l, double f_l, double g_l, double a_u,
     // Equation 2.4.52 [Sun, Yuan 2006]
     double z = 3 * (f_t - f_l) / (a_t - a_l) - g_t - g_l;
     double w = std::sqrt(z * z - g_t * g_l);
+    if (a_t < a_l)
+      w = -w;  // minimizer for a step taken backwards
     // Equation 2.4.56 [Sun, Yuan 2006]
     double a_c = a_l + (a_t - a_l) * (w - g_l - z) / (g_t - g_l + 2 * w);
 
@@ -198,6 +202,8 @@ double trialValueSelectionMT(double a_l, double f_l, double g_l, double a_u,
     // Equation 2.4.52 [Sun, Yuan 2006]
     double z = 3 * (f_t - f_l) / (a_t - a_l) - g_t - g_l;
     double w = std::sqrt(z * z - g_t * g_l);
+    if (a_t < a_l)
+      w = -w;  // minimizer for a step taken backwards
     double a_c = a_l + (a_t - a_l) * (w - g_l - z) / (g_t - g_l + 2 * w);
 
     // Calculate the minimizer of the quadratic that interpolates g_l and g_t
@@ -224,6 +230,8 @@ double trialValueSelectionMT(double a_l, double f_l, double g_l, double a_u,
     // Equation 2.4.52 [Sun, Yuan 2006]
     double z = 3 * (f_t - f_u) / (a_t - a_u) - g_t - g_u;
     double w = std::sqrt(z * z - g_t * g_u);
+    if (a_t < a_u)
+      w = -w;  // minimizer for a step taken backwards
     // Equation 2.4.56 [Sun, Yuan 2006]
     return (a_u + (a_t - a_u) * (w - g_u - z) / (g_t - g_u + 2 * w));
   }
-- 
2.43.0


From bc44441729353f480878cd3bc16c3669f274ac1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:31 +0000
Subject: [PATCH 16/21] fix: restore the switch variable's value when its
 estimate is popped

---
 .../switchable_constraints/vertex_switchLinear.h           | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ndt_gslam/include/ndt_gslam/slam_optimizer/switchable_constraints/vertex_switchLinear.h b/ndt_gslam/include/ndt_gslam/slam_optimizer/switchable_constraints/vertex_switchLinear.h
index c8b104d..2d1514d 100644
--- a/ndt_gslam/include/ndt_gslam/slam_optimizer/switchable_constraints/vertex_switchLinear.h
+++ b/ndt_gslam/include/ndt_gslam/slam_optimizer/switchable_constraints/vertex_switchLinear.h
@@ -30,6 +30,13 @@ public:
   virtual bool write(std::ostream& os) const;
   virtual void setEstimate(const double& et);
 
+  //! restores the saved estimate together with its copy in x()
+  virtual void pop()
+  {
+    g2o::BaseVertex<1, double>::pop();
+    _x = _estimate;
+  };
+
   double x() const
   {
     return _x;
-- 
2.43.0


From 7a83b62b02537ec4a4fe34f1b67d3e18e05528b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:09 +0000
Subject: [PATCH 17/21] fix: a mixture without components reports no best
 component

---
 ndt_gslam/src/slam_optimizer/max_mixture/edge_se2_mixture.cpp   | 2 +-
 .../src/slam_optimizer/max_mixture/edge_se2_pointxy_mixture.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ndt_gslam/src/slam_optimizer/max_mixture/edge_se2_mixture.cpp b/ndt_gslam/src/slam_optimizer/max_mixture/edge_se2_mixture.cpp
index 7b65199..9ec47f6 100644
--- a/ndt_gslam/src/slam_optimizer/max_mixture/edge_se2_mixture.cpp
+++ b/ndt_gslam/src/slam_optimizer/max_mixture/edge_se2_mixture.cpp
@@ -40,7 +40,7 @@ using namespace std;
 EdgeSE2Mixture::EdgeSE2Mixture() : g2o::EdgeSE2::EdgeSE2()
 {
   numberComponents = 0;
-  int bestComponent = -1;
+  bestComponent = -1;
 }
 
 EdgeSE2Mixture::~EdgeSE2Mixture()
diff --git a/ndt_gslam/src/slam_optimizer/max_mixture/edge_se2_pointxy_mixture.cpp b/ndt_gslam/src/slam_optimizer/max_mixture/edge_se2_pointxy_mixture.cpp
index 36ce3f2..ae03517 100644
--- a/ndt_gslam/src/slam_optimizer/max_mixture/edge_se2_pointxy_mixture.cpp
+++ b/ndt_gslam/src/slam_optimizer/max_mixture/edge_se2_pointxy_mixture.cpp
@@ -41,7 +41,7 @@ EdgeSE2PointXYMixture::EdgeSE2PointXYMixture()
   : g2o::EdgeSE2PointXY::EdgeSE2PointXY()
 {
   numberComponents = 0;
-  int bestComponent = -1;
+  bestComponent = -1;
 }
 
 EdgeSE2PointXYMixture::~EdgeSE2PointXYMixture()
-- 
2.43.0


From 50bff446f25f120ec94d82fab7a4184a6c40c714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:05 +0000
Subject: [PATCH 18/21] fix: components given to a mixture replace the earlier
 ones

---
 .../src/slam_optimizer/max_mixture/edge_se2_mixture.cpp      | 5 +++++
 .../slam_optimizer/max_mixture/edge_se2_pointxy_mixture.cpp  | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/ndt_gslam/src/slam_optimizer/max_mixture/edge_se2_mixture.cpp b/ndt_gslam/src/slam_optimizer/max_mixture/edge_se2_mixture.cpp
index 9ec47f6..52747cf 100644
--- a/ndt_gslam/src/slam_optimizer/max_mixture/edge_se2_mixture.cpp
+++ b/ndt_gslam/src/slam_optimizer/max_mixture/edge_se2_mixture.cpp
@@ -61,6 +61,7 @@ void EdgeSE2Mixture::initializeComponents(std::vector<g2o::EdgeSE2*>& _edges,
   this->weights = _weights;
 
   numberComponents = _edges.size();
+  determinants.clear();
   for (unsigned int i = 0; i < numberComponents; i++)
     determinants.push_back(allEdges[i]->information().inverse().determinant());
 
@@ -138,6 +139,10 @@ bool EdgeSE2Mixture::read(std::istream& is)
 {
   is >> numberComponents;
 
+  allEdges.clear();
+  weights.clear();
+  determinants.clear();
+
   allEdges.reserve(numberComponents);
   weights.reserve(numberComponents);
   determinants.reserve(numberComponents);
diff --git a/ndt_gslam/src/slam_optimizer/max_mixture/edge_se2_pointxy_mixture.cpp b/ndt_gslam/src/slam_optimizer/max_mixture/edge_se2_pointxy_mixture.cpp
index ae03517..8bec245 100644
--- a/ndt_gslam/src/slam_optimizer/max_mixture/edge_se2_pointxy_mixture.cpp
+++ b/ndt_gslam/src/slam_optimizer/max_mixture/edge_se2_pointxy_mixture.cpp
@@ -62,6 +62,7 @@ void EdgeSE2PointXYMixture::initializeComponents(
   this->weights = _weights;
   // UpdateBelief(0);
   numberComponents = _edges.size();
+  determinants.clear();
   for (unsigned int i = 0; i < numberComponents; i++)
     determinants.push_back(allEdges[i]->information().inverse().determinant());
 
@@ -134,6 +135,10 @@ bool EdgeSE2PointXYMixture::read(std::istream& is)
 {
   is >> numberComponents;
 
+  allEdges.clear();
+  weights.clear();
+  determinants.clear();
+
   allEdges.reserve(numberComponents);
   weights.reserve(numberComponents);
   determinants.reserve(numberComponents);
-- 
2.43.0


From e7b9cdee524ec3d1a1271cac63202e88eb65177d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:48 +0000
Subject: [PATCH 19/21] fix: merging into a resized map merges cells instead of
 replacing them

---
 ndt_gslam/include/ndt_gslam/ndt/ndt_grid2d.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ndt_gslam/include/ndt_gslam/ndt/ndt_grid2d.h b/ndt_gslam/include/ndt_gslam/ndt/ndt_grid2d.h
index 5db1e57..43fffa7 100644
--- a/ndt_gslam/include/ndt_gslam/ndt/ndt_grid2d.h
+++ b/ndt_gslam/include/ndt_gslam/ndt/ndt_grid2d.h
@@ -503,7 +503,7 @@ void NDTGrid2D<CellType, PointType>::mergeIn(const std::vector<CellType> &cells,
     grid_.enlarge(minx, miny, maxx, maxy);
     for (auto &&cell : cells) {
       if (cell.hasGaussian()) {
-        grid_.addCell(cell.getMean().head(2), cell, false);
+        grid_.addCell(cell.getMean().head(2), cell);
       }
     }
   } else {
-- 
2.43.0


From ddf57ac12680f825c7ca269e5a00c8e88f392a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:49 +0000
Subject: [PATCH 20/21] fix: serialized map carries its corner and heading

---
 ndt_gslam/include/ndt_gslam/ndt/ndt_grid2d.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ndt_gslam/include/ndt_gslam/ndt/ndt_grid2d.h b/ndt_gslam/include/ndt_gslam/ndt/ndt_grid2d.h
index 43fffa7..6a589ee 100644
--- a/ndt_gslam/include/ndt_gslam/ndt/ndt_grid2d.h
+++ b/ndt_gslam/include/ndt_gslam/ndt/ndt_grid2d.h
@@ -860,11 +860,12 @@ template <typename CellType, typename PointType>
 NDTGridMsg NDTGrid2D<CellType, PointType>::serialize() const
 {
   NDTGridMsg msg;
-  Eigen::Vector2d corner_origin(-grid_.left() * cell_size_,
+  Eigen::Vector2d corner_origin(-static_cast<double>(grid_.left()) * cell_size_,
                                 grid_.up() * cell_size_);
   eigt::transform2d_t<double> trans =
       eigt::transBtwFrames(origin_, Eigen::Vector3d(0, 0, 0));
   msg.origin_.head(2) = trans * corner_origin;
+  msg.origin_(2) = origin_(2);
   msg.size_ << grid_.width() * cell_size_, grid_.height() * cell_size_, 0;
   msg.cell_sizes_ << cell_size_, cell_size_, 0;
   for (auto &&cell : grid_.getValidCellsPtr()) {
-- 
2.43.0


From 90c9ff29e7bb5f13b5608317a291fa8e23caa916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:49 +0000
Subject: [PATCH 21/21] fix: the cloud of means follows construction and clear

---
 ndt_gslam/include/ndt_gslam/ndt/ndt_grid2d.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ndt_gslam/include/ndt_gslam/ndt/ndt_grid2d.h b/ndt_gslam/include/ndt_gslam/ndt/ndt_grid2d.h
index 6a589ee..19244de 100644
--- a/ndt_gslam/include/ndt_gslam/ndt/ndt_grid2d.h
+++ b/ndt_gslam/include/ndt_gslam/ndt/ndt_grid2d.h
@@ -395,6 +395,8 @@ public:
   {
     grid_.clear();
     initialized_ = false;
+    updateMeansCloud();
+    updateKDTree();
   }
 
   /**
@@ -457,6 +459,8 @@ NDTGrid2D<CellType, PointType>::NDTGrid2D(const Eigen::Vector3d &origin,
   , initialized_(false)
   , timestamp_(timestamp)
   , grid_()
+  , kdtree_()
+  , means_(new PointCloud())
 {
   grid_.setCellSize(cell_size_);
 }
-- 
2.43.0

