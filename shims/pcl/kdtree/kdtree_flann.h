#ifndef SHIM_PCL_KDTREE
#define SHIM_PCL_KDTREE
#include <pcl/point_cloud.h>
#include <vector>
namespace pcl
{
// exact nearest neighbours, ascending distance; never more than the cloud holds
template <typename P>
struct KdTreeFLANN {
  typename PointCloud<P>::ConstPtr cloud_;
  template <typename I>
  void setInputCloud(const typename PointCloud<P>::ConstPtr &c, const I &) { cloud_ = c; }
  void setInputCloud(const typename PointCloud<P>::ConstPtr &c) { cloud_ = c; }
  int nearestKSearch(const P &q, int k, std::vector<int> &idx, std::vector<float> &dist) const
  {
    idx.clear();
    dist.clear();
    if (!cloud_) return 0;
    for (size_t i = 0; i < cloud_->points.size(); ++i) {
      float dx = cloud_->points[i].x - q.x, dy = cloud_->points[i].y - q.y, dz = cloud_->points[i].z - q.z;
      float d = dx * dx + dy * dy + dz * dz;
      size_t j = 0;
      while (j < dist.size() && !(d < dist[j])) ++j;
      if (j >= static_cast<size_t>(k)) continue;
      idx.insert(idx.begin() + j, static_cast<int>(i));
      dist.insert(dist.begin() + j, d);
      if (idx.size() > static_cast<size_t>(k)) { idx.pop_back(); dist.pop_back(); }
    }
    return static_cast<int>(idx.size());
  }
};
}
#endif
