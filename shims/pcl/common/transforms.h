#ifndef SHIM_PCL_TRANSFORMS
#define SHIM_PCL_TRANSFORMS
#include <pcl/point_cloud.h>
#include <Eigen/Dense>
namespace pcl
{
// the formula of pcl/common/impl/transforms.hpp for dense clouds
template <typename P, typename S>
void transformPointCloud(const PointCloud<P> &in, PointCloud<P> &out, const Eigen::Matrix<S, 4, 4> &t)
{
  PointCloud<P> res;
  res.points.reserve(in.points.size());
  for (size_t i = 0; i < in.points.size(); ++i) {
    P p = in.points[i];
    S x = p.x, y = p.y, z = p.z;
    p.x = static_cast<float>(t(0, 0) * x + t(0, 1) * y + t(0, 2) * z + t(0, 3));
    p.y = static_cast<float>(t(1, 0) * x + t(1, 1) * y + t(1, 2) * z + t(1, 3));
    p.z = static_cast<float>(t(2, 0) * x + t(2, 1) * y + t(2, 2) * z + t(2, 3));
    res.points.push_back(p);
  }
  out = res;
}
}
#endif
