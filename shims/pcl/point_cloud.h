#ifndef SHIM_PCL_POINT_CLOUD
#define SHIM_PCL_POINT_CLOUD
#include <pcl/point_types.h>
#include <boost/shared_ptr.hpp>
#include <string>
#include <vector>
namespace pcl
{
template <typename P>
struct PointCloud {
  typedef boost::shared_ptr<PointCloud<P>> Ptr;
  typedef boost::shared_ptr<const PointCloud<P>> ConstPtr;
  typedef P PointType;
  std::vector<P> points;
  size_t size() const { return points.size(); }
  bool empty() const { return points.empty(); }
  void reserve(size_t n) { points.reserve(n); }
  void resize(size_t n) { points.resize(n); }
  void clear() { points.clear(); }
  void push_back(const P &p) { points.push_back(p); }
  const P &at(size_t i) const { return points.at(i); }
  P &at(size_t i) { return points.at(i); }
  const P &operator[](size_t i) const { return points[i]; }
  P &operator[](size_t i) { return points[i]; }
  typename std::vector<P>::iterator begin() { return points.begin(); }
  typename std::vector<P>::iterator end() { return points.end(); }
  typename std::vector<P>::const_iterator begin() const { return points.begin(); }
  typename std::vector<P>::const_iterator end() const { return points.end(); }
  Ptr makeShared() const { return Ptr(new PointCloud<P>(*this)); }
};
struct PointIndices {
  typedef boost::shared_ptr<PointIndices> Ptr;
  typedef boost::shared_ptr<const PointIndices> ConstPtr;
  std::vector<int> indices;
};
}
#endif
