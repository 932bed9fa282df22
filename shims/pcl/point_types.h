#ifndef SHIM_PCL_POINT_TYPES
#define SHIM_PCL_POINT_TYPES
#include <cstdint>
namespace pcl
{
struct PointXYZ {
  float x, y, z;
  PointXYZ() : x(0), y(0), z(0) {}
  PointXYZ(float a, float b, float c) : x(a), y(b), z(c) {}
};
struct PointXYZRGB {
  float x, y, z;
  uint8_t r, g, b;
  PointXYZRGB(uint8_t r_ = 0, uint8_t g_ = 0, uint8_t b_ = 0) : x(0), y(0), z(0), r(r_), g(g_), b(b_) {}
};
}
#endif
