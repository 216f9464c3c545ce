#ifndef SHIM_POINTCLOUD
#define SHIM_POINTCLOUD
#include <base/Time.hpp>
#include <base/Eigen.hpp>
#include <vector>
namespace base { typedef Vector3d Point; namespace samples {
struct Pointcloud { Time time; std::vector<base::Point> points; std::vector<base::Vector4d> colors; };
} }
#endif
