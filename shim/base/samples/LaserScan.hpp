#ifndef SHIM_LASERSCAN
#define SHIM_LASERSCAN
#include <base/Time.hpp>
#include <base/Eigen.hpp>
#include <vector>
#include <cstdint>
namespace base { namespace samples {
enum LASER_RANGE_ERRORS { TOO_FAR = 1, TOO_NEAR = 2, MEASUREMENT_ERROR = 3, OTHER_RANGE_ERRORS = 4, MAX_RANGE_ERROR = 5 };
struct LaserScan {
    Time time; double start_angle, angular_resolution, speed; std::vector<uint32_t> ranges; uint32_t minRange, maxRange; std::vector<float> remission;
    LaserScan() : start_angle(0), angular_resolution(0), speed(0), minRange(0), maxRange(0) {}
    bool isRangeValid(uint32_t r) const { return !(r < minRange || r > maxRange || r < MAX_RANGE_ERROR); }
    std::vector<Eigen::Vector3d> convertScanToPointCloud(const Eigen::Affine3d& t, bool skip = true) const {
        std::vector<Eigen::Vector3d> p;
        for (size_t i = 0; i < ranges.size(); i++) if (isRangeValid(ranges[i]))
            p.push_back(t * Eigen::Vector3d(Eigen::AngleAxisd(start_angle + i * angular_resolution, Eigen::Vector3d::UnitZ()) * Eigen::Vector3d(ranges[i] / 1000.0, 0, 0)));
        return p; }
};
} }
#endif
