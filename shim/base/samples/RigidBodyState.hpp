#ifndef SHIM_RBS
#define SHIM_RBS
#include <base/Time.hpp>
#include <base/Pose.hpp>
#include <string>
namespace base { namespace samples {
struct RigidBodyState {
    Time time; std::string sourceFrame, targetFrame; Position position; Matrix3d cov_position; Orientation orientation; Matrix3d cov_orientation; Vector3d velocity; Matrix3d cov_velocity; Vector3d angular_velocity; Matrix3d cov_angular_velocity;
    RigidBodyState() : position(Position::Zero()), cov_position(Matrix3d::Zero()), orientation(Orientation::Identity()), cov_orientation(Matrix3d::Zero()), velocity(Vector3d::Zero()), cov_velocity(Matrix3d::Zero()), angular_velocity(Vector3d::Zero()), cov_angular_velocity(Matrix3d::Zero()) {}
    void setTransform(const Eigen::Affine3d& t) { position = t.translation(); orientation = Orientation(Eigen::Quaterniond(Eigen::Matrix3d(t.linear()))); }
    Eigen::Affine3d getTransform() const { Eigen::Affine3d r; r.setIdentity(); r.rotate(Eigen::Quaterniond(orientation)); r.translation() = position; return r; }
    operator Eigen::Affine3d() const { return getTransform(); }
};
} }
#endif
