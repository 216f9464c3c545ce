#ifndef SHIM_BASE_POSE
#define SHIM_BASE_POSE
#include <base/Eigen.hpp>
#include <base/Float.hpp>
namespace base {
typedef Vector3d Position;
typedef Quaterniond Orientation;
typedef Vector2d Position2D;
typedef double Orientation2D;
inline double getYaw(const Orientation& o) { Eigen::Matrix3d m = Eigen::Quaterniond(o).toRotationMatrix(); return std::atan2(m(1,0), m(0,0)); }
struct Pose {
    Position position; Orientation orientation;
    Pose() : position(Position::Zero()), orientation(Orientation::Identity()) {}
    Pose(const Position& p, const Orientation& o) : position(p), orientation(o) {}
    template<int M, int O> explicit Pose(const Eigen::Transform<double,3,M,O>& t) { fromTransform(Eigen::Affine3d(t.matrix())); }
    template<class D> explicit Pose(const Eigen::MatrixBase<D>& v) { fromVector6d(v); }
    void fromTransform(const Eigen::Affine3d& t) { position = t.translation(); orientation = Orientation(Eigen::Quaterniond(Eigen::Matrix3d(t.linear()))); }
    Eigen::Affine3d toTransform() const { Eigen::Affine3d t; t = Eigen::Quaterniond(orientation); t.pretranslate(Eigen::Vector3d(position)); return t; }
    template<class D> void fromVector6d(const Eigen::MatrixBase<D>& v) {
        const Eigen::Vector3d sa = v.template head<3>(); const double a = sa.norm();
        if (a > 1e-15) orientation = Orientation(Eigen::Quaterniond(Eigen::AngleAxisd(a, sa / a))); else orientation.setIdentity();
        position = v.template tail<3>(); }
    Vector6d toVector6d() const { Eigen::AngleAxisd aa((Eigen::Quaterniond(orientation))); Vector6d r; r.head<3>() = aa.axis() * aa.angle(); r.tail<3>() = position; return r; }
    double getYaw() const { return base::getYaw(orientation); }
};
struct Pose2D {
    Position2D position; Orientation2D orientation;
    Pose2D() : position(Position2D::Zero()), orientation(0) {}
    Pose2D(const Position2D& p, Orientation2D o) : position(p), orientation(o) {}
};
}
#endif
