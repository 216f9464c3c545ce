#include "mon.hpp"
#include <envire/core/Transform.hpp>
#include <Eigen/Geometry>
#include <Eigen/Eigenvalues>
using namespace envire;
typedef Eigen::Matrix<double, 6, 6> C6;
typedef Eigen::Matrix<double, 6, 1> V6;

namespace {
Eigen::Matrix3d expR(const Eigen::Vector3d& r) { double t = r.norm(); if (t < 1e-12) { Eigen::Matrix3d S; S << 0, -r.z(), r.y(), r.z(), 0, -r.x(), -r.y(), r.x(), 0; return Eigen::Matrix3d(Eigen::Matrix3d::Identity() + S); } return Eigen::AngleAxisd(t, r / t).toRotationMatrix(); }
Eigen::Vector3d logR(const Eigen::Matrix3d& R) {
    Eigen::Vector3d v(R(2, 1) - R(1, 2), R(0, 2) - R(2, 0), R(1, 0) - R(0, 1));
    double s = v.norm() / 2, co = (R.trace() - 1) / 2, th = std::atan2(s, co);
    return s < 1e-12 ? Eigen::Vector3d(v / 2) : Eigen::Vector3d(v / (2 * s) * th);
}
V6 toV(const Transform& t) { V6 v; v << logR(t.linear()), t.translation(); return v; }
Transform toT(const V6& v) { Transform t(Transform::Identity()); t.linear() = expR(v.head<3>()); t.translation() = v.tail<3>(); return t; }
template <int N, int K, class Fn> Eigen::Matrix<double, N, K> jac(Fn f, const Eigen::Matrix<double, K, 1>& x) {
    Eigen::Matrix<double, N, K> J; const double h = 1e-6;
    for (int i = 0; i < K; i++) { Eigen::Matrix<double, K, 1> a = x, b = x; a[i] += h; b[i] -= h; J.col(i) = (f(a) - f(b)) / (2 * h); }
    return J;
}
C6 rcov(mon::Rng& r, double s = 0.1) { C6 a; for (int i = 0; i < 36; i++) a(i / 6, i % 6) = r.gauss() * s;
    if (r.chance(0.3)) { int z = r.range(0, 5); a.row(z).setZero(); }
    return C6(a * a.transpose()); }
Transform rt(mon::Rng& r, double ang, double tr) {
    Eigen::Vector3d ax(r.gauss(), r.gauss(), r.gauss()); ax.normalize();
    Transform t(Transform::Identity()); double a = r.chance(0.1) ? 0 : r.real(0, ang);
    t.linear() = expR(ax * a); t.translation() = r.chance(0.1) ? Eigen::Vector3d(0, 0, 0) : Eigen::Vector3d(r.real(-tr, tr), r.real(-tr, tr), r.real(-tr, tr)); return t;
}
double rel(const Eigen::MatrixXd& a, const Eigen::MatrixXd& b) { return (a - b).norm() / std::max(1e-12, b.norm()); }
void psd(const Eigen::MatrixXd& m, const char* what) {
    REQUIRE((m - m.transpose()).norm() <= 1e-9 * (1 + m.norm()), "cov:symmetric", what << " covariance not symmetric");
    Eigen::SelfAdjointEigenSolver<Eigen::MatrixXd> es(Eigen::MatrixXd((m + m.transpose()) / 2));
    REQUIRE(es.eigenvalues().minCoeff() >= -1e-9 * (1 + m.norm()), "cov:psd", what << " covariance has eigenvalue " << es.eigenvalues().minCoeff());
}
}

// first order propagation against numerical derivatives, small rotations (the
// closed forms are truncated series in the angle)
SECTION(propagation, 10000, 300000)
{
    auto& r = c.rng;
    double ang = 0.5, tr = r.one({0.5, 3.0, 20.0});
    const double TOL = 0.03;
    bool u1 = r.chance(0.8), u2 = r.chance(0.8);
    TransformWithUncertainty t1(rt(r, ang, tr)), t2(rt(r, ang, tr));
    if (u1) t1.setCovariance(rcov(r));
    if (u2) t2.setCovariance(rcov(r));
    { Eigen::Matrix3d pc = rcov(r).topLeftCorner<3, 3>(); Eigen::Vector3d pt(r.gauss(), r.gauss(), r.gauss()); PointWithUncertainty a(pt), b(pt, pc), d; REQUIRE(!a.hasUncertainty() && b.hasUncertainty() && !d.hasUncertainty() && b.getCovariance() == pc && a.getPoint() == pt, "point:flag", "uncertainty of a new point"); a.setCovariance(pc); d.setPoint(pt); TransformWithUncertainty tw; REQUIRE(!tw.hasUncertainty(), "transform:flag", "uncertainty of a new transform"); REQUIRE(a.hasUncertainty() && a.getCovariance() == pc && !d.hasUncertainty() && d.getPoint() == pt, "point:set", "uncertainty of a point that was set"); }
    LOGOP("t1 " << toV(t1.getTransform()).transpose() << " u1=" << u1 << "  t2 " << toV(t2.getTransform()).transpose() << " u2=" << u2);
    TransformWithUncertainty t = t2 * t1;
    REQUIRE((t.getTransform().matrix() - t2.getTransform().matrix() * t1.getTransform().matrix()).norm() < 1e-9 * (1 + tr), "compose:value", "composed transform");
    REQUIRE(t.hasUncertainty() == (u1 || u2), "compose:flag", "uncertainty flag of a composition");
    V6 x1 = toV(t1.getTransform()), x2 = toV(t2.getTransform());
    if (u1 || u2) {
        C6 want = C6::Zero();
        Eigen::Matrix<double, 6, 6> J1 = jac<6, 6>([&](const V6& x) { return toV(Transform(toT(x2) * toT(x))); }, x1);
        Eigen::Matrix<double, 6, 6> J2 = jac<6, 6>([&](const V6& x) { return toV(Transform(toT(x) * toT(x1))); }, x2);
        if (u1) want += J1 * t1.getCovariance() * J1.transpose();
        if (u2) want += J2 * t2.getCovariance() * J2.transpose();
        for (int bi = 0; bi < 2; bi++) for (int bj = 0; bj < 2; bj++) {
            Eigen::MatrixXd g = t.getCovariance().block<3, 3>(3 * bi, 3 * bj), w = want.block<3, 3>(3 * bi, 3 * bj);
            double norm = std::sqrt(want.block<3, 3>(3 * bi, 3 * bi).norm() * want.block<3, 3>(3 * bj, 3 * bj).norm());
            REQUIRE((g - w).norm() <= TOL * norm + 1e-9, "compose:cov", "block " << bi << "," << bj << " of the composed covariance is off by " << (g - w).norm() / norm << " of its size\n" << g << "\nexpected\n" << w);
        }
        psd(t.getCovariance(), "composed");
        mon::seen(u1 && u2 ? "compose.both" : "compose.one");
    } else mon::seen("compose.none");
    { TransformWithUncertainty k = t2.composition(t1); REQUIRE(k.getTransform().matrix() == t.getTransform().matrix() && k.hasUncertainty() == t.hasUncertainty() && (!k.hasUncertainty() || k.getCovariance() == t.getCovariance()), "compose:alias", "composition() differs from operator*"); }
    // inverse
    TransformWithUncertainty i = t1.inverse();
    REQUIRE((i.getTransform().matrix() * t1.getTransform().matrix() - Eigen::Matrix4d::Identity()).norm() < 1e-9 * (1 + tr), "inverse:value", "inverse transform");
    REQUIRE(i.hasUncertainty() == u1, "inverse:flag", "uncertainty flag of an inverse");
    if (u1) {
        Eigen::Matrix<double, 6, 6> J = jac<6, 6>([&](const V6& x) { return toV(Transform(toT(x).inverse())); }, x1);
        C6 want = J * t1.getCovariance() * J.transpose();
        for (int bi = 0; bi < 2; bi++) for (int bj = 0; bj < 2; bj++) {
            Eigen::MatrixXd g = i.getCovariance().block<3, 3>(3 * bi, 3 * bj), w = want.block<3, 3>(3 * bi, 3 * bj);
            double norm = std::sqrt(want.block<3, 3>(3 * bi, 3 * bi).norm() * want.block<3, 3>(3 * bj, 3 * bj).norm());
            REQUIRE((g - w).norm() <= TOL * norm + 1e-9, "inverse:cov", "block " << bi << "," << bj << " of the inverted covariance is off by " << (g - w).norm() / norm << " of its size\n" << g << "\nexpected\n" << w);
        }
        psd(i.getCovariance(), "inverted"); mon::seen("inverse");
    }
    // points
    Eigen::Vector3d p(r.real(-tr, tr), r.real(-tr, tr), r.real(-tr, tr));
    bool up = r.chance(0.5); Eigen::Matrix3d pc = rcov(r).topLeftCorner<3, 3>();
    PointWithUncertainty pw = up ? PointWithUncertainty(p, pc) : PointWithUncertainty(p);
    PointWithUncertainty q = t1 * pw;
    REQUIRE((q.getPoint() - t1.getTransform() * p).norm() < 1e-9 * (1 + tr), "point:value", "transformed point");
    Eigen::Matrix3d want = Eigen::Matrix3d::Zero();
    if (u1) { Eigen::Matrix<double, 3, 6> J = jac<3, 6>([&](const V6& x) { return Eigen::Vector3d(toT(x) * p); }, x1); want += J * t1.getCovariance() * J.transpose(); }
    if (up) want += t1.getTransform().linear() * pc * t1.getTransform().linear().transpose();
    if (u1 || up) {
        REQUIRE(q.hasUncertainty(), "point:flag", "uncertainty lost on a point");
        REQUIRE((q.getCovariance() - want).norm() <= TOL * want.norm() + 1e-9, "point:cov", "covariance of a transformed point off by " << rel(q.getCovariance(), want) << "\n" << q.getCovariance() << "\nexpected\n" << want);
        psd(q.getCovariance(), "point"); mon::seen("point");
    }
    mon::distinct(mon::hashStr(mon::currentLog()));
}

// undoing a composition gives back the other operand exactly, at any angle
SECTION(recover, 6000, 100000)
{
    auto& r = c.rng;
    double ang = r.one({0.5, 1.5, 2.2}), tr = r.one({0.5, 3.0, 20.0});
    bool u1 = r.chance(0.8), u2 = r.chance(0.8);
    TransformWithUncertainty t1(rt(r, ang, tr)), t2(rt(r, ang, tr));
    if (u1) t1.setCovariance(rcov(r));
    if (u2) t2.setCovariance(rcov(r));
    LOGOP("t1 " << toV(t1.getTransform()).transpose() << " u1=" << u1 << "  t2 " << toV(t2.getTransform()).transpose() << " u2=" << u2);
    TransformWithUncertainty t = t2 * t1, t2r = t.compositionInv(t1), t1r = t.preCompositionInv(t2);
    double s = 1 + tr;
    REQUIRE((t2r.getTransform().matrix() - t2.getTransform().matrix()).norm() < 1e-9 * s && (t1r.getTransform().matrix() - t1.getTransform().matrix()).norm() < 1e-9 * s, "recover:value", "recovered transform");
    REQUIRE(t2r.hasUncertainty() == (u1 || u2) && t1r.hasUncertainty() == (u1 || u2), "recover:flag", "uncertainty flag of a recovered transform");
    C6 c1 = u1 ? t1.getCovariance() : C6(C6::Zero()), c2 = u2 ? t2.getCovariance() : C6(C6::Zero());
    double tol = 1e-7 * s * s * (1 + t.getCovariance().norm());
    if (u1 || u2) {
        REQUIRE((t2r.getCovariance() - c2).norm() < tol, "recover:post", "covariance recovered by compositionInv off by " << (t2r.getCovariance() - c2).norm());
        REQUIRE((t1r.getCovariance() - c1).norm() < tol, "recover:pre", "covariance recovered by preCompositionInv off by " << (t1r.getCovariance() - c1).norm());
    }
    mon::seen("recover");
    // rigid body states
    base::samples::RigidBodyState rbs, back;
    C6 cc = rcov(r);
    rbs.position = t1.getTransform().translation(); rbs.orientation = Eigen::Quaterniond(t1.getTransform().linear());
    rbs.cov_orientation = cc.topLeftCorner<3, 3>(); rbs.cov_position = cc.bottomRightCorner<3, 3>();
    TransformWithUncertainty f(rbs);
    REQUIRE(f.hasUncertainty() && (f.getTransform().matrix() - t1.getTransform().matrix()).norm() < 1e-9 * s, "rbs:value", "transform from a rigid body state");
    C6 blocks = C6::Zero(); blocks.topLeftCorner<3, 3>() = cc.topLeftCorner<3, 3>(); blocks.bottomRightCorner<3, 3>() = cc.bottomRightCorner<3, 3>();
    REQUIRE(f.getCovariance() == blocks, "rbs:cov", "covariance from a rigid body state");
    f.copyToRigidBodyState(back);
    REQUIRE((back.position - rbs.position).norm() < 1e-9 * s && back.orientation.angularDistance(rbs.orientation) < 1e-7 && back.cov_position == rbs.cov_position && back.cov_orientation == rbs.cov_orientation, "rbs:back", "rigid body state round trip");
    mon::seen("rbs");
    mon::distinct(mon::hashStr(mon::currentLog()));
}
