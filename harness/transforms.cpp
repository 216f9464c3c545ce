#include "envworld.hpp"
EW_REGISTER()
using namespace ew;

namespace {
class TMap3 : public Map<3> {
    ENVIRONMENT_ITEM(TMap3)
public:
    Extents ext;
    TMap3() : Map<3>(Environment::ITEM_NOT_ATTACHED) {}
    Extents getExtents() const { return ext; }
};
class TMap2 : public Map<2> {
    ENVIRONMENT_ITEM(TMap2)
public:
    Extents ext;
    TMap2() : Map<2>(Environment::ITEM_NOT_ATTACHED) {}
    Extents getExtents() const { return ext; }
};
const std::string TMap3::className = "envire::TMap3";
const std::string TMap2::className = "envire::TMap2";

struct Tree {
    Environment env; std::vector<FrameNode*> fn; std::vector<int> par; std::vector<int> top;
};
Eigen::Affine3d rtf(mon::Rng& r, double scale) {
    Eigen::Affine3d t(Eigen::Affine3d::Identity());
    if (r.chance(0.9)) t.translation() = Eigen::Vector3d(r.real(-scale, scale), r.real(-scale, scale), r.real(-scale, scale));
    if (r.chance(0.9)) { Eigen::Quaterniond q(r.gauss(), r.gauss(), r.gauss(), r.gauss()); q.normalize(); t.linear() = q.toRotationMatrix(); }
    return t;
}
// frame chain to the top, composed the other way round than the code does
Eigen::Matrix4d chain(const std::vector<Eigen::Matrix4d>& tf, const std::vector<int>& par, int i) {
    std::vector<int> path; for (int k = i; k >= 0 && par[k] >= -1; k = par[k]) { if (par[k] == -1) break; path.push_back(k); }
    Eigen::Matrix4d m = Eigen::Matrix4d::Identity();
    for (size_t k = path.size(); k-- > 0;) m = m * tf[path[k]];
    return m;
}
Eigen::Matrix4d inv(const Eigen::Matrix4d& m) {
    Eigen::Matrix4d r = Eigen::Matrix4d::Identity();
    Eigen::Matrix3d R = m.topLeftCorner<3, 3>();
    r.topLeftCorner<3, 3>() = R.transpose();
    r.topRightCorner<3, 1>() = -(R.transpose() * m.topRightCorner<3, 1>());
    return r;
}
}

SECTION(relative, 1500, 20000)
{
    auto& r = c.rng;
    Environment env;
    double scale = r.one({1.0, 10.0, 1000.0});
    std::vector<FrameNode*> fn; std::vector<int> par; std::vector<Eigen::Matrix4d> tf;
    int n = r.range(2, 14);
    fn.push_back(env.getRootNode()); par.push_back(-1); tf.push_back(Eigen::Matrix4d::Identity());
    for (int i = 1; i < n; i++) {
        FrameNode* f = new FrameNode; env.attachItem(f);
        Eigen::Affine3d t = rtf(r, scale);
        if (r.chance(0.3)) { World w(c); f->setTransform(TransformWithUncertainty(t, w.randomCov())); } else f->setTransform(t);
        fn.push_back(f); tf.push_back(t.matrix());
        if (r.chance(0.12)) par.push_back(-1);      // the top of another tree
        else { int p = r.chance(0.5) ? i - 1 : (int)r.u(i); par.push_back(p); env.addChild(fn[p], f); }
    }
    auto topOf = [&](int i) { while (par[i] >= 0) i = par[i]; return i; };
    for (int round = 0; round < 2; round++) {
        for (int a = 0; a < n; a++) for (int b = 0; b < n; b++) {
            if (topOf(a) != topOf(b)) {
                REQUIRE(mon::throws([&]() { env.relativeTransform(fn[a], fn[b]); }), "relative:foreign", "frames without common root were related");
                mon::seen("relative.foreign"); continue;
            }
            Eigen::Matrix4d want = inv(chain(tf, par, b)) * chain(tf, par, a);
            Transform got = env.relativeTransform(fn[a], fn[b]);
            double tol = 1e-10 * (1 + scale);
            REQUIRE((got.matrix() - want).cwiseAbs().maxCoeff() <= tol, "relative:value", "relative transform off by " << (got.matrix() - want).cwiseAbs().maxCoeff());
            REQUIRE((fn[a]->relativeTransform(fn[b]).matrix() - want).cwiseAbs().maxCoeff() <= tol, "relative:frame", "FrameNode::relativeTransform");
            TransformWithUncertainty u = env.relativeTransformWithUncertainty(fn[a], fn[b]);
            REQUIRE((u.getTransform().matrix() - want).cwiseAbs().maxCoeff() <= tol, "relative:uncertain", "relative transform with uncertainty off by " << (u.getTransform().matrix() - want).cwiseAbs().maxCoeff());
            bool any = false;   // uncertainty anywhere on the way to the top
            if (a != b) for (int s : {a, b}) for (int k = s; par[k] >= 0; k = par[k]) any |= fn[k]->getTransformWithUncertainty().hasUncertainty();
            REQUIRE(u.hasUncertainty() == any, "relative:flag", "uncertainty flag " << u.hasUncertainty() << " expected " << any);
            if (par[a] == b) { REQUIRE(got.matrix() == fn[a]->getTransform().matrix() || (got.matrix() - fn[a]->getTransform().matrix()).cwiseAbs().maxCoeff() < tol, "relative:parent", "child to parent is not the frame transform"); mon::seen("relative.parent"); }
            mon::seen("relative");
        }
        // change the tree and ask again
        if (n > 2) {
            int k = r.range(1, n - 1); Eigen::Affine3d t = rtf(r, scale); fn[k]->setTransform(t); tf[k] = t.matrix();
            int ch = r.range(1, n - 1), p = (int)r.u(n); bool bad = false;
            for (int q = p; q >= 0; q = par[q]) if (q == ch) bad = true;
            if (!bad) { env.addChild(fn[p], fn[ch]); par[ch] = p; mon::seen("relative.reparented"); }
        }
    }
    // maps in two of the frames
    TMap3* m3 = new TMap3; TMap2* m2 = new TMap2;
    env.attachItem(m3); env.attachItem(m2);
    int a = (int)r.u(n), b = (int)r.u(n);
    m3->setFrameNode(fn[a]); m2->setFrameNode(fn[b]);
    double tol = 1e-9 * (1 + scale);
    if (topOf(a) == topOf(b)) {
        Eigen::Matrix4d want = inv(chain(tf, par, b)) * chain(tf, par, a);
        REQUIRE((env.relativeTransform(static_cast<CartesianMap*>(m3), static_cast<CartesianMap*>(m2)).matrix() - want).cwiseAbs().maxCoeff() < tol, "relative:maps", "relative transform of maps");
        REQUIRE((env.relativeTransformWithUncertainty(static_cast<CartesianMap*>(m3), static_cast<CartesianMap*>(m2)).getTransform().matrix() - want).cwiseAbs().maxCoeff() < tol, "relative:maps", "relative transform of maps with uncertainty");
    }
    for (int k = 0; k < 10; k++) {
        Eigen::Vector3d p(r.real(-scale, scale), r.real(-scale, scale), r.real(-scale, scale));
        int f = (int)r.u(n); if (topOf(f) != topOf(a)) continue;
        Eigen::Matrix4d W = inv(chain(tf, par, f)) * chain(tf, par, a);
        Eigen::Vector3d want = W.topLeftCorner<3, 3>() * p + W.topRightCorner<3, 1>();
        REQUIRE((m3->fromMap(p, *fn[f]) - want).norm() < tol, "map:from", "fromMap with frame");
        REQUIRE((m3->toMap(want, *fn[f]) - p).norm() < tol, "map:to", "toMap with frame");
        Eigen::Matrix4d T = chain(tf, par, a); Eigen::Vector3d root = T.topLeftCorner<3, 3>() * p + T.topRightCorner<3, 1>();
        REQUIRE((m3->fromMap(p) - root).norm() < tol && (m3->toMap(root) - p).norm() < tol, "map:root", "toMap/fromMap to the root");
        mon::seen("map.points");
    }
    for (int k = 0; k < 4; k++) {
        Eigen::Vector3d lo(r.real(-scale, scale), r.real(-scale, scale), r.real(-scale, scale));
        Eigen::Vector3d hi = lo + Eigen::Vector3d(r.real(0, scale), r.real(0, scale), r.real(0, scale));
        m3->ext = TMap3::Extents(lo, hi); m2->ext = TMap2::Extents(Eigen::Vector2d(lo.head<2>()), Eigen::Vector2d(hi.head<2>()));
        int f = (int)r.u(n);
        auto box = [&](int from, bool flat, Eigen::Vector3d& mn, Eigen::Vector3d& mx) {
            Eigen::Matrix4d W = inv(chain(tf, par, f)) * chain(tf, par, from);
            mn.setConstant(1e300); mx.setConstant(-1e300);
            for (int i = 0; i < 8; i++) {
                Eigen::Vector3d q((i & 1) ? lo.x() : hi.x(), (i & 2) ? lo.y() : hi.y(), flat ? 0.0 : ((i & 4) ? lo.z() : hi.z()));
                Eigen::Vector3d t = W.topLeftCorner<3, 3>() * q + W.topRightCorner<3, 1>();
                mn = mn.cwiseMin(t); mx = mx.cwiseMax(t);
            }
        };
        Eigen::Vector3d mn, mx;
        if (topOf(f) == topOf(a)) { box(a, false, mn, mx); TMap3::Extents e = m3->getExtentsTransformed(*fn[f]);
            REQUIRE((e.min() - mn).norm() < tol && (e.max() - mx).norm() < tol, "extents:3d", "transformed extents of a 3D map"); mon::seen("extents.3d"); }
        if (topOf(f) == topOf(b)) { box(b, true, mn, mx); TMap2::Extents e = m2->getExtentsTransformed(*fn[f]);
            REQUIRE((e.min() - mn.head<2>()).norm() < tol && (e.max() - mx.head<2>()).norm() < tol, "extents:2d", "transformed extents of a 2D map: " << e.min().transpose() << " .. " << e.max().transpose() << " expected " << mn.transpose() << " .. " << mx.transpose()); mon::seen("extents.2d"); }
    }
    uint64_t h = 0; for (auto& m : tf) for (int i = 0; i < 16; i++) { double d = m(i / 4, i % 4); uint64_t u; memcpy(&u, &d, 8); h = mon::mix(h ^ u); }
    mon::distinct(h);
}
