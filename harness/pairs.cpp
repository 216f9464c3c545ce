// Rigid alignment of point pairs, random sample consensus, golden section search.
#include "mon.hpp"
#include <envire/Core.hpp>
#include "icp/icp.hpp"
#include "icp/ransac.hpp"
#include "icp/ransac.hpp"
#include <Eigen/SVD>
using namespace envire;
using namespace Eigen;
typedef std::vector<Vector3d> Pts;

// a second source file of the same program also uses the header
size_t otherFilePick(size_t n, size_t k, std::vector<size_t>& out);

namespace {
Affine3d rigid(mon::Rng& r, double ang, double t) { Vector3d a(r.gauss(), r.gauss(), r.gauss()); if (a.norm() < 1e-3) a = Vector3d::UnitX(); return Affine3d(Translation3d(r.real(-t, t), r.real(-t, t), r.real(-t, t)) * AngleAxisd(ang, a.normalized())); }
double msd(const Pts& x, const Pts& p, const std::vector<size_t>& use, const Affine3d& t) { double s = 0; for (size_t i : use) s += (x[i] - t * p[i]).squaredNorm(); return s / use.size(); }
Affine3d best(const Pts& x, const Pts& p, const std::vector<size_t>& use)
{
    Vector3d mx = Vector3d::Zero(), mp = mx; for (size_t i : use) { mx += x[i]; mp += p[i]; } mx /= use.size(); mp /= use.size();
    Matrix3d h = Matrix3d::Zero(); for (size_t i : use) h += (p[i] - mp) * (x[i] - mx).transpose();
    JacobiSVD<Matrix3d> svd(h, ComputeFullU | ComputeFullV); Matrix3d d = Matrix3d::Identity(); d(2, 2) = (svd.matrixV() * svd.matrixU().transpose()).determinant() < 0 ? -1 : 1;
    Affine3d t = Affine3d::Identity(); t.linear() = svd.matrixV() * d * svd.matrixU().transpose(); t.translation() = mx - t.linear() * mp; return t;
}
bool isRigid(const Affine3d& t) { return (t.linear() * t.linear().transpose() - Matrix3d::Identity()).norm() < 1e-9 && std::fabs(t.linear().determinant() - 1) < 1e-9 && t.matrix().allFinite(); }
}

SECTION(transform, 40000, 300000)
{
    auto& r = c.rng; icp::Pairs q; int rounds = r.range(1, 3);
    for (int round = 0; round < rounds; round++) {
        int n = r.chance(0.1) ? r.range(0, 3) : r.range(3, r.chance(0.2) ? 60 : 8), shape = r.u(5); double spread = r.one({0.01, 1.0, 20.0}), off = r.one({0.0, 1.0, 100.0}), noise = r.one({0.0, 0.0, 0.01, 0.3}) * spread;
        double ang = r.chance(0.1) ? 0 : r.chance(0.1) ? M_PI : r.chance(0.3) ? r.real(-0.1, 0.1) : r.real(-M_PI, M_PI); Affine3d t = rigid(r, ang, off); bool unrelated = r.chance(0.1);
        Pts x, p; Vector3d o(r.real(-off, off), r.real(-off, off), r.real(-off, off)), d1 = rigid(r, 1, 0).linear().col(0), d2 = rigid(r, 1, 0).linear().col(1); std::vector<double> dist; bool real = r.chance(0.5);
        for (int i = 0; i < n; i++) {
            Vector3d v(r.gauss(), r.gauss(), r.gauss()); if (shape == 1) v = d1 * v.x() + d2 * v.y(); else if (shape == 2) v = d1 * v.x(); else if (shape == 3 && r.chance(0.5) && i) v = Vector3d::Zero(); else if (shape == 4) v = Vector3d(1, 0, 0);
            v = o + spread * v; p.push_back(v); x.push_back(unrelated ? Vector3d(o + spread * Vector3d(r.gauss(), r.gauss(), r.gauss())) : Vector3d(t * v + noise * Vector3d(r.gauss(), r.gauss(), r.gauss())));
            dist.push_back(real ? (x[i] - p[i]).norm() : r.real(0, 5)); q.add(x[i], p[i], dist[i]); }
        LOGOP(n << " pairs, shape " << shape << " spread " << spread << " offset " << off << " noise " << noise << " angle " << ang << (unrelated ? " unrelated" : ""));
        REQUIRE(q.size() == size_t(n), "pairs:size", q.size() << " of " << n << " pairs");
        std::vector<size_t> use(n); for (int i = 0; i < n; i++) use[i] = i;
        bool tie = false;
        if (r.chance(0.5)) {
            size_t k = r.u(n + 3); double lim = q.trim(k); LOGOP("trim to " << k);
            std::sort(use.begin(), use.end(), [&](size_t a, size_t b) { return dist[a] < dist[b]; });
            if (k < use.size()) { tie = k > 0 && dist[use[k - 1]] == dist[use[k]]; use.resize(k); mon::seen("trim.cut"); } else mon::seen("trim.all");
            REQUIRE(q.size() == use.size(), "trim:size", q.size() << " pairs are left of " << n << " after trimming to " << k);
            if (use.empty()) { REQUIRE(std::isnan(lim), "trim:empty", "limit of no pairs is " << lim); mon::seen("trim.none"); } else REQUIRE(lim == dist[use.back()], "trim:limit", "largest distance is " << lim << " instead of " << dist[use.back()]);
        }
        if (use.size() < 3) { REQUIRE(mon::throws([&] { q.getTransform(); }), "pairs:few", "transform from " << use.size() << " pairs"); mon::seen("pairs.few"); }
        else if (!tie) {
            Affine3d g = q.getTransform(); REQUIRE(isRigid(g), "pairs:rigid", "not a rotation and translation:\n" << g.matrix());
            double scale = 0; for (size_t i : use) scale = std::max(scale, std::max(x[i].squaredNorm(), p[i].squaredNorm()));
            double got = msd(x, p, use, g), want = msd(x, p, use, best(x, p, use)); REQUIRE(got <= want + 1e-9 * want + 1e-12 * scale, "pairs:best", "mean square distance is " << got << ", but " << want << " is possible");
            double m = 0; for (size_t i : use) m += dist[i] * dist[i]; m /= use.size(); REQUIRE(mon::close(q.getMeanSquareError(), m, 1e-9 * m + 1e-300), "pairs:mse", "mean square error is " << q.getMeanSquareError() << " instead of " << m);
            if (noise == 0 && !unrelated && (shape == 0 || shape == 1) && use.size() >= 5) { double e = 0; for (size_t i : use) e = std::max(e, (g * p[i] - x[i]).norm()); REQUIRE(e <= 1e-6 * (spread + std::sqrt(scale) * 1e-3), "pairs:exact", "pairs of an exact motion are " << e << " apart"); mon::seen("pairs.exact"); }
            mon::seen(unrelated ? "pairs.unrelated" : shape == 1 ? "pairs.plane" : shape == 2 ? "pairs.line" : shape >= 3 ? "pairs.repeated" : std::fabs(ang) > 2 ? "pairs.turned" : "pairs.transform");
        }
        mon::distinct(mon::hashStr(mon::currentLog())); q.clear(); REQUIRE(q.size() == 0, "pairs:clear", "pairs are left after clear");
    }
}

SECTION(consensus, 2500, 15000)
{
    auto& r = c.rng; srand(r.u(1 << 30)); using namespace ransac; int n = r.range(0, 40); double f = r.one({0.3, 0.6, 0.9, 1.0}), noise = r.chance(0.5) ? 0 : 0.02; double gross = r.one({2.0, 50.0}); size_t kernel = r.chance(0.1) ? r.range(0, 2) : r.range(3, 5);
    Affine3d t = rigid(r, r.real(-M_PI, M_PI), 5); Pts x, p; std::set<size_t> planted; std::vector<float> xe, pe;
    for (int i = 0; i < n; i++) { Vector3d v(r.real(-10, 10), r.real(-10, 10), r.real(-10, 10)); p.push_back(v); Vector3d w = t * v; bool in = r.chance(f); if (in) { planted.insert(i); w += noise * Vector3d(r.real(-1, 1), r.real(-1, 1), r.real(-1, 1)); } else w += gross * Vector3d(r.gauss(), r.gauss(), r.gauss()) + Vector3d(gross, 0, 0); x.push_back(w); xe.push_back(r.real(0.5, 1.5)); pe.push_back(r.real(0.5, 1.5)); }
    bool unc = r.chance(0.3); double errT = noise == 0 ? 1e-4 : r.one({0.1, 0.05}), thr = r.chance(0.1) ? r.one({1e-12, 0.0, 1e-3}) : noise == 0 ? r.one({1e-3, 0.01}) : r.one({0.05, 0.2}); size_t limit = r.chance(0.05) ? r.u(3) : r.one({50, 200});
    LOGOP(n << " pairs, " << planted.size() << " planted, noise " << noise << " gross " << gross << " kernel " << kernel << " error " << errT << " threshold " << thr << " limit " << limit << " uncertain " << unc);
    FitTransform ft(x, p, errT); FitTransformUncertain fu(x, p, xe, pe, errT); Affine3d m = Affine3d::Identity(); m(0, 3) = 12345; vector_size_t inl; REQUIRE(ft.getSampleCount() == size_t(n), "ransac:count", "sample count");
    auto dist = [&](size_t i, const Affine3d& a) { double d = (x[i] - a * p[i]).norm(); return unc ? d / std::sqrt(double(xe[i]) * xe[i] + double(pe[i]) * pe[i]) : d; };
    bool ok = unc ? ransacSingleModel(fu, kernel, thr, m, inl, limit) : ransacSingleModel(ft, kernel, thr, m, inl, limit);
    for (int i = 0; i < std::min(n, 4); i++) { Affine3d a = r.chance(0.5) ? m : rigid(r, 1, 1); double d = unc ? fu.testSample(i, a) : ft.testSample(i, a); REQUIRE(mon::close(d, dist(i, a), 1e-5 * d + 1e-12), "ransac:distance", "distance of sample " << i << " is " << d << " instead of " << dist(i, a)); }
    if (size_t(n) < kernel || kernel < 3 || !limit) { REQUIRE(!ok, "ransac:impossible", "a model was found with " << n << " samples, a kernel of " << kernel << " and " << limit << " iterations"); mon::seen("ransac.impossible"); return; }
    mon::distinct(mon::hashStr(mon::currentLog()));
    if (!ok) { mon::seen("ransac.none");
        // with enough tries, at least one sample of planted pairs comes up
        REQUIRE(!(planted.size() == size_t(n) && noise == 0 && thr >= 1e-3), "ransac:missed", "no model for pairs that all agree"); return; }
    REQUIRE(isRigid(m), "ransac:rigid", "model is not a rotation and translation");
    REQUIRE(!inl.empty(), "ransac:empty", "a model without inliers");
    std::set<size_t> in(inl.begin(), inl.end()); REQUIRE(in.size() == inl.size(), "ransac:twice", "an inlier is reported twice");
    for (int i = 0; i < n; i++) { double d = dist(i, m); if (std::fabs(d - thr) < 1e-5 * thr + 1e-12) continue; REQUIRE(in.count(i) == (d < thr), "ransac:inlier", "sample " << i << " at distance " << d << (in.count(i) ? " is" : " is not") << " an inlier"); }
    REQUIRE(in.empty() || *in.rbegin() < size_t(n), "ransac:range", "inlier " << *in.rbegin() << " of " << n);
    if (noise == 0 && thr >= 1e-3 && planted.size() >= 5 && gross > 10) { REQUIRE(in == planted, "ransac:planted", in.size() << " inliers, " << planted.size() << " pairs agree exactly"); mon::seen("ransac.planted"); }
    mon::seen("ransac.found"); if (in.size() < size_t(n)) mon::seen("ransac.outlier"); if (unc) mon::seen("ransac.uncertain");
}

SECTION(pick, 1500, 10000)
{
    auto& r = c.rng; srand(r.u(1 << 30)); size_t n = r.range(1, 12), k = r.range(0, n); std::set<size_t> all; LOGOP("pick " << k << " of " << n);
    for (int i = 0; i < 200; i++) { std::vector<size_t> v(r.u(5), 77); if (r.chance(0.5)) ransac::pickRandomIndex(n, k, v); else otherFilePick(n, k, v);
        REQUIRE(v.size() == k, "pick:size", v.size() << " indices instead of " << k); std::set<size_t> s(v.begin(), v.end()); REQUIRE(s.size() == k, "pick:twice", "an index was picked twice"); REQUIRE(s.empty() || *s.rbegin() < n, "pick:range", "index " << *s.rbegin() << " of " << n); all.insert(s.begin(), s.end()); }
    if (k) REQUIRE(all.size() == n, "pick:never", "only " << all.size() << " of " << n << " indices were ever picked"); mon::seen(k ? "pick.some" : "pick.none");
    // a fit needs three pairs that agree
    Pts x, p; Affine3d t = rigid(r, 1, 3); for (int i = 0; i < 6; i++) { p.push_back(Vector3d(r.real(-5, 5), r.real(-5, 5), r.real(-5, 5))); x.push_back(t * p.back()); } ransac::FitTransform ft(x, p, 0.01); Affine3d m = Affine3d::Identity(); std::vector<size_t> two = {0, 1}, four = {5, 2, 0, 3};
    REQUIRE(!ft.fitModel(two, m) && m.isApprox(Affine3d::Identity()), "fit:two", "a model from two pairs"); REQUIRE(ft.fitModel(four, m) && (m * p[1] - x[1]).norm() < 1e-4, "fit:exact", "no model from pairs that agree");
    x[2] += Vector3d(3, 0, 0); m.setIdentity(); ransac::FitTransform fb(x, p, 0.01); REQUIRE(!fb.fitModel(four, m) && m.isApprox(Affine3d::Identity()), "fit:disagree", "a model from pairs that disagree"); mon::seen("fit");
}

namespace { struct XF { double x, f; bool operator<(const XF& o) const { return f < o.f; } }; }
SECTION(golden, 6000, 50000)
{
    auto& r = c.rng; double lo = r.real(0.05, 5), hi = lo + r.one({0.1, 1.0, 10.0}) * r.real(0.5, 1.5), mid = r.chance(0.5) ? (lo + hi) / 2 : lo + (hi - lo) * r.real(0.1, 0.9), m = r.chance(0.1) ? lo : r.chance(0.1) ? hi : r.real(lo, hi), eps = r.one({1e-1, 1e-3, 1e-6}), pw = r.one({0.5, 1.0, 2.0}), sl = r.real(0.1, 10), sr = r.real(0.1, 10);
    int evals = 0; bool out = false; boost::function<XF(double)> f = [&](double x) { evals++; if (x < lo - 1e-9 || x > hi + 1e-9) out = true; return XF{x, (x < m ? sl : sr) * std::pow(std::fabs(x - m), pw)}; };
    LOGOP("minimum " << m << " in " << lo << ".." << hi << " from " << mid << " eps " << eps << " power " << pw);
    XF got = icp::GoldenBracket<XF>::findMin(f, lo, mid, hi, eps);
    REQUIRE(!out, "golden:outside", "the function was evaluated outside the interval");
    REQUIRE(std::fabs(got.x - m) <= eps * 2 * hi + 1e-9, "golden:minimum", "minimum at " << got.x << " instead of " << m << " (eps " << eps << ")");
    double ratio = std::log(std::max(2.0, (hi - lo) / (eps * lo))) / std::log(1 / 0.6180339); REQUIRE(evals < ratio * 3 + 30, "golden:evaluations", evals << " evaluations");
    mon::seen(m == lo || m == hi ? "golden.rim" : "golden.inner"); mon::distinct(mon::hashStr(mon::currentLog()));
}
