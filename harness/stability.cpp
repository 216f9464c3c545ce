// Sigma points, clusters of transforms, sampling of search regions, histograms of distances.
#include "mon.hpp"
#include "icp/stability.hpp"
#include <iostream>
using namespace envire::icp;
using namespace Eigen;

namespace {
struct Quiet { std::ostringstream s; std::streambuf* b; Quiet() : b(std::cout.rdbuf(s.rdbuf())) {} ~Quiet() { std::cout.rdbuf(b); } };
Matrix3d covariance(mon::Rng& r, bool* singular = 0)
{
    Matrix3d m = Matrix3d::Zero(); int k = r.u(4); double s = r.one({0.01, 0.3, 1.0}); if (singular) *singular = false;
    if (k == 0) { for (int i = 0; i < 3; i++) { double d = r.chance(0.3) ? 0 : s * r.real(0.05, 2); m(i, i) = d * d; if (d == 0 && singular) *singular = true; } return m; }
    Matrix3d b; for (int i = 0; i < 9; i++) b(i / 3, i % 3) = s * r.gauss(); if (k == 1) { b.col(r.u(3)).setZero(); if (singular) *singular = true; } m = b * b.transpose();
    if (k == 1 && r.chance(0.5)) { int z = r.u(3); m.row(z).setZero(); m.col(z).setZero(); } return m;
}
SigmaPointConfiguration limits(mon::Rng& r) { SigmaPointConfiguration c; c.n_sigma = r.range(1, 3); c.min_norm = r.chance(0.3) ? 0 : r.one({0.001, 0.05, 0.5}); c.max_norm = c.min_norm + r.one({0.01, 1.0, 100.0}); return c; }
// columns of the scaled Cholesky factor with bounded length
bool sigma(const Matrix3d& m, const SigmaPointConfiguration& c, Matrix3d& out, int* clamped = 0)
{
    typedef long double L; L l[3][3] = {}; bool clear = true; L top = std::max(m(0, 0), std::max(m(1, 1), m(2, 2)));
    for (int j = 0; j < 3; j++) { L d = m(j, j); for (int k = 0; k < j; k++) d -= l[j][k] * l[j][k]; if (d <= 1e-9L * top) { if (d > 1e-14L * top || d < -1e-14L * top) clear = false; continue; } l[j][j] = sqrtl(d); for (int i = j + 1; i < 3; i++) { L s = m(i, j); for (int k = 0; k < j; k++) s -= l[i][k] * l[j][k]; l[i][j] = s / l[j][j]; } }
    for (int j = 0; j < 3; j++) { L n = 0; for (int i = 0; i < 3; i++) { out(i, j) = c.n_sigma * l[i][j]; n += (L)out(i, j) * out(i, j); } n = sqrtl(n); double lim = n < c.min_norm ? c.min_norm : n > c.max_norm ? c.max_norm : -1; if (fabsl(n - c.min_norm) < 1e-6L * (c.min_norm + 1e-3L) || fabsl(n - c.max_norm) < 1e-6L * c.max_norm) clear = clear && n == 0 && c.min_norm == 0; if (lim >= 0) { out.col(j) = lim * Matrix3d::Identity().col(j); if (clamped) ++*clamped; } }
    return clear;
}
double yawOf(const Affine3d& t) { return std::atan2(t.linear()(1, 0), t.linear()(0, 0)); }
double wrap(double a) { return std::atan2(std::sin(a), std::cos(a)); }
struct Stat { Vector3d mean, var; double yaw, vyaw; };
Stat clusterStat(const std::vector<Affine3d>& p) { Stat s; s.mean.setZero(); s.var.setZero(); double a = 0, b = 0; for (auto& t : p) { s.mean += t.translation() / p.size(); a += std::sin(yawOf(t)); b += std::cos(yawOf(t)); } s.yaw = std::atan2(a, b); s.vyaw = 0; for (auto& t : p) { s.var += (t.translation() - s.mean).array().square().matrix() / p.size(); s.vyaw += std::pow(wrap(yawOf(t) - s.yaw), 2) / p.size(); } return s; }
}

SECTION(sigma, 15000, 120000)
{
    auto& r = c.rng; bool sing; Matrix3d m = covariance(r, &sing), want; SigmaPointConfiguration cf = limits(r); int cl = 0; LOGOP("covariance " << m.reshaped().transpose() << " sigmas " << cf.n_sigma << " length " << cf.min_norm << ".." << cf.max_norm);
    SigmaPoints sp; Matrix3d got = sp.calcSigmaPoints(m, cf); for (int j = 0; j < 3; j++) { double n = got.col(j).norm(); REQUIRE(n >= cf.min_norm * (1 - 1e-9) && n <= cf.max_norm * (1 + 1e-9), "sigma:length", "sigma point " << j << " has length " << n); }
    if (!sigma(m, cf, want, &cl)) { mon::seen("sigma.limit"); return; }
    REQUIRE((got - want).norm() <= 1e-5 * (want.norm() + m.norm()) + 1e-9, "sigma:points", "sigma points\n" << got << "\ninstead of\n" << want); if (!cl) REQUIRE((got * got.transpose() - cf.n_sigma * cf.n_sigma * m).norm() <= 1e-7 * m.norm() * 9 + 1e-12, "sigma:covariance", "the sigma points do not span the covariance");
    mon::seen(cl ? "sigma.bounded" : "sigma.free"); if (sing) mon::seen("sigma.singular"); mon::distinct(mon::hashStr(mon::currentLog()));
}

SECTION(cluster, 6000, 50000)
{
    auto& r = c.rng; Quiet quiet; ClusteringConfiguration cf; cf.min_number_of_points = r.range(1, 6); cf.remove_outliers = r.chance(0.7); cf.outliers_position = limits(r); cf.outliers_orientation = limits(r); Clustering cl(cf);
    Matrix3d cp = Matrix3d::Identity(), co = cp, sp, so; bool clear = true;
    for (int round = r.range(1, 3); round-- > 0;) {
        if (cf.remove_outliers && (round == 0 || r.chance(0.5) || clear)) { cp = covariance(r); co = covariance(r); cl.defOutlinerRegion(cp, co); }
        clear = sigma(cp, cf.outliers_position, sp); clear = sigma(co, cf.outliers_orientation, so) && clear;
        double limP = (sp * sp.transpose()).norm(), limO = (so * so.transpose())(2, 2); int n = r.range(0, 14); double base = r.real(-M_PI, M_PI), spread = r.one({0.0, 0.01, 0.3, 2.0}), ys = r.one({0.0, 0.02, 0.5}); Vector3d at(r.real(-5, 5), r.real(-5, 5), r.real(-1, 1)); bool tilt = r.chance(0.2); std::vector<Affine3d> pts;
        for (int i = 0; i < n; i++) { bool stray = r.chance(0.15); Affine3d t(Translation3d(at + spread * Vector3d(r.gauss(), r.gauss(), r.gauss()) + (stray ? Vector3d(r.real(-5, 5), r.real(-5, 5), 0) : Vector3d::Zero()))); t = t * AngleAxisd(base + ys * r.real(-2, 2), Vector3d::UnitZ()); if (tilt) t = t * AngleAxisd(r.real(-0.4, 0.4), Vector3d::UnitY()) * AngleAxisd(r.real(-0.4, 0.4), Vector3d::UnitX()); pts.push_back(t); }
        LOGOP(n << " transforms at " << at.transpose() << " spread " << spread << " yaw " << base << " spread " << ys << ", at least " << cf.min_number_of_points << " remove " << cf.remove_outliers << " limits " << limP << " " << limO);
        std::vector<Affine3d> left = pts; bool want = left.size() >= cf.min_number_of_points, sure = clear || !cf.remove_outliers; std::vector<size_t> removed;
        if (want && cf.remove_outliers) { want = false; while (left.size() >= cf.min_number_of_points) { Stat s = clusterStat(left); double a = Vector3d(s.var).norm(); bool pos = a > limP, ori = s.vyaw > limO; if (std::fabs(a - limP) < 1e-6 * limP + 1e-12 || std::fabs(s.vyaw - limO) < 1e-6 * limO + 1e-12) sure = false; if (!pos && !ori) { want = true; break; }
            double m = -1, m2 = -1; size_t w = 0; for (size_t i = 0; i < left.size(); i++) { double d = pos ? (left[i].translation() - s.mean).norm() : std::fabs(wrap(yawOf(left[i]) - s.yaw)); if (d > m) { m2 = m; m = d; w = i; } else m2 = std::max(m2, d); } if (m - m2 < 1e-9 * m + 1e-12 && left.size() > 1) sure = false; left.erase(left.begin() + w); removed.push_back(w); mon::seen(pos ? "cluster.far" : "cluster.turned"); } }
        bool got = cl.cluster(pts); if (!sure) { mon::seen("cluster.unclear"); continue; }
        REQUIRE(got == want, "cluster:result", (got ? "a" : "no") << " cluster from " << n << " transforms, " << left.size() << " are within the limits"); mon::distinct(mon::hashStr(mon::currentLog()));
        if (!got) { REQUIRE(cl.getSizePoints() < cf.min_number_of_points, "cluster:few", cl.getSizePoints() << " transforms are left"); mon::seen("cluster.none"); continue; }
        REQUIRE(cl.getSizePoints() == left.size() && cl.getPoints().size() == left.size(), "cluster:size", cl.getSizePoints() << " transforms are left instead of " << left.size()); auto have = cl.getPoints(); for (size_t i = 0; i < left.size(); i++) REQUIRE(have[i].matrix() == left[i].matrix(), "cluster:kept", "transform " << i << " of the cluster is another one");
        Stat s = clusterStat(left); Affine3d m = cl.getMean(); REQUIRE((m.translation() - s.mean).norm() < 1e-9, "cluster:mean", "mean is " << m.translation().transpose() << " instead of " << s.mean.transpose()); REQUIRE(std::fabs(wrap(yawOf(m) - s.yaw)) < 1e-9 && (m.linear() - AngleAxisd(s.yaw, Vector3d::UnitZ()).toRotationMatrix()).norm() < 1e-9, "cluster:yaw", "mean yaw is " << yawOf(m) << " instead of " << s.yaw);
        Matrix3d vt = s.var.asDiagonal(), vr = Matrix3d::Zero(); vr(2, 2) = s.vyaw; REQUIRE((cl.getTranslationCovariance() - vt).norm() < 1e-9 * (1 + vt.norm()), "cluster:variance", "variances\n" << cl.getTranslationCovariance() << "\ninstead of\n" << vt); REQUIRE((cl.getRotationCovariance() - vr).norm() < 1e-9, "cluster:yaw-variance", "yaw variance " << cl.getRotationCovariance()(2, 2) << " instead of " << s.vyaw);
        mon::seen(left.size() < pts.size() ? "cluster.reduced" : "cluster.complete"); if (std::fabs(base) > 3) mon::seen("cluster.backward"); if (base < 0) mon::seen("cluster.negative"); if (tilt) mon::seen("cluster.tilted");
    }
}

SECTION(sampling, 1500, 10000)
{
    auto& r = c.rng; Quiet quiet; SamplingConfiguration cf; cf.region_sample_position = limits(r); cf.region_sample_orientation = limits(r); Sampling s(cf);
    for (int round = r.range(1, 3); round-- > 0;) {
        Matrix3d cp = covariance(r), co = covariance(r), p, o; s.defSearchRegion(cp, co); bool clear = sigma(cp, cf.region_sample_position, p); clear = sigma(co, cf.region_sample_orientation, o) && clear; Matrix3d gp = s.getSigmaPointsOfSamplingRegionTranslation(), go = s.getSigmaPointsOfSamplingRegionRotation(); LOGOP("region\n" << gp << "\nand\n" << go);
        if (clear) { REQUIRE((gp - p).norm() <= 1e-5 * (p.norm() + cp.norm()) + 1e-9 && (go - o).norm() <= 1e-5 * (o.norm() + co.norm()) + 1e-9, "sampling:region", "search region\n" << gp << "\nand\n" << go << "\ninstead of\n" << p << "\nand\n" << o); mon::seen("sampling.region"); }
        double yb = go.col(2).norm(); std::vector<Affine3d> want, got; want.push_back(Affine3d::Identity()); for (int g = 1; g >= -1; g -= 2) { for (int k = 0; k < 2; k++) want.push_back(Affine3d(Translation3d(g * gp.col(k)))); want.push_back(Affine3d(AngleAxisd(g * yb, Vector3d::UnitZ()))); }
        int n = r.chance(0.7) ? r.range(7, 9) : r.range(0, 6); for (int i = 0; i < n; i++) { Affine3d t = s.getSigmaOffset(); if (i >= 7) { REQUIRE(t.matrix().isApprox(Matrix4d::Identity()), "sampling:further", "a further sigma offset is not zero"); mon::seen("sampling.further"); continue; } got.push_back(t); if (r.chance(0.2)) s.getUniformOffset(); }
        if (n >= 7) { for (auto& w : want) { bool f = false; for (auto it = got.begin(); it != got.end() && !f; ++it) if ((it->matrix() - w.matrix()).norm() < 1e-9) { got.erase(it); f = true; } REQUIRE(f, "sampling:sigma", "the offset\n" << w.matrix() << "\nis not among the sigma offsets"); } REQUIRE(got.empty(), "sampling:sigma", "surplus sigma offsets"); mon::seen("sampling.sigma"); }
        Vector3d top = Vector3d::Zero(), bottom = top; double yt = 0, yl = 0, bx = gp.row(0).cwiseAbs().sum(), by = gp.row(1).cwiseAbs().sum(); std::set<double> values;
        for (int i = 0; i < 60; i++) { Affine3d t = s.getUniformOffset(); Vector3d v = t.translation(); double y = yawOf(t); REQUIRE(v.z() == 0, "sampling:height", "offset changes the height by " << v.z()); REQUIRE(std::fabs(v.x()) <= bx * (1 + 1e-9) && std::fabs(v.y()) <= by * (1 + 1e-9), "sampling:outside", "offset " << v.transpose() << " is outside " << bx << "," << by); if (yb < 3) REQUIRE(std::fabs(y) <= yb * (1 + 1e-9), "sampling:turned", "offset turns by " << y << ", limit " << yb); REQUIRE((t.linear() - AngleAxisd(y, Vector3d::UnitZ()).toRotationMatrix()).norm() < 1e-9, "sampling:tilted", "offset is tilted"); top = top.cwiseMax(v); bottom = bottom.cwiseMin(v); yt = std::max(yt, y); yl = std::min(yl, y); values.insert(v.x()); }
        // 60 even draws reach both halves of the region
        if (bx > 1e-6) REQUIRE(top.x() > 0.1 * bx && bottom.x() < -0.1 * bx && values.size() > 50, "sampling:uneven", "offsets in x are only " << bottom.x() << ".." << top.x() << " of " << bx); if (by > 1e-6) REQUIRE(top.y() > 0.1 * by && bottom.y() < -0.1 * by, "sampling:uneven", "offsets in y are only " << bottom.y() << ".." << top.y() << " of " << by); if (yb > 1e-6 && yb < 3) REQUIRE(yt > 0.3 * yb && yl < -0.3 * yb, "sampling:uneven", "yaw offsets are only " << yl << ".." << yt << " of " << yb);
        mon::seen("sampling.uniform"); mon::distinct(mon::hashStr(mon::currentLog()));
    }
}

SECTION(histogram, 12000, 100000)
{
    auto& r = c.rng; HistogramConfiguration cf; cf.number_bins = r.range(7, 14); cf.area = r.one({1.04544, 4.0, 0.5}); cf.normalization = true; cf.outliners = true; cf.mean = r.real(0, 0.5); cf.sigma = r.one({0.05, 0.26136, 1.0}); Histogram h(cf);
    for (int round = r.range(1, 3); round-- > 0;) {
        int n = r.chance(0.1) ? 0 : r.range(1, r.chance(0.3) ? 200 : 12); double sp = r.one({0.1, 0.6, 3.0}) * cf.area * cf.sigma; std::vector<double> d; for (int i = 0; i < n; i++) d.push_back(cf.mean + (r.chance(0.1) ? sp : r.real(-sp, sp))); if (r.chance(0.7)) std::sort(d.begin(), d.end()); else mon::seen("histogram.unsorted");
        LOGOP(n << " distances around " << cf.mean << " spread " << sp << " sigma " << cf.sigma << " bins " << cf.number_bins << " area " << cf.area); h.calculateHistogram(d); auto v = h.getHistogram(), l = h.getHistogramLimits(); int nb = cf.number_bins;
        REQUIRE(int(v.size()) == nb + 2 && int(l.size()) == nb + 3, "histogram:size", v.size() << " bins with " << l.size() << " limits"); for (int k = 0; k <= nb; k++) REQUIRE(mon::close(l[k + 1], (k - nb / 2.0) * cf.area / nb, 1e-9 * cf.area), "histogram:limits", "limit " << k << " is " << l[k + 1]); REQUIRE(l[0] < l[1] && l[nb + 2] > l[nb + 1], "histogram:limits", "outlier bins have no width");
        std::vector<double> s; for (double q : d) s.push_back((q - cf.mean) / cf.sigma); double sum = 0;
        for (int k = 0; k < nb + 2; k++) { int in = 0, may = 0; double e = 1e-9 * cf.area; for (double q : s) { bool a = k == 0 || q >= l[k] + e, b = k == nb + 1 || q < l[k + 1] - e, a2 = k == 0 || q >= l[k] - e, b2 = k == nb + 1 || q < l[k + 1] + e; in += a && b; may += a2 && b2; } double mass = v[k] * (l[k + 1] - l[k]) * n; sum += v[k] * (l[k + 1] - l[k]); REQUIRE(v[k] >= 0 && mass >= in - 1e-6 && mass <= may + 1e-6, "histogram:bin", "bin " << k << " from " << l[k] << " to " << l[k + 1] << " has density " << v[k] << ", that is " << mass << " of " << n << " distances instead of " << in); }
        REQUIRE(n ? mon::close(sum, 1, 1e-9) : sum == 0, "histogram:sum", "the densities add up to " << sum); for (double q : s) REQUIRE(q >= l[0] - 1e-9 && q <= l[nb + 2] + 1e-9, "histogram:range", "a distance is outside of the histogram");
        const double w[] = {8.25721077416, 7.27432450174, 0.901085498402, 1.7194718866, -5.12025789975, -5.57942365201, -3.69004685039}; double f = -2.61875927499 * 0.13068 - 6.33104159879; for (int k = 0; k < 7; k++) f += w[k] * v[k + 2]; REQUIRE(mon::close(h.getSVMValue(), f, 1e-9 * (1 + std::fabs(f))), "histogram:svm", "rating is " << h.getSVMValue() << " instead of " << f);
        mon::seen(n ? "histogram.filled" : "histogram.empty"); if (n && v[0] > 0) mon::seen("histogram.below"); if (n && v[nb + 1] > 0) mon::seen("histogram.above"); mon::distinct(mon::hashStr(mon::currentLog()));
    }
}
