// P19: how measurements are merged into surface patches.
#include "mon.hpp"
#include <envire/Core.hpp>
#include <envire/maps/MLSGrid.hpp>
#include <memory>
#include <algorithm>
using namespace envire;
typedef MLSGrid::SurfacePatch P;
typedef MLSGrid::Position Pos;
typedef long double L;

static std::vector<P> cell(MLSGrid& g, size_t x, size_t y) {
    std::vector<P> v; for (MLSGrid::iterator it = g.beginCell(x, y); it != g.endCell(); it++) v.push_back(*it);
    std::sort(v.begin(), v.end(), [](const P& a, const P& b) { return a.mean < b.mean; });
    return v;
}
static std::string show(const std::vector<P>& v) {
    std::ostringstream o; for (const P& p : v) o << " [" << p.mean << "+-" << p.stdev << " h" << p.height << " n" << p.n << " " << p.min << ".." << p.max << (p.isHorizontal() ? " hor" : p.isVertical() ? " ver" : " neg") << "]";
    return o.str();
}

// ---- SUM: a patch is a set of measurements, statistics of that set ----
struct Meas { float z, s; };
struct Cluster { std::vector<Meas> ms; float min, max;
    L N() const { L n = 0; for (auto& m : ms) n += 1 / ((L)m.s * m.s); return n; }
    L mean() const { L a = 0; for (auto& m : ms) a += m.z / ((L)m.s * m.s); return a / N(); }
    // weighted variance of the heights around their mean, without the share of the measurement noise
    L var() const { L n = N(), q = 0, mu = mean(), v = 0; for (auto& m : ms) { L w = 1 / ((L)m.s * m.s); q += w * w; v += w * (m.z - mu) * (m.z - mu); }
        return std::max<L>(1e-6, v * n / (n * n - q) - ms.size() / n); }
};
SECTION(sum, 20000, 300000) {
    mon::Rng& r = c.rng; MLSGrid::Ptr g(new MLSGrid(3, 3, .5, .5));
    g->getConfig().updateModel = MLSConfiguration::SUM; float gap = g->getConfig().gapSize = (float)r.one({.05, .2, .5, 1.0, 0.01});
    size_t x = r.u(3), y = r.u(3); std::vector<Cluster> cl;
    int n = r.range(2, 25); double range = r.one({.3, 1.0, 4.0}), base = r.chance(.5) ? 0 : r.real(-5, 5); bool multi = false;
    for (int i = 0; i < n; i++) {
        Meas m{(float)(base + r.real(-range, range)), (float)r.real(.02, .3)};
        if (cl.size() && r.chance(.2)) m.z = r.pick(r.pick(cl).ms).z;
        for (auto& k : cl) if (std::fabs(m.z - (k.min - gap)) < 1e-4 || std::fabs(m.z - (k.max + gap)) < 1e-4) return;   // on the rim: not judged
        LOGOP("z " << m.z << " stdev " << m.s << " gap " << gap);
        Cluster j; j.ms = {m}; j.min = j.max = m.z; std::vector<Cluster> rest; int hit = 0;
        for (auto& k : cl) if (m.z > k.min - gap && m.z < k.max + gap) { hit++; j.ms.insert(j.ms.end(), k.ms.begin(), k.ms.end()); j.min = std::min(j.min, k.min); j.max = std::max(j.max, k.max); } else rest.push_back(k);
        rest.push_back(j); cl = rest; multi |= hit > 1; if (hit > 1) mon::seen("sum.bridged"); if (hit == 1) mon::seen("sum.merged");
        double s = g->getScaleX();
        if (r.chance(.5)) g->updateCell(x, y, m.z, m.s); else REQUIRE(g->update(Eigen::Vector2d((x + r.real(.1, .9)) * s, (y + r.real(.1, .9)) * s), P(m.z, m.s)), "update", "a point in the grid was refused");
        std::vector<P> have = cell(*g, x, y); std::sort(cl.begin(), cl.end(), [](const Cluster& a, const Cluster& b) { return a.mean() < b.mean(); });
        REQUIRE(have.size() == cl.size(), "sum.patches", have.size() << " patches, " << cl.size() << " expected:" << show(have));
        for (size_t k = 0; k < cl.size(); k++) {
            REQUIRE(have[k].getMeasurementCount() == cl[k].ms.size(), "sum.count", "patch " << k << " counts " << have[k].getMeasurementCount() << " measurements, " << cl[k].ms.size() << " were made:" << show(have));
            REQUIRE(mon::close(have[k].mean, cl[k].mean(), 1e-4, 1e-4), "sum.mean", "mean " << have[k].mean << " expected " << (double)cl[k].mean() << show(have));
            REQUIRE(have[k].min == cl[k].min && have[k].max == cl[k].max, "sum.range", "range " << have[k].min << ".." << have[k].max << " expected " << cl[k].min << ".." << cl[k].max);
            REQUIRE(mon::close(have[k].getWeight(), (double)cl[k].N(), 0, 1e-3), "sum.weight", "weight " << have[k].getWeight() << " expected " << (double)cl[k].N());
            double mm = std::max(std::fabs(base) + range, 1.0), N = cl[k].N(), q = 0; for (auto& e : cl[k].ms) q += 1 / std::pow((double)e.s, 4); double tol = cl[k].ms.size() > 1 ? 3e-7 * mm * mm * cl[k].ms.size() * N * N / (N * N - q) : 0;   // sums of squares are kept in single precision
            if (cl[k].ms.size() > 1) { REQUIRE(std::fabs((double)have[k].stdev * have[k].stdev - (double)cl[k].var()) <= tol + 2e-3 * (double)cl[k].var(), "sum.var", "variance " << have[k].stdev * have[k].stdev << " expected " << (double)cl[k].var() << " (mean " << (double)cl[k].mean() << ", " << cl[k].ms.size() << " measurements)"); mon::seen("sum.var"); }
            else REQUIRE(mon::close(have[k].stdev, cl[k].ms[0].s, 1e-6, 1e-4), "sum.single", "stdev " << have[k].stdev << " of a single measurement of " << cl[k].ms[0].s);
        }
    }
    if (n > 3) mon::distinct(mon::hashStr(mon::currentLog())); mon::sample(mon::currentLog());
}

// ---- KALMAN: one pair of patches ----
SECTION(pair, 60000, 1000000) {
    mon::Rng& r = c.rng; float gap = (float)r.one({.05, .3, 1.0}), th = (float)r.one({.01, .05, .2});
    auto mk = [&](bool neg) { P p((float)r.real(-1.5, 1.5), (float)r.real(.01, .2), 0, P::HORIZONTAL); int t = r.u(neg ? 3 : 2); if (t) { p.height = (float)r.real(.05, 1.5); if (t == 1) p.setVertical(); else p.setNegative(); }
        p.update_idx = r.u(4); p.setColor(base::Vector3d(r.u(256), r.u(256), r.u(256)) / 255.0); return p; };
    P a = mk(true), b = mk(true); if (r.chance(.2)) { b.mean = a.mean; } if (r.chance(.1)) { b.height = a.height; }
    if (r.chance(.15)) { b.color[0] = a.color[0]; b.color[1] = a.color[1]; b.color[2] = a.color[2]; }
    P p = a, o = b; LOGOP("merge" << show({a, b}) << " update_idx " << a.update_idx << " " << b.update_idx << " gap " << gap << " thickness " << th);
    bool m = p.merge(o, th, gap, MLSConfiguration::KALMAN);
    double dev = std::sqrt((double)a.stdev * a.stdev + (double)b.stdev * b.stdev);
    double at = a.mean, ab = a.mean - (double)a.height, bt = b.mean, bb = b.mean - (double)b.height;
    double near = std::max(ab - bt, bb - at) - gap - dev;      // negative: within reach
    double thin = std::fabs(at - bt) - th - dev;
    if (std::fabs(near) < 1e-5 || std::fabs(thin) < 1e-5) return;
    mon::distinct(mon::hashStr(mon::currentLog())); mon::sample(mon::currentLog());
    auto same = [&](const P& x, const P& y) { return x.mean == y.mean && x.stdev == y.stdev && x.height == y.height && x.n == y.n && x.isHorizontal() == y.isHorizontal() && x.isNegative() == y.isNegative() && x.update_idx == y.update_idx; };
    bool mixed = a.isNegative() != b.isNegative();
    if (near > 0) {
        REQUIRE(!m && same(p, a) && same(o, b), "kalman.apart", "patches further apart than the gap were changed:" << show({p, o}));
        mon::seen("pair.apart"); return;
    }
    if (!mixed) {
        REQUIRE(m, "kalman.near", "patches within the gap were not merged" << show({p, o}));
        REQUIRE(p.getMeasurementCount() == a.n + b.n, "kalman.count", "merged patch counts " << p.n << " measurements");
        REQUIRE(p.update_idx == std::max(a.update_idx, b.update_idx), "kalman.idx", "update index " << p.update_idx);
        for (int k = 0; k < 3; k++) REQUIRE(std::abs(2 * p.color[k] - (a.color[k] + b.color[k])) <= 1, "color", "colour " << (int)p.color[k] << " from " << (int)a.color[k] << " and " << (int)b.color[k]);
        if (a.isHorizontal() && b.isHorizontal() && thin < 0) {
            double va = (double)a.stdev * a.stdev, vb = (double)b.stdev * b.stdev, mean = (a.mean * vb + b.mean * va) / (va + vb), var = va * vb / (va + vb);
            REQUIRE(p.isHorizontal() && p.height == 0 && mon::close(p.mean, mean, 1e-5) && mon::close(p.stdev, std::sqrt(var), 1e-6, 1e-3), "kalman.fuse", "fused" << show({p}) << " expected " << mean << "+-" << std::sqrt(var));
            mon::seen("pair.fused");
        } else {
            REQUIRE(a.isNegative() ? p.isNegative() : p.isVertical(), "kalman.type", "the union of the patches has the wrong type" << show({p}));
            REQUIRE(mon::close(p.mean, std::max(at, bt), 1e-5) && mon::close(p.mean - (double)p.height, std::min(ab, bb), 1e-5), "kalman.union", "block" << show({p}) << " expected " << std::min(ab, bb) << ".." << std::max(at, bt));
            mon::seen(a.isNegative() ? "pair.union.negative" : "pair.union");
        }
        return;
    }
    // free and occupied space: the newer one stays, the older one is cut or overwritten
    if (a.update_idx == b.update_idx) { REQUIRE(!m && same(p, a) && same(o, b), "negative.same", "patches of the same update were changed"); mon::seen("negative.same"); return; }
    const bool aold = a.update_idx < b.update_idx; const P &old = aold ? a : b, &nw = aold ? b : a, &old2 = aold ? p : o, &nw2 = aold ? o : p;
    double ot = old.mean, ob = old.mean - (double)old.height, nt = nw.mean, nb = nw.mean - (double)nw.height;
    if (std::fabs(ot - nt) < 1e-5 && ot != nt) return; if (std::fabs(ob - nb) < 1e-5 && ob != nb) return;
    if (m) {
        REQUIRE(nt >= ot - 1e-5 && nb <= ob + 1e-5, "negative.overwrite", "the older patch was overwritten although it is not enclosed" << show({a, b}));
        REQUIRE(p.mean == nw.mean && p.height == nw.height && p.isNegative() == nw.isNegative() && p.isHorizontal() == nw.isHorizontal(), "negative.overwrite", "the older patch was not overwritten by the newer one" << show({p}));
        mon::seen("negative.overwritten");
    } else {
        REQUIRE(same(nw2, nw), "negative.new", "the newer patch was changed" << show({p, o}));
        REQUIRE(old2.isNegative() == old.isNegative() && old2.isHorizontal() == old.isHorizontal(), "negative.type", "the type of the older patch changed");
        double t2 = old2.mean, b2 = old2.mean - (double)old2.height;
        REQUIRE(old2.height >= 0, "negative.cut", "cutting left a patch of negative height" << show({a, b, p, o}));
        REQUIRE(t2 <= ot + 1e-5 && b2 >= ob - 1e-5, "negative.grown", "cutting the patch made it grow" << show({a, b, p, o}));
        REQUIRE(std::min(t2, nt) - std::max(b2, nb) <= 1e-5 || (nt < ot && nb > ob) , "negative.overlap", "free and occupied space still overlap" << show({a, b, p, o}));
        bool touch = nt > ob + 1e-5 && nb < ot - 1e-5;
        if (nt < ob - 1e-5 || nb > ot + 1e-5) REQUIRE(same(old2, old), "negative.untouched", "patches which do not overlap were changed" << show({a, b, p, o}));
        mon::seen(touch ? "negative.cut" : "negative.untouched");
    }
}

// ---- separated layers, any model: each keeps its own patch ----
SECTION(layers, 15000, 250000) {
    mon::Rng& r = c.rng; int model = r.u(3); size_t w = r.range(1, 4), h = r.range(1, 4); double sc = r.real(.1, 1), ox = r.real(-3, 3), oy = r.real(-3, 3);
    MLSGrid::Ptr g(new MLSGrid(w, h, sc, sc, ox, oy)); g->getConfig().updateModel = (MLSConfiguration::update_model)model;
    float gap = g->getConfig().gapSize = (float)(model == 2 ? 1 : r.one({.1, .5})), th = g->getConfig().thickness = .1f; (void)th;
    int nl = r.range(1, 3); double slopex = model == 2 ? r.real(-.4, .4) : 0, slopey = model == 2 ? r.real(-.4, .4) : 0;
    std::vector<double> z; double z0 = r.real(-4, -3); for (int i = 0; i < nl; i++) { z.push_back(z0); z0 += r.real(3.2, 3.6) * (gap + 1) * .8; }
    struct S { L wz = 0, w = 0; int n = 0; }; std::map<std::tuple<size_t, size_t, int>, S> want; int n = r.range(3, 60); double s0 = r.real(.01, .05);
    LOGOP("model " << model << " layers " << nl << " measurements " << n << " gap " << gap << " slope " << slopex << "," << slopey);
    for (int i = 0; i < n; i++) {
        size_t x = r.u(w), y = r.u(h); int l = r.u(nl); double mx = r.real(.02, .98) * sc, my = r.real(.02, .98) * sc;
        double zz = z[l] + slopex * mx + slopey * my + (model == 2 ? 0 : r.real(-.01, .01)), s = model == 2 ? s0 : r.real(.02, .06); P p((float)zz, (float)s);
        REQUIRE(g->update(Eigen::Vector2d(x * sc + mx + ox, y * sc + my + oy), p), "update", "a point in the grid was refused");
        S& q = want[std::make_tuple(x, y, l)]; q.w += 1 / ((L)p.stdev * p.stdev); q.wz += p.mean / ((L)p.stdev * p.stdev); q.n++;
    }
    REQUIRE(!g->update(Eigen::Vector2d(ox - r.real(.01, 9), oy), P(0, 1)), "outside", "a point outside of the grid was accepted");
    size_t total = 0;
    for (size_t x = 0; x < w; x++) for (size_t y = 0; y < h; y++) {
        std::vector<P> v = cell(*g, x, y); size_t k = 0;
        for (int l = 0; l < nl; l++) {
            auto it = want.find(std::make_tuple(x, y, l)); if (it == want.end()) continue; total++;
            REQUIRE(k < v.size(), "layers", "layer " << l << " of cell " << x << "," << y << " has no patch:" << show(v)); const P& p = v[k++]; S& q = it->second;
            REQUIRE(p.isHorizontal(), "layers.type", "layer became" << show({p}));
            REQUIRE(p.getMeasurementCount() == q.n, "layers.count", "patch counts " << p.n << " of " << q.n << " measurements");
            if (model != 2) {
                REQUIRE(mon::close(p.mean, (double)(q.wz / q.w), 1e-4, 1e-5), "layers.mean", "mean " << p.mean << " expected " << (double)(q.wz / q.w) << " (" << q.n << " measurements, model " << model << ")");
                if (model == 0) REQUIRE(mon::close(p.stdev, std::sqrt((double)(1 / q.w)), 1e-5, 1e-2), "layers.stdev", "stdev " << p.stdev << " expected " << std::sqrt((double)(1 / q.w)));
            } else if (q.n == 1) {
                REQUIRE(mon::close(p.mean, (double)(q.wz / q.w), 1e-4, 1e-5), "layers.mean", "mean " << p.mean << " of a single measurement at " << (double)(q.wz / q.w));
            } else if (q.n >= 8) {   // enough points for a plane
                for (int t = 0; t < 4; t++) { double mx = r.real(0, sc), my = r.real(0, sc), e = z[l] + slopex * mx + slopey * my;
                    REQUIRE(std::fabs(p.getHeight(Eigen::Vector2f(mx, my)) - e) < 0.02, "slope.height", "height " << p.getHeight(Eigen::Vector2f(mx, my)) << " at " << mx << "," << my << " of a plane, expected " << e); }
                double sl = std::acos(1 / std::sqrt(1 + slopex * slopex + slopey * slopey));
                REQUIRE(std::fabs(p.getSlope() - sl) < .08 / std::min(1.0, sc * 4), "slope.angle", "slope " << p.getSlope() << " expected " << sl);
                double zp = z[l], zs = .3; MLSGrid::SurfacePatch* at = g->get(Eigen::Vector2d(x * sc + sc / 2 + ox, y * sc + sc / 2 + oy), zp, zs);
                REQUIRE(at, "slope.get", "no patch found at the height of the plane");
                REQUIRE(std::fabs(zp - (z[l] + (slopex + slopey) * sc / 2)) < .02, "slope.get", "get() gave height " << zp);
                mon::seen("slope.plane");
            }
            // the patch of a layer is found by its height
            if (model == 2) continue;
            P* f = g->get(Pos(x, y), z[l], .05, 4); REQUIRE(f && std::fabs(f->mean - p.mean) < 1e-6, "get", "get() does not find the patch of layer " << l);
            mon::seen("layers.get");
        }
        REQUIRE(k == v.size(), "layers.extra", "cell " << x << "," << y << " has patches without measurement:" << show(v));
    }
    REQUIRE(g->getCellCount() == total, "layers.cellcount", "getCellCount() is " << g->getCellCount() << " with " << total << " patches");
    mon::seen("layers.model" + std::to_string(model)); if (n > 6) mon::distinct(mon::hashStr(mon::currentLog()));
}

// ---- any history in one cell: nothing measured is lost, nothing counted twice ----
SECTION(cover, 20000, 300000) {
    mon::Rng& r = c.rng; MLSGrid::Ptr g(new MLSGrid(1, 1, 1, 1)); float gap = g->getConfig().gapSize = (float)r.one({.05, .3, 1.0}); float th = g->getConfig().thickness = (float)r.one({.01, .05, .2});
    int n = r.range(2, 30); std::vector<P> ms; double range = r.one({.2, 1.0, 5.0});
    for (int i = 0; i < n; i++) {
        P p((float)r.real(-range, range), (float)r.real(.01, .1)); if (r.chance(.3)) { p.height = (float)r.real(.05, 1); p.setVertical(); }
        ms.push_back(p); LOGOP("update" << show({p}) << " gap " << gap << " thickness " << th); g->updateCell(0, 0, p);
        std::vector<P> v = cell(*g, 0, 0); double cnt = 0; for (auto& q : v) cnt += q.n;
        REQUIRE(cnt == ms.size(), "cover.count", "the patches count " << cnt << " measurements, " << ms.size() << " were made:" << show(v));
        REQUIRE(g->getCellCount() == v.size(), "cover.cellcount", "getCellCount() is " << g->getCellCount() << " with " << v.size() << " patches");
        // a vertical measurement is part of a vertical block
        bool ok = false; for (auto& q : v) ok |= p.isHorizontal() || (q.isVertical() && q.mean >= p.mean - 1e-5 && q.mean - q.height <= p.mean - p.height + 1e-5);
        REQUIRE(ok, "cover.block", "the last block is not covered:" << show(v));
        for (auto& q : v) REQUIRE(q.stdev > 0 && q.stdev < .11f && q.height >= 0, "cover.stdev", "implausible patch:" << show({q}));
        mon::seen(v.size() > 1 ? "cover.several" : "cover.one");
    }
    mon::distinct(mon::hashStr(mon::currentLog())); mon::sample(mon::currentLog());
}

// ---- colours ----
SECTION(color, 3000, 60000) {
    mon::Rng& r = c.rng; P p(0, 1); uint8_t k[3] = {(uint8_t)r.u(256), (uint8_t)r.u(256), (uint8_t)r.u(256)};
    p.setColor(base::Vector3d(k[0], k[1], k[2]) / 255.0);
    for (int i = 0; i < 3; i++) REQUIRE(p.color[i] == k[i], "color.set", "colour " << (int)k[i] << " became " << (int)p.color[i]);
    p.setColor(p.getColor()); for (int i = 0; i < 3; i++) REQUIRE(p.color[i] == k[i], "color.get", "colour " << (int)k[i] << " became " << (int)p.color[i]);
    double d[3]; for (double& x : d) x = r.one({-.5, 1.0, 1.01, 2.0, 0.0, 1e9, -1e9});
    p.setColor(base::Vector3d(d[0], d[1], d[2])); for (int i = 0; i < 3; i++) REQUIRE(p.color[i] == (d[i] >= 1 ? 255 : 0), "color.clamp", "component " << d[i] << " became " << (int)p.color[i]);
    mon::seen("color"); mon::distinct(k[0] + 256 * k[1] + 65536 * k[2]);
}

// ---- merging a whole grid ----
SECTION(merge, 12000, 200000) {
    mon::Rng& r = c.rng; int model = r.u(3); size_t w = r.range(1, 5), h = r.range(1, 5);
    MLSGrid::Ptr a(new MLSGrid(8, 8, .5, .5, -2, -2)), b(new MLSGrid(w, h, .5, .5, r.real(-2, 1), r.real(-2, 1)));
    a->getConfig().updateModel = b->getConfig().updateModel = (MLSConfiguration::update_model)model; a->getConfig().gapSize = b->getConfig().gapSize = .2f;
    if (r.chance(.5)) b->initIndex();
    Eigen::Affine3d T = Eigen::Affine3d::Identity(); T.translation() = Eigen::Vector3d(r.real(-1, 1), r.real(-1, 1), r.chance(.5) ? 0 : r.real(-2, 2)); if (r.chance(.5)) T.linear() = Eigen::AngleAxisd(r.real(-3, 3), Eigen::Vector3d::UnitZ()).toRotationMatrix();
    P off((float)(r.chance(.5) ? 0 : r.real(-1, 1)), (float)(r.chance(.5) ? 0.01 : .1)); off.update_idx = r.u(50);
    int n = r.range(1, 8); struct E { size_t x, y; double z, s; int n; };
    std::vector<E> in; for (int i = 0; i < n; i++) { size_t x = r.u(w), y = r.u(h); int l = r.u(3); bool dup = false; for (auto& e : in) dup |= e.x == x && e.y == y && std::fabs(e.z - l * 4) < 1; if (dup) continue;
        E e{x, y, l * 4 + r.real(-.1, .1), .05, r.range(1, 5)}; for (int k = 0; k < e.n; k++) b->update(b->fromGrid(x, y).head<2>(), P((float)e.z, (float)e.s)); in.push_back(e); }
    LOGOP("merge " << in.size() << " patches, model " << model << ", shift " << T.translation().transpose() << ", offset " << off.mean << "+-" << off.stdev);
    std::map<std::pair<size_t, size_t>, std::vector<double>> want; bool clash = false; size_t cnt = 0;
    for (auto& e : in) { Eigen::Vector3d p = b->fromGrid(e.x, e.y); p.z() = 0; p = T * p; double gx = (p.x() + 2) / .5, gy = (p.y() + 2) / .5; if (std::fabs(gx - std::round(gx)) < 1e-6 || std::fabs(gy - std::round(gy)) < 1e-6) return;
        if (gx < 0 || gy < 0 || gx >= 8 || gy >= 8) continue; auto& v = want[{(size_t)gx, (size_t)gy}]; double z = e.z + off.mean + T.translation().z(); for (double o : v) clash |= std::fabs(o - z) < 2; v.push_back(z); cnt++; }
    if (clash) { a->merge(*b, T, off); size_t m = 0; for (size_t x = 0; x < 8; x++) for (size_t y = 0; y < 8; y++) m += cell(*a, x, y).size(); REQUIRE(m <= cnt && m >= want.size() && m == a->getCellCount(), "merge.clash", m << " patches after merging " << cnt); mon::seen("merge.clash"); return; }
    a->merge(*b, T, off);
    for (size_t x = 0; x < 8; x++) for (size_t y = 0; y < 8; y++) {
        std::vector<P> v = cell(*a, x, y); std::vector<double> z = want.count({x, y}) ? want[{x, y}] : std::vector<double>(); std::sort(z.begin(), z.end());
        REQUIRE(v.size() == z.size(), "merge.cells", "cell " << x << "," << y << " has " << v.size() << " patches, expected " << z.size() << show(v));
        for (size_t k = 0; k < z.size(); k++) {
            REQUIRE(std::fabs(v[k].mean - z[k]) < .02, "merge.mean", "patch at " << v[k].mean << " expected " << z[k]);
            { double sd = -1; int hit = 0; for (auto& e : in) if (std::fabs(e.z + off.mean + T.translation().z() - z[k]) < 1e-9) { Eigen::Vector3d pp = b->fromGrid(e.x, e.y); pp.z() = 0; pp = T * pp; if (int((pp.x() + 2) / .5) != int(x) || int((pp.y() + 2) / .5) != int(y)) continue; for (auto& q : cell(*b, e.x, e.y)) if (std::fabs(q.mean - e.z) < .02) { sd = q.stdev; hit++; } }
              if (hit == 1) { double want = std::sqrt(sd * sd + double(off.stdev) * off.stdev); REQUIRE(std::fabs(v[k].stdev - want) < 1e-4 + 1e-4 * want, "merge.uncertainty", "surface of deviation " << sd << " merged with an offset of " << off.stdev << " has " << v[k].stdev << ", expected " << want); mon::seen("merge.uncertainty"); } }
            REQUIRE(v[k].update_idx == off.update_idx, "merge.idx", "update index " << v[k].update_idx << " expected " << off.update_idx);
            if (model != 0) {   // the sums must move along: they are what the next measurement is merged into
                REQUIRE(std::fabs(v[k].min - z[k]) < .02 && std::fabs(v[k].max - z[k]) < .02, "merge.range", "patch at " << z[k] << " has the range " << v[k].min << ".." << v[k].max);
                a->updateCell(x, y, P((float)z[k], .05f)); std::vector<P> u = cell(*a, x, y);
                REQUIRE(u.size() == v.size() && std::fabs(u[k].mean - z[k]) < .02, "merge.update", "an update at " << z[k] << " of a merged patch gives" << show(u)); mon::seen("merge.updated");
                int cnt1 = 0; for (auto& e : in) { double zz = e.z + off.mean + T.translation().z(); if (std::fabs(zz - z[k]) < 1e-9) { Eigen::Vector3d pp = b->fromGrid(e.x, e.y); pp.z() = 0; pp = T * pp; if (int((pp.x() + 2) / .5) == int(x) && int((pp.y() + 2) / .5) == int(y)) cnt1 = e.n; } }
                if (cnt1 && (model == 1 || cnt1 < 3)) { MLSGrid::Ptr ref(new MLSGrid(1, 1, 1, 1)); ref->getConfig() = a->getConfig(); for (int q = 0; q <= cnt1; q++) ref->updateCell(0, 0, P((float)z[k], .05f)); double want = cell(*ref, 0, 0)[0].stdev; REQUIRE(std::fabs(u[k].stdev - want) < .03, "merge.stdev", "a merged patch at " << z[k] << " has the deviation " << u[k].stdev << " after an update, without merging " << want); mon::seen("merge.stdev"); }
            }
            mon::seen("merge.patch");
        }
    }
    if (in.size() > 1) mon::distinct(mon::hashStr(mon::currentLog()));
    // a grid matches what was merged into it, and nothing elsewhere
    if (!b->getIndex()) b->initIndex();
    if (cnt) {
        float f = a->match(*b, T, off, 1, 3); REQUIRE(f == 1, "match.full", "match " << f << " with a grid that was merged");
        P far(off); far.mean += 50; f = a->match(*b, T, far, 1, 3); REQUIRE(f == 0, "match.none", "match " << f << " with surfaces 50 above"); mon::seen("match");
        Eigen::Affine3d U = T; U.translation().z() += 50; f = a->match(*b, U, off, 1, 3); REQUIRE(f == 0, "match.none", "match " << f << " with a grid 50 above");
    }
}
