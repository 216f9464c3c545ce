// Height look-ups: elevation grids, point clouds and multi-level surfaces, through frames.
#include "mon.hpp"
#include <envire/Core.hpp>
#include <envire/maps/ElevationGrid.hpp>
#include <envire/maps/MLSGrid.hpp>
#include <envire/maps/Pointcloud.hpp>
#include <envire/tools/GridAccess.hpp>
using namespace envire;
using namespace Eigen;

namespace {
struct Frames {
    FrameNode* node; Affine3d toRoot;
    static Affine3d rnd(mon::Rng& r, bool full) {
        if (r.chance(0.15)) return Affine3d::Identity();
        Matrix3d R = AngleAxisd(r.real(-3, 3), Vector3d::UnitZ()).toRotationMatrix(); if (full) R = R * AngleAxisd(r.real(-3, 3), Vector3d(r.gauss(), r.gauss(), r.gauss() + 1e-3).normalized());
        Affine3d t = Affine3d::Identity(); t.linear() = R; t.translation() = Vector3d(r.real(-4, 4), r.real(-4, 4), r.real(-4, 4)); return t;
    }
    Frames(mon::Rng& r, Environment& env, bool full) : node(env.getRootNode()), toRoot(Affine3d::Identity()) {
        for (int n = r.range(0, 3); n-- > 0;) { FrameNode* f = new FrameNode; Affine3d t = rnd(r, full); f->setTransform(t); env.attachItem(f); node->addChild(f); node = f; toRoot = toRoot * t; }
    }
};
bool nearBorder(double u) { return fabs(u - std::round(u)) < 1e-6; }
}

SECTION(grid, 6000, 40000)
{
    auto& r = c.rng;
    int w = r.range(1, 12), h = r.range(1, 12); double sx = r.one({0.05, 0.1, 0.5, 1.0, 2.0}), sy = r.chance(0.5) ? sx : sx * r.one({0.5, 2.0, 0.3}), ox = r.chance(0.4) ? 0 : r.real(-9, 9), oy = r.chance(0.4) ? 0 : r.real(-9, 9);
    ElevationGrid g(w, h, sx, sy, ox, oy); LOGOP("grid " << w << "x" << h << " scale " << sx << "," << sy << " offset " << ox << "," << oy);
    std::vector<double> z(w * h); int style = r.range(0, 2); double a = r.gauss(), b = r.gauss();
    for (int x = 0; x < w; x++) for (int y = 0; y < h; y++) {
        double v = style == 0 ? r.gauss() : style == 1 ? a * x * sx + b * y * sy + 3 : floor(r.real(0, 3)); z[y * w + x] = v;
        switch (r.range(0, 2)) { case 0: g.get(GridBase::Position(x, y)) = v; break; case 1: g.get(ox + (x + .5) * sx, oy + (y + .5) * sy) = v; break; default: g.getGridData(ElevationGrid::ELEVATION)[y][x] = v; }
    }
    g.getGridData(ElevationGrid::ELEVATION); const ElevationGrid& cg = g;
    for (int k = 0; k < 20; k++) {
        int x = r.u(w), y = r.u(h); double u = r.chance(0.2) ? 0.5 : r.real(0.01, 0.99), v = r.chance(0.2) ? 0.5 : r.real(0.01, 0.99); Vector2d p(ox + (x + u) * sx, oy + (y + v) * sy);
        auto at = [&](int i, int j) { return z[std::min(h - 1, std::max(0, j)) * w + std::min(w - 1, std::max(0, i))]; };
        int nx = std::min(w - 1, x + 1) - std::max(0, x - 1), ny = std::min(h - 1, y + 1) - std::max(0, y - 1);
        double gx = nx ? (at(x + 1, y) - at(x - 1, y)) / (nx * sx) : 0, gy = ny ? (at(x, y + 1) - at(x, y - 1)) / (ny * sy) : 0; Vector3d n = Vector3d(-gx, -gy, 1).normalized();
        REQUIRE(g.get(GridBase::Position(x, y)) == at(x, y) && cg.get(GridBase::Position(x, y)) == at(x, y), "grid:cell", "cell " << x << "," << y << " holds " << g.get(GridBase::Position(x, y)) << " expected " << at(x, y));
        REQUIRE(g.get(p.x(), p.y()) == at(x, y) && cg.get(p.x(), p.y()) == at(x, y), "grid:point", "point in cell " << x << "," << y << " gives " << g.get(p.x(), p.y()) << " expected " << at(x, y));
        Vector3d n1 = g.getNormal(GridBase::Position(x, y)), n2 = g.getNormal(GridBase::Point2D(p));
        REQUIRE((n1 - n).norm() < 1e-9 && (n2 - n).norm() < 1e-9, "grid:normal", "normal of cell " << x << "," << y << " is " << n1.transpose() << " and " << n2.transpose() << " expected " << n.transpose());
        double e = at(x, y) + gx * (u - .5) * sx + gy * (v - .5) * sy;
        REQUIRE(fabs(g.getElevation(GridBase::Point2D(p)) - e) < 1e-9 * (1 + fabs(e) + fabs(ox) + fabs(oy)) * (1 + fabs(gx) + fabs(gy)), "grid:elevation", "elevation in cell " << x << "," << y << " at " << u << "," << v << " is " << g.getElevation(GridBase::Point2D(p)) << " expected " << e);
        mon::seen("normal"); if (!x || !y || x == w - 1 || y == h - 1) mon::seen("normal.border"); if (style == 1) mon::seen("plane");
    }
    double qx = ox + (r.chance(0.5) ? -r.real(0.01, 5) : w + r.real(0.01, 5)) * sx, qy = oy + r.real(0, h) * sy;
    REQUIRE(mon::throws([&] { g.getElevation(GridBase::Point2D(qx, qy)); }) && mon::throws([&] { g.getNormal(GridBase::Point2D(qx, qy)); }) && mon::throws([&] { g.get(qx, qy); }), "grid:outside", "point outside of the grid is answered"); mon::seen("outside");
    mon::distinct(mon::hashStr(mon::currentLog() + std::to_string(z[0])));
}

SECTION(access, 4000, 25000)
{
    auto& r = c.rng; Environment env; int n = r.range(0, 4);
    struct Q { ElevationGrid* g; Affine3d toRoot; }; std::vector<Q> gs;
    for (int i = 0; i < n; i++) {
        Frames f(r, env, false); int w = r.range(1, 10), h = r.range(1, 10); double s = r.one({0.1, 0.5, 1.0});
        ElevationGrid* g = new ElevationGrid(w, h, s, s * r.one({0.5, 1.0, 2.0}), r.chance(0.5) ? 0 : r.real(-5, 5), r.chance(0.5) ? 0 : r.real(-5, 5)); env.attachItem(g); if (r.chance(0.9) || f.node != env.getRootNode()) env.setFrameNode(g, f.node); else { env.setFrameNode(g, env.getRootNode()); }
        auto& d = g->getGridData(ElevationGrid::ELEVATION); for (size_t k = 0; k < d.num_elements(); k++) d.data()[k] = r.real(-5, 5);
        gs.push_back({g, f.toRoot});
    }
    LOGOP(n << " grids"); GridAccess acc(&env);
    for (int k = 0; k < 25; k++) {
        Vector3d p(r.real(-8, 8), r.real(-8, 8), r.real(-3, 3));
        if (n && r.chance(0.7)) { auto& q = gs[r.u(n)]; p = q.toRoot * Vector3d(q.g->getOffsetX() + r.real(-0.1, 1.1) * q.g->getCellSizeX() * q.g->getScaleX(), q.g->getOffsetY() + r.real(-0.1, 1.1) * q.g->getCellSizeY() * q.g->getScaleY(), 0); p.z() = r.real(-3, 3); }
        std::vector<double> cand; bool near = false;
        for (auto& q : gs) { Vector3d l = q.toRoot.inverse() * p; double u = (l.x() - q.g->getOffsetX()) / q.g->getScaleX(), v = (l.y() - q.g->getOffsetY()) / q.g->getScaleY(); if (nearBorder(u) || nearBorder(v)) near = true; if (u < 0 || v < 0 || u >= q.g->getCellSizeX() || v >= q.g->getCellSizeY()) continue; cand.push_back(q.g->getGridData(ElevationGrid::ELEVATION)[size_t(v)][size_t(u)] + q.toRoot.translation().z()); }
        if (near) continue;
        Vector3d q = p; bool ok = acc.getElevation(q); LOGOP("query " << p.transpose() << " -> " << ok << " " << q.z());
        REQUIRE(ok == !cand.empty(), "access:found", "elevation at " << p.transpose() << " found " << ok << ", " << cand.size() << " grids cover it");
        REQUIRE(q.x() == p.x() && q.y() == p.y(), "access:xy", "query moved the position to " << q.transpose());
        if (!ok) { REQUIRE(q.z() == p.z(), "access:z", "nothing found, but height changed"); mon::seen("access.none"); continue; }
        bool hit = false; for (double e : cand) if (fabs(e - q.z()) < 1e-9) hit = true;
        REQUIRE(hit, "access:height", "height " << q.z() << " at " << p.transpose() << ", a grid has " << cand[0]); mon::seen(cand.size() > 1 ? "access.several" : "access.one");
    }
    mon::distinct(mon::hashStr(mon::currentLog()));
}

SECTION(cloud, 4000, 25000)
{
    auto& r = c.rng; Environment env; std::vector<Vector3d> all; int n = r.range(0, 3);
    for (int i = 0; i < n; i++) {
        Frames f(r, env, true); Pointcloud* pc = new Pointcloud; env.attachItem(pc); env.setFrameNode(pc, f.node);
        int style = r.range(0, 1); for (int k = r.range(0, r.one({3, 40})); k-- > 0;) { Vector3d p = style ? Vector3d(r.real(-2, 2), r.real(-2, 2), r.real(-2, 2)) : Vector3d(r.range(-4, 4) / 2., r.range(-4, 4) / 2., r.range(-4, 4) / 2.); pc->vertices.push_back(p); all.push_back(f.toRoot * p); }
    }
    LOGOP(all.size() << " points in " << n << " clouds"); PointcloudAccess acc(&env);
    for (int k = 0; k < 20; k++) {
        Vector3d p(r.real(-6, 6), r.real(-6, 6), r.real(-6, 6)); if (all.size() && r.chance(0.8)) { p = r.pick(all) + Vector3d(r.gauss(), r.gauss(), r.gauss()) * r.one({0.01, 0.1, 0.5}); }
        double th = r.chance(0.3) ? 0.05 : r.real(0.01, 1), zt = r.real(0.01, 1.5), zp = r.chance(0.6) ? p.z() : r.real(-5, 5); LOGOP("query " << p.transpose() << " within " << th << " z " << zp << " within " << zt);
        double best = 1e300; bool near = false, sureBox = false; for (auto& q : all) { double d = (q - p).head<2>().norm(); if (fabs(d - th) < 1e-9) near = true; best = std::min(best, d); if (d < th * (1 - 1e-9) && fabs(q.z() - zp) < zt * (1 - 1e-9) - 1e-9) sureBox = true; }
        if (!near) {
            Vector3d q = p; bool ok = th == 0.05 && r.chance(0.5) ? acc.getElevation(q) : acc.getElevation(q, th);
            REQUIRE(ok == (best < th), "cloud:found", "found " << ok << ", nearest point at distance " << best);
            REQUIRE(q.x() == p.x() && q.y() == p.y(), "cloud:xy", "position was moved"); if (!ok) REQUIRE(q.z() == p.z(), "cloud:z", "nothing found, but height changed");
            bool hit = !ok; for (auto& t : all) if ((t - p).head<2>().norm() <= best + 1e-9 && fabs(t.z() - q.z()) < 1e-9) hit = true;
            REQUIRE(hit, "cloud:nearest", "height " << q.z() << " is not that of the nearest point at distance " << best); mon::seen(ok ? "cloud.nearest" : "cloud.none");
        }
        Vector3d q = p; bool ok = acc.getElevation(q, th, zp, zt);
        if (sureBox) REQUIRE(ok, "cloud:range-missed", "a point in range was not found");
        if (!ok) { REQUIRE(q == p, "cloud:range-none", "nothing found, but position changed"); mon::seen("cloud.range.none"); continue; }
        bool hit = false; for (auto& t : all) if ((t - q).norm() < 1e-9) hit = true;
        REQUIRE(hit, "cloud:range-point", "answer " << q.transpose() << " is not a point of a cloud");
        REQUIRE((q - p).head<2>().cwiseAbs().maxCoeff() <= th + 1e-9 && fabs(q.z() - zp) < zt + 1e-9, "cloud:range", "answer " << q.transpose() << " is out of range"); mon::seen("cloud.range");
    }
    mon::distinct(mon::hashStr(mon::currentLog()));
}

namespace {
struct M { MLSGrid* g; Affine3d toRoot; };
M rndMls(mon::Rng& r, Environment& env, bool own) {
    Frames f(r, env, false); int w = r.range(1, 8), h = r.range(1, 8); double s = r.one({0.1, 0.5, 1.0});
    MLSGrid* g = new MLSGrid(w, h, s, s * r.one({0.5, 1.0, 2.0}), r.chance(0.5) ? 0 : r.real(-5, 5), r.chance(0.5) ? 0 : r.real(-5, 5)); env.attachItem(g); env.setFrameNode(g, f.node); (void)own;
    double pe = r.one({0.0, 0.2, 0.8});
    for (int x = 0; x < w; x++) for (int y = 0; y < h; y++) if (!r.chance(pe)) for (int k = r.range(1, 3); k-- > 0;) {
        SurfacePatch p(r.real(-4, 4), r.real(0.01, 0.2), 0); if (r.chance(0.2)) p = SurfacePatch(r.real(-4, 4), r.real(0.01, 0.2), r.real(0.1, 2), r.chance(0.7) ? SurfacePatch::VERTICAL : SurfacePatch::NEGATIVE); g->insertTail(x, y, p); }
    return {g, f.toRoot};
}
}

SECTION(mls, 4000, 25000)
{
    auto& r = c.rng; Environment env; std::vector<M> gs; for (int n = r.range(0, 4); n-- > 0;) gs.push_back(rndMls(r, env, false));
    LOGOP(gs.size() << " grids"); MLSAccess acc(&env);
    for (int k = 0; k < 25; k++) {
        Vector3d p(r.real(-8, 8), r.real(-8, 8), r.real(-4, 4)); if (gs.size() && r.chance(0.85)) { auto& q = gs[r.u(gs.size())]; p = q.toRoot * Vector3d(q.g->getOffsetX() + r.real(-0.05, 1.05) * q.g->getCellSizeX() * q.g->getScaleX(), q.g->getOffsetY() + r.real(-0.05, 1.05) * q.g->getCellSizeY() * q.g->getScaleY(), r.real(-4, 4)); }
        double sd = r.real(0.01, 0.5), z = r.real(), s = sd; std::vector<std::pair<double, double>> cand; bool near = false, sure = false;
        for (auto& q : gs) { Vector3d l = q.toRoot.inverse() * p; double u = (l.x() - q.g->getOffsetX()) / q.g->getScaleX(), v = (l.y() - q.g->getOffsetY()) / q.g->getScaleY(); if (nearBorder(u) || nearBorder(v)) near = true; if (u < 0 || v < 0 || u >= q.g->getCellSizeX() || v >= q.g->getCellSizeY()) continue;
            for (auto it = q.g->beginCell(size_t(u), size_t(v)); it != q.g->endCell(); it++) { if (it->isNegative()) continue; double top = it->mean, bot = it->isVertical() ? it->mean - it->height : it->mean, d = std::max(0.0, std::max(l.z() - top, bot - l.z())), in = 3 * std::hypot(sd, double(it->stdev));
                if (fabs(d - in) < 1e-4) near = true; if (d < in) { sure = true; cand.push_back({top + q.toRoot.translation().z(), it->stdev}); } } }
        if (near) continue;
        bool ok = acc.getElevation(p, z, s); LOGOP("query " << p.transpose() << " sd " << sd << " -> " << ok << " " << z << " " << s);
        REQUIRE(ok == sure, "mls:found", "found " << ok << ", " << cand.size() << " patches are there");
        if (!ok) { mon::seen("mls.none"); continue; }
        bool hit = false; for (auto& e : cand) if (fabs(e.first - z) < 1e-4 && fabs(e.second - s) < 1e-6) hit = true;
        REQUIRE(hit, "mls:height", "height " << z << " deviation " << s << ", a patch has " << cand[0].first << " " << cand[0].second); mon::seen(cand.size() > 1 ? "mls.several" : "mls.one");
    }
    mon::distinct(mon::hashStr(mon::currentLog()));
}

SECTION(project, 4000, 25000)
{
    auto& r = c.rng; Environment env; M m = rndMls(r, env, true); MLSGrid& g = *m.g; int w = g.getCellSizeX(), h = g.getCellSizeY();
    double start = r.real(-5, 5), off = r.chance(0.4) ? 0 : r.real(-1, 1);
    // nearest surface of a cell to the last height; several answers if nearly equally near
    auto step = [&](int x, int y, double last, double got) {
        std::vector<std::pair<double, double>> d; for (auto it = g.beginCell(x, y); it != g.endCell(); it++) { double top = it->mean + 2.0 * it->stdev; d.push_back({fabs(last - top), top}); }
        if (d.empty()) return fabs(got - last) < 1e-9; std::sort(d.begin(), d.end()); for (auto& e : d) if (e.first <= d[0].first + 1e-5 && fabs(e.second - got) < 1e-5) return true; return false; };
    std::vector<GridBase::Position> cells; for (int n = r.range(0, 20); n-- > 0;) cells.push_back(GridBase::Position(r.u(w), r.u(h)));
    LOGOP("grid " << w << "x" << h << " " << cells.size() << " cells from height " << start << " offset " << off);
    std::vector<Vector3d> out = g.projectPointsOnSurface(start, cells, off); REQUIRE(out.size() == cells.size(), "project:count", out.size() << " points for " << cells.size() << " cells"); double last = start;
    for (size_t i = 0; i < out.size(); i++) { REQUIRE(out[i].x() == cells[i].x && out[i].y() == cells[i].y, "project:cell", "point " << i << " at " << out[i].transpose()); double z = out[i].z() - off; REQUIRE(step(cells[i].x, cells[i].y, last, z), "project:height", "point " << i << " in cell " << cells[i].x << "," << cells[i].y << " has height " << z << " after " << last); last = z; mon::seen("project.cell"); }
    typedef base::geometry::Spline3 S; std::vector<S::vector_t> pts; for (int n = r.range(2, 5); n-- > 0;) pts.push_back(S::vector_t(g.getOffsetX() + r.real(-0.2, 1.2) * w * g.getScaleX(), g.getOffsetY() + r.real(-0.2, 1.2) * h * g.getScaleY(), r.real(-2, 2)));
    S in; in.interpolate(pts); S res = g.projectSplineOnSurface(start, in, off); last = start; double len = 0, cell = std::min(g.getScaleX(), g.getScaleY()); REQUIRE(!res.pts.empty(), "spline:empty", "projected curve is empty");
    for (size_t i = 1; i < pts.size(); i++) len += (pts[i] - pts[i - 1]).norm();
    REQUIRE((res.pts.front() - pts.front()).head<2>().norm() < 1e-9 && (res.pts.back() - pts.back()).head<2>().norm() < 1e-9, "spline:ends", "projected curve has other ends");
    REQUIRE(res.pts.size() + pts.size() >= len / (cell / 4), "spline:coarse", "curve of length " << len << " has " << res.pts.size() << " points in cells of " << cell);
    for (size_t i = 0; i < res.pts.size(); i++) {
        auto& p = res.pts[i]; if (i) REQUIRE((res.pts[i] - res.pts[i - 1]).head<2>().norm() <= cell / 4 + 1e-9, "spline:gap", "gap of " << (res.pts[i] - res.pts[i - 1]).head<2>().norm() << " in cells of " << cell);
        double u = (p.x() - g.getOffsetX()) / g.getScaleX(), v = (p.y() - g.getOffsetY()) / g.getScaleY(); if (nearBorder(u) || nearBorder(v)) { break; }
        if (u < 0 || v < 0 || u >= w || v >= h) { mon::seen("spline.outside"); continue; }
        double z = p.z() - off; REQUIRE(step(int(u), int(v), last, z), "spline:height", "point " << i << " in cell " << int(u) << "," << int(v) << " has height " << z << " after " << last); last = z; mon::seen("spline.point");
    }
    mon::distinct(mon::hashStr(mon::currentLog()));
}
