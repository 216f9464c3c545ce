// Rays through grids: cells crossed, and the light that arrives.
#include "mon.hpp"
#include <envire/Core.hpp>
#include <envire/maps/ElevationGrid.hpp>
#include <envire/operators/GridIllumination.hpp>
#include <envire/tools/VoxelTraversal.hpp>
using namespace envire;
using namespace Eigen;

namespace {
// part of the line from o along unit direction d (t from 0 to len) inside a rectangle; negative if none
double crossing(const Vector2d& o, const Vector2d& d, double len, const Vector2d& lo, const Vector2d& hi) {
    double t0 = 0, t1 = len;
    for (int k = 0; k < 2; k++) {
        if (fabs(d[k]) < 1e-300) { if (o[k] < lo[k] || o[k] > hi[k]) return -1; continue; }
        double a = (lo[k] - o[k]) / d[k], b = (hi[k] - o[k]) / d[k]; if (a > b) std::swap(a, b); t0 = std::max(t0, a); t1 = std::min(t1, b);
    }
    return t1 - t0;
}
struct Geo { int w, h; double sx, sy, ox, oy; Vector2d lo(int x, int y) const { return Vector2d(ox + x * sx, oy + y * sy); } Vector2d hi(int x, int y) const { return lo(x + 1, y + 1); } };
Geo rndGeo(mon::Rng& r, int m) { Geo g; g.w = r.range(1, m); g.h = r.range(1, m); g.sx = r.one({0.05, 0.1, 0.5, 1.0}); g.sy = r.chance(0.5) ? g.sx : g.sx * r.one({0.5, 2.0, 0.3}); g.ox = r.chance(0.4) ? 0 : r.real(-20, 20); g.oy = r.chance(0.4) ? 0 : r.real(-20, 20); return g; }
}

SECTION(voxel, 30000, 200000)
{
    auto& r = c.rng; Geo G = rndGeo(r, 20); ElevationGrid g(G.w, G.h, G.sx, G.sy, G.ox, G.oy);
    VoxelTraversal vt(g); GridBase::Position pos(1000, 1000);
    if (r.chance(0.05)) REQUIRE(!vt.step(pos), "voxel:uninit", "steps without a ray");
    for (int rounds = r.range(1, 3); rounds-- > 0;) {
        int x = r.u(G.w), y = r.u(G.h); double u = r.real(0.001, 0.999), v = r.real(0.001, 0.999); bool out = r.chance(0.1); if (r.chance(0.2)) u = v = 0.5;
        Vector2d o(G.ox + (x + u) * G.sx, G.oy + (y + v) * G.sy); if (out) { (r.chance(0.5) ? o.x() : o.y()) += (r.chance(0.5) ? 1 : -1) * 50; }
        double a = r.real(-M_PI, M_PI); Vector2d d(cos(a), sin(a)); int kind = r.range(0, 5);
        if (kind == 0) d = Vector2d(r.one({-1.0, 1.0}), 0); if (kind == 1) d = Vector2d(0, r.one({-1.0, 1.0})); if (kind == 2) d = Vector2d(r.one({-1.0, 1.0}) * G.sx, r.one({-1.0, 1.0}) * G.sy);
        bool vertical = r.chance(0.05); if (vertical) d.setZero(); double sc = r.one({0.001, 1.0, 30.0});
        LOGOP("grid " << G.w << "x" << G.h << " scale " << G.sx << "," << G.sy << " offset " << G.ox << "," << G.oy << " from " << o.transpose() << " along " << (d * sc).transpose());
        vt.init(Vector3d(o.x(), o.y(), r.gauss()), Vector3d(d.x() * sc, d.y() * sc, vertical ? 1 : r.gauss()));
        if (out || vertical) { for (int k = 0; k < 3; k++) REQUIRE(!vt.step(pos), "voxel:none", "a ray that crosses no cells steps to " << pos.x << "," << pos.y); mon::seen(out ? "voxel.outside" : "voxel.vertical"); continue; }
        Vector2d dir = d.normalized(); double far = 1e4, eps = 1e-7 * (G.sx + G.sy); std::set<std::pair<int, int>> seen; seen.insert({x, y}); int cx = x, cy = y, n = 0;
        while (vt.step(pos)) {
            REQUIRE(pos.x < size_t(G.w) && pos.y < size_t(G.h), "voxel:range", "step to " << pos.x << "," << pos.y << " outside the grid"); int nx = pos.x, ny = pos.y;
            REQUIRE(abs(nx - cx) + abs(ny - cy) == 1, "voxel:jump", "step from " << cx << "," << cy << " to " << nx << "," << ny);
            REQUIRE(crossing(o, dir, far, G.lo(nx, ny) - Vector2d::Constant(eps), G.hi(nx, ny) + Vector2d::Constant(eps)) >= 0, "voxel:stray", "cell " << nx << "," << ny << " is not crossed by the ray");
            REQUIRE(seen.insert({nx, ny}).second, "voxel:repeat", "cell " << nx << "," << ny << " is visited again"); cx = nx; cy = ny; n++;
        }
        for (int k = 0; k < 3; k++) REQUIRE(!vt.step(pos), "voxel:end", "goes on after the end");
        for (int i = 0; i < G.w; i++) for (int j = 0; j < G.h; j++) if (crossing(o, dir, far, G.lo(i, j) + Vector2d::Constant(eps), G.hi(i, j) - Vector2d::Constant(eps)) > eps) { REQUIRE(seen.count({i, j}), "voxel:missed", "cell " << i << "," << j << " is crossed by the ray, but not visited"); mon::seen("voxel.cell"); }
        mon::seen(kind < 2 ? "voxel.axis" : kind == 2 ? "voxel.diagonal" : "voxel.ray");
    }
    mon::distinct(mon::hashStr(mon::currentLog()));
}

SECTION(light, 4000, 25000)
{
    auto& r = c.rng; Geo G = rndGeo(r, 12); Environment env; ElevationGrid* g = new ElevationGrid(G.w, G.h, G.sx, G.sy, G.ox, G.oy); env.attachItem(g); GridIllumination* op = new GridIllumination; env.attachItem(op);
    if (r.chance(0.05)) { REQUIRE(mon::throws([&] { op->updateAll(); }), "light:no-output", "runs without output"); mon::seen("light.incomplete"); }
    op->setOutput(g); std::string band = ElevationGrid::ILLUMINATION; if (r.chance(0.3)) op->setOutputBand(band = "shade");
    for (int rounds = r.range(1, 2); rounds-- > 0;) {
        { auto& H = g->getGridData(ElevationGrid::ELEVATION_MAX); double p = r.one({0.05, 0.3, 1.0}); for (size_t k = 0; k < H.num_elements(); k++) H.data()[k] = r.chance(p) ? r.real(-1, 3) : 0; }
        const ElevationGrid::ArrayType H = g->getGridData(ElevationGrid::ELEVATION_MAX);
        double W = G.w * G.sx, T = G.h * G.sy; Vector3d L(G.ox + r.real(-1, 2) * W, G.oy + r.real(-1, 2) * T, r.real(0.5, 6)); int where = r.range(0, 3);
        if (where == 0) L.head<2>() = G.lo(r.u(G.w), r.u(G.h)) + Vector2d(G.sx * r.real(0.01, 0.99), G.sy * r.real(0.01, 0.99));
        if (where == 1) { Vector2d q = G.lo(r.u(G.w), r.u(G.h)) + Vector2d(G.sx, G.sy) / 2; L.head<2>() = q; }              // over a cell centre
        if (where == 2) { Vector2d q = G.lo(r.u(G.w), r.u(G.h)) + Vector2d(G.sx, G.sy) / 2; L[0] = r.chance(0.5) ? q[0] : L[0]; L[1] = q[1]; } // in line with a row
        double dia = r.chance(0.3) ? 0 : r.real(0.05, 2); op->setLightSource(L, dia);
        LOGOP("grid " << G.w << "x" << G.h << " scale " << G.sx << "," << G.sy << " offset " << G.ox << "," << G.oy << " light " << L.transpose() << " diameter " << dia);
        REQUIRE(op->updateAll(), "light:return", "update failed"); auto& I = g->getGridData(band); REQUIRE(g->getGridData(ElevationGrid::ELEVATION_MAX) == H, "light:input", "heights were changed");
        double eps = 1e-7 * (G.sx + G.sy);
        for (int x = 0; x < G.w; x++) for (int y = 0; y < G.h; y++) {
            Vector3d o; o << (G.lo(x, y) + G.hi(x, y)) / 2, H[y][x]; Vector2d d = L.head<2>() - o.head<2>(); double len = d.norm(), sure = 1, poss = 1; // sure: upper bound of the light
            if (len > 1e-12) for (int i = 0; i < G.w; i++) for (int j = 0; j < G.h; j++) {
                if (i == x && j == y) continue;
                double cr = crossing(o.head<2>(), d / len, len, G.lo(i, j) - Vector2d::Constant(eps), G.hi(i, j) + Vector2d::Constant(eps)); if (cr < 0) continue;
                bool definite = crossing(o.head<2>(), d / len, len, G.lo(i, j) + Vector2d::Constant(eps), G.hi(i, j) - Vector2d::Constant(eps)) > eps;
                Vector2d lo = G.lo(i, j), hi = G.hi(i, j); if ((L.head<2>() - lo).minCoeff() > -eps && (hi - L.head<2>()).minCoeff() > -eps) definite = false; // the cell of the light
                if ((L.head<2>() - lo).minCoeff() > eps && (hi - L.head<2>()).minCoeff() > eps) continue;
                double dist = ((lo + hi) / 2 - o.head<2>()).norm(), need = (H[j][i] - o.z()) / dist, bottom = (L.z() - o.z() - dia / 2) / len, top = (L.z() - o.z() + dia / 2) / len;
                double lo1, hi1; if (dia == 0) { lo1 = need > bottom + 1e-9 ? 0 : 1; hi1 = need > bottom - 1e-9 ? 0 : 1; std::swap(lo1, hi1); /* lo1: pessimistic */ } else { lo1 = hi1 = 1 - std::min(1.0, std::max(0.0, (need - bottom) / (top - bottom))); }
                poss = std::min(poss, lo1); if (definite) sure = std::min(sure, hi1); }
            double got = I[y][x]; REQUIRE(got <= sure + 1e-6 && got >= poss - 1e-6, "light:cell", "cell " << x << "," << y << " gets light " << got << " expected " << poss << ".." << sure);
            mon::seen(got >= 1 ? "light.full" : got <= 0 ? "light.dark" : "light.partial"); if (sure - poss < 1e-6) mon::seen("light.exact");
        }
        mon::seen(where == 0 ? "light.inside" : where == 1 ? "light.above" : where == 2 ? "light.row" : "light.free"); mon::distinct(mon::hashStr(mon::currentLog()));
    }
}
