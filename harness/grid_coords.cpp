// Grid coordinate systems: point to cell and back, bounds, frames, extents, alignment.
#include "mon.hpp"
#include <envire/Core.hpp>
#include <envire/maps/GridBase.hpp>
#include <limits>
using namespace envire;
using namespace Eigen;

namespace {
class TG : public GridBase {
    ENVIRONMENT_ITEM(TG)
public:
    TG() {}
    TG(size_t w, size_t h, double sx, double sy, double ox, double oy) : GridBase(w, h, sx, sy, ox, oy) {}
    using GridBase::toGridTimesX;
};
const std::string TG::className = "envire::TG";
SerializationPlugin<TG> reg("TG");

struct Geo { size_t w, h; double sx, sy, ox, oy; };
Geo geo(mon::Rng& r) {
    Geo g; g.w = r.chance(0.1) ? 1 : r.range(1, r.one({4, 30, 500})); g.h = r.chance(0.1) ? 1 : r.range(1, r.one({4, 30, 500}));
    g.sx = r.chance(0.5) ? r.one({0.05, 0.1, 0.12, 0.15, 0.25, 0.5, 1.0, 2.0}) : r.real(0.01, 3); g.sy = r.chance(0.4) ? g.sx : r.real(0.01, 3);
    g.ox = r.chance(0.3) ? 0 : r.chance(0.5) ? -0.5 * g.w * g.sx : r.real(-100, 100); g.oy = r.chance(0.3) ? 0 : r.real(-100, 100);
    return g;
}
std::ostream& operator<<(std::ostream& o, const Geo& g) { return o << g.w << "x" << g.h << " scale " << g.sx << "," << g.sy << " offset " << g.ox << "," << g.oy; }
// the cell index of a coordinate; near: so close to a border that either side is right
long cellOf(double x, double off, double s, bool& near) {
    long double q = ((long double)x - off) / s, f = floorl(q);
    near = fabsl(q - roundl(q)) < 1e-9L * (1 + fabsl(q) + fabsl(off / s));
    return (long)f;
}
Affine3d planar(double x, double y, double a) { return Affine3d(Translation3d(x, y, 0)) * AngleAxisd(a, Vector3d::UnitZ()); }
}

SECTION(cells, 20000, 60000)
{
    auto& r = c.rng;
    Geo g = geo(r); LOGOP("grid " << g);
    TG grid(g.w, g.h, g.sx, g.sy, g.ox, g.oy);
    const double W = g.w * g.sx, H = g.h * g.sy;
    REQUIRE(grid.getCellSizeX() == g.w && grid.getCellSizeY() == g.h && grid.getWidth() == g.w && grid.getHeight() == g.h, "grid:size", "cell sizes " << grid.getCellSizeX() << "," << grid.getCellSizeY());
    REQUIRE(mon::close(grid.getSizeX(), W, 1e-12) && mon::close(grid.getSizeY(), H, 1e-12), "grid:worldsize", "sizes " << grid.getSizeX() << "," << grid.getSizeY());
    REQUIRE(grid.getScaleX() == g.sx && grid.getScaleY() == g.sy && grid.getOffsetX() == g.ox && grid.getOffsetY() == g.oy, "grid:geometry", "scale or offset differ");
    Vector2d ctr = grid.getCenterPoint();
    REQUIRE(mon::close(ctr.x(), g.ox + W / 2, 1e-9) && mon::close(ctr.y(), g.oy + H / 2, 1e-9), "grid:center", "center " << ctr.transpose());
    GridBase::Extents e = grid.getExtents();
    double tol = 1e-9 * (1 + fabs(g.ox) + fabs(g.oy) + W + H);
    REQUIRE((e.min() - Vector2d(g.ox, g.oy)).norm() < tol && (e.max() - Vector2d(g.ox + W, g.oy + H)).norm() < tol, "grid:extents", "extents " << e.min().transpose() << " to " << e.max().transpose() << " expected " << g.ox << " " << g.oy << " to " << g.ox + W << " " << g.oy + H);
    GridBase::CellExtents ce = grid.getCellExtents();
    REQUIRE(ce.min() == Vector2i(0, 0) && ce.max() == Vector2i(g.w - 1, g.h - 1), "grid:cellextents", "cell extents " << ce.min().transpose() << " to " << ce.max().transpose());
    mon::seen("extents");
    // every cell centre is in its cell
    for (int k = 0; k < 30; k++) {
        size_t xi = r.chance(0.2) ? 0 : r.chance(0.25) ? g.w - 1 : r.u(g.w), yi = r.chance(0.2) ? 0 : r.chance(0.25) ? g.h - 1 : r.u(g.h);
        double x, y; grid.fromGrid(xi, yi, x, y);
        REQUIRE(fabs(x - (g.ox + (xi + 0.5) * g.sx)) < tol && fabs(y - (g.oy + (yi + 0.5) * g.sy)) < tol, "grid:fromGrid", "centre of " << xi << "," << yi << " is " << x << "," << y);
        Vector2d p; grid.fromGrid(GridBase::Position(xi, yi), p);
        REQUIRE(p == Vector2d(x, y) && grid.fromGrid(GridBase::Position(xi, yi)) == p && grid.fromGrid(xi, yi) == Vector3d(x, y, 0), "grid:fromGrid-forms", "forms of fromGrid differ");
        size_t a = 7777, b = 7777; bool ok = grid.toGrid(x, y, a, b);
        REQUIRE(ok && a == xi && b == yi, "grid:roundtrip", "cell " << xi << "," << yi << " centre " << x << "," << y << " goes to " << a << "," << b << " ok " << ok);
        REQUIRE(grid.contains(GridBase::Position(xi, yi)) && !grid.contains(GridBase::Position(xi + g.w, yi)) && !grid.contains(GridBase::Position(xi, yi + g.h)) && !grid.contains(GridBase::Position(g.w, yi)) && !grid.contains(GridBase::Position(xi, g.h)) && !grid.contains(GridBase::Position(size_t(-1), yi)), "grid:contains", "contains is wrong around " << xi << "," << yi);
        mon::seen("roundtrip");
    }
    for (int k = 0; k < 60; k++) {
        double x, y;
        auto coord = [&](double off, double s, size_t n) -> double {
            switch (r.range(0, 9)) {
            case 0: return off + s * r.range(-2, (int)n + 2);                                  // exactly on a border
            case 1: return std::nextafter(off + s * r.range(0, (int)n), r.chance(0.5) ? -1e9 : 1e9);
            case 2: return off - s * r.real(0, 3);
            case 3: return off + s * (n + r.real(0, 3));
            case 4: return r.one({1e300, -1e300, 1e19, -1e19, 1.8446744073709552e19, 3.7e19, 9.3e18, 4294967296.0, -4294967297.0});
            default: return off + s * n * r.real();
            } };
        x = coord(g.ox, g.sx, g.w); y = coord(g.oy, g.sy, g.h);
        if (r.chance(0.03)) x = r.one({(double)INFINITY, -(double)INFINITY, (double)NAN});
        if (r.chance(0.03)) y = r.one({(double)INFINITY, -(double)INFINITY, (double)NAN});
        bool nx = false, ny = false; bool huge = !(fabs(x) < 1e12) || !(fabs(y) < 1e12);
        long ex = huge ? -1 : cellOf(x, g.ox, g.sx, nx), ey = huge ? -1 : cellOf(y, g.oy, g.sy, ny);
        size_t xi = 7777, yi = 8888; double xm = 99, ym = 98;
        bool in = grid.toGrid(x, y, xi, yi, xm, ym);
        size_t a = 7777, b = 8888; bool in2 = grid.toGrid(x, y, a, b);
        GridBase::Position pp(7777, 8888); bool in3 = grid.toGrid(Vector2d(x, y), pp);
        size_t a4 = 7777, b4 = 8888; bool in4 = grid.toGrid(Vector3d(x, y, r.real(-5, 5)), a4, b4);
        REQUIRE(in == in2 && in == in3 && in == in4 && a == xi && b == yi && pp.x == xi && pp.y == yi && a4 == xi && b4 == yi, "grid:toGrid-forms", "forms of toGrid disagree at " << x << "," << y);
        if (!in) REQUIRE(xi == 7777 && yi == 8888, "grid:toGrid-outputs", "rejected point " << x << "," << y << " set the outputs");
        bool exIn = ex >= 0 && ex < (long)g.w && ey >= 0 && ey < (long)g.h;
        if (huge) { REQUIRE(!in, "grid:huge", "point " << x << "," << y << " is said to be in cell " << xi << "," << yi); mon::seen("far"); continue; }
        if (!nx && !ny) {
            REQUIRE(in == exIn, "grid:toGrid-inside", "point " << x << "," << y << " inside " << in << " expected " << exIn);
            if (in) REQUIRE((long)xi == ex && (long)yi == ey, "grid:toGrid-cell", "point " << x << "," << y << " in cell " << xi << "," << yi << " expected " << ex << "," << ey);
            mon::seen(in ? "inside" : "outside");
        } else {
            if (in) REQUIRE(xi < g.w && yi < g.h && labs((long)xi - ex) <= 1 && labs((long)yi - ey) <= 1, "grid:toGrid-cell", "point " << x << "," << y << " in cell " << xi << "," << yi << " expected about " << ex << "," << ey);
            mon::seen("border");
        }
        if (in) {
            REQUIRE(xm > -tol && xm < g.sx + tol && ym > -tol && ym < g.sy + tol, "grid:mod-range", "offsets in the cell " << xm << "," << ym);
            REQUIRE(fabs(g.ox + xi * g.sx + xm - x) < tol && fabs(g.oy + yi * g.sy + ym - y) < tol, "grid:mod", "offsets in the cell " << xm << "," << ym << " at " << x << "," << y);
        }
    }
    if (g.w > 1 || g.h > 1) mon::distinct(mon::hashStr(mon::currentLog()));
}

SECTION(frames, 4000, 15000)
{
    auto& r = c.rng;
    Geo g = geo(r); LOGOP("grid " << g);
    Environment env; TG* grid = new TG(g.w, g.h, g.sx, g.sy, g.ox, g.oy); env.attachItem(grid);
    auto rtf = [&]() { Quaterniond q(r.gauss(), r.gauss(), r.gauss(), r.gauss()); q.normalize(); Affine3d t(q); t.pretranslate(Vector3d(r.real(-20, 20), r.real(-20, 20), r.real(-20, 20))); return t; };
    Affine3d ta = rtf(), tb = rtf(), tc = rtf();
    FrameNode* fa = new FrameNode(ta); FrameNode* fb = new FrameNode(tb); FrameNode* fc = new FrameNode(tc);
    env.addChild(env.getRootNode(), fa); env.addChild(r.chance(0.5) ? fa : env.getRootNode(), fb); bool nested = fb->getParent() == fa; env.addChild(env.getRootNode(), fc);
    env.setFrameNode(grid, fb);
    Matrix4d m = tb.matrix(); if (nested) m = ta.matrix() * m;                // grid -> root
    Matrix4d toC = tc.matrix().inverse() * m;
    struct { FrameNode* f; Matrix4d t; } fr[4] = {{env.getRootNode(), m}, {fc, toC}, {fb, Matrix4d::Identity()}, {fa, ta.matrix().inverse() * m}};
    for (auto& f : fr) for (int k = 0; k < 6; k++) {
        size_t xi = r.u(g.w), yi = r.u(g.h);
        Vector4d local(g.ox + (xi + 0.5) * g.sx, g.oy + (yi + 0.5) * g.sy, 0, 1);
        Vector3d want = (f.t * local).head<3>(), got = grid->fromGrid(xi, yi, f.f);
        REQUIRE((want - got).norm() < 1e-6 * (1 + want.norm()), "grid:fromGrid-frame", "cell " << xi << "," << yi << " at " << got.transpose() << " expected " << want.transpose());
        size_t a = 7777, b = 7777; bool ok = grid->toGrid(want, a, b, f.f);
        REQUIRE(ok && a == xi && b == yi, "grid:toGrid-frame", "cell " << xi << "," << yi << " goes to " << a << "," << b << " ok " << ok);
        // points above and below belong to the same cell, points beside are outside
        Vector4d off = local; off.z() = r.real(-10, 10); a = b = 7777; ok = grid->toGrid((f.t * off).head<3>(), a, b, f.f);
        REQUIRE(ok && a == xi && b == yi, "grid:toGrid-frame", "a point above cell " << xi << "," << yi << " goes to " << a << "," << b << " ok " << ok);
        off.x() = g.ox + g.w * g.sx + r.real(0.1, 5) * g.sx; ok = grid->toGrid((f.t * off).head<3>(), a, b, f.f);
        REQUIRE(!ok, "grid:toGrid-frame", "a point outside is accepted");
        mon::seen("frames");
    }
    Vector3d ex = grid->getExtentsTransformed(*env.getRootNode()).min().homogeneous(); (void)ex;
    Vector2d lo(1e300, 1e300), hi(-1e300, -1e300);
    for (int k = 0; k < 4; k++) { Vector4d p(g.ox + (k & 1) * g.w * g.sx, g.oy + (k >> 1) * g.h * g.sy, 0, 1); Vector2d q = (m * p).head<2>(); lo = lo.cwiseMin(q); hi = hi.cwiseMax(q); }
    GridBase::Extents e = grid->getExtentsTransformed(*env.getRootNode());
    REQUIRE((e.min() - lo).norm() < 1e-6 * (1 + lo.norm()) && (e.max() - hi).norm() < 1e-6 * (1 + hi.norm()), "grid:extents-frame", "extents " << e.min().transpose() << " to " << e.max().transpose() << " expected " << lo.transpose() << " to " << hi.transpose());
    mon::distinct(mon::hashStr(mon::currentLog()));
}

SECTION(create, 300, 3000)
{
    auto& r = c.rng;
    Geo g = geo(r); LOGOP("grid " << g);
    std::string cls = r.one({"envire::TG", "envire::Grid_d", "envire::Grid_h", "Grid_f", "TG"});
    GridBase::Ptr p = GridBase::create(cls, g.w, g.h, g.sx, g.sy, g.ox, g.oy);
    REQUIRE(p && p->getCellSizeX() == g.w && p->getCellSizeY() == g.h && p->getScaleX() == g.sx && p->getScaleY() == g.sy && p->getOffsetX() == g.ox && p->getOffsetY() == g.oy, "grid:create", "created " << cls << " with another geometry");
    REQUIRE(p->getClassName() == (cls.compare(0, 8, "envire::") ? "envire::" + cls : cls), "grid:create-class", "asked for " << cls << " got " << p->getClassName());
    REQUIRE(!p->isAttached(), "grid:create", "new grid claims to be attached");
    Environment env; env.attachItem(p.get());
    REQUIRE(env.getItem<GridBase>(p->getUniqueId()).get() == p.get(), "grid:create-attach", "new grid cannot be attached");
    GridBase::Ptr q = GridBase::create(cls, g.w, g.h, g.sx, g.sy); env.attachItem(q.get());
    REQUIRE(q->getUniqueId() != p->getUniqueId(), "grid:create-attach", "two new grids share an id");
    bool refused = mon::throws([&] { GridBase::Ptr n = GridBase::create("envire::NoSuchGrid", 1, 1); if (!n) throw 1; });
    REQUIRE(refused, "grid:create-unknown", "an unknown class was created");
    mon::seen("create");
    mon::distinct(mon::hashStr(mon::currentLog()));
}

SECTION(aligned, 10000, 40000)
{
    auto& r = c.rng;
    Geo a = geo(r), b = a;
    // same frame geometry, then one disturbance
    if (a.w < 2) a.w = b.w = 2;
    if (a.h < 2) a.h = b.h = 2;
    double ang = r.chance(0.5) ? 0 : r.real(-3, 3), px = r.chance(0.5) ? 0 : r.real(-100, 100), py = r.chance(0.5) ? 0 : r.real(-100, 100);
    Affine3d common = planar(px, py, ang);
    int kind = r.range(0, 7); bool wantAligned = true, wantCell = true, judgeA = true, judgeC = true;
    double dx = 0, dy = 0, da = 0; long kx = 0, ky = 0; double fx = 0, fy = 0;
    switch (kind) {
    case 0: break;
    case 1: kx = r.range(-50, 50); ky = r.range(-50, 50); if (!kx && !ky) kx = 1; wantAligned = false; break;           // whole cells
    case 2: fx = r.real(0.02, 0.4) * (r.chance(0.5) ? 1 : -1); wantCell = false; break;                               // part of a cell
    case 3: fy = r.real(0.6, 0.98); ky = r.range(-20, 20); wantCell = false; wantAligned = ky == -1; break;
    case 4: da = r.real(0.1, 3.0) * (r.chance(0.5) ? 1 : -1); if (fabs(fabs(da) - M_PI / 2) < 0.05) da += 0.1; judgeA = false; wantCell = false; break;
    case 5: if (r.chance(0.5)) b.w += r.range(1, 9); else b.h += r.range(1, 9); wantAligned = false; break;
    case 6: if (r.chance(0.5)) b.sx *= r.real(2, 3); else b.sy *= r.real(2, 3); wantAligned = wantCell = false; break;
    case 7: { double ox = r.real(-5, 5), oy = r.real(-5, 5); b.ox += ox; b.oy += oy; if (r.chance(0.5)) { dx = -ox; dy = -oy; } else { kx = r.range(-4, 4); ky = r.range(1, 4); dx = -ox; dy = -oy; wantAligned = false; } break; } // other offset, moved back
    }
    dx += (kx + fx) * a.sx; dy += (ky + fy) * a.sy;
    if (kind == 4) { dx += r.range(-3, 3) * a.sx; // turned about the centre of the zero cell
        Vector2d z(a.ox + 0.5 * a.sx, a.oy + 0.5 * a.sy); Vector2d mv = z - Rotation2Dd(da) * z; dx += mv.x(); dy += mv.y(); }
    LOGOP("kind " << kind << " grid " << a << " and " << b << " moved " << dx << "," << dy << " turned " << da << " common " << px << "," << py << "," << ang);
    Environment env;
    TG* ga = new TG(a.w, a.h, a.sx, a.sy, a.ox, a.oy); TG* gb = new TG(b.w, b.h, b.sx, b.sy, b.ox, b.oy);
    FrameNode* fa = new FrameNode(common); FrameNode* fb = new FrameNode;
    env.addChild(env.getRootNode(), fa);
    if (r.chance(0.5)) { fb->setTransform(planar(dx, dy, da)); env.addChild(fa, fb); } else { fb->setTransform(common * planar(dx, dy, da)); env.addChild(env.getRootNode(), fb); }
    env.setFrameNode(ga, fa); env.setFrameNode(gb, fb);
    if (kind == 4) { // how far apart are the corners, in cells
        double worst = 0; for (int k = 0; k < 4; k++) { Vector2d p(a.ox + (k & 1) * a.w * a.sx, a.oy + (k >> 1) * a.h * a.sy); Vector2d q = Rotation2Dd(da) * p + Vector2d(dx, dy) - p; worst = std::max(worst, std::max(fabs(q.x()) / a.sx, fabs(q.y()) / a.sy)); }
        if (worst > 0.8) { judgeA = true; wantAligned = false; }
    }
    if (judgeA) for (int k = 0; k < 2; k++) { bool got = k ? gb->isAlignedWith(*ga) : ga->isAlignedWith(*gb); REQUIRE(got == wantAligned, "grid:aligned", "kind " << kind << ": aligned is " << got << " expected " << wantAligned); }
    if (judgeC) for (int k = 0; k < 2; k++) { bool got = k ? gb->isCellAlignedWith(*ga) : ga->isCellAlignedWith(*gb); REQUIRE(got == wantCell, "grid:cell-aligned", "kind " << kind << ": aligned on cell level is " << got << " expected " << wantCell); }
    mon::seen("aligned.k" + std::to_string(kind));
    mon::distinct(mon::hashStr(mon::currentLog()));
}
