// Rectangle iteration over grids: coverage, no strays, no repetition, inner/outer partition.
#include "mon.hpp"
#include <envire/Core.hpp>
#include <envire/maps/GridBase.hpp>
#include <envire/tools/BresenhamLine.hpp>
using namespace envire;
using namespace Eigen;

namespace {
class TG : public GridBase {
    ENVIRONMENT_ITEM(TG)
public:
    TG() {}
    TG(size_t w, size_t h, double sx, double sy, double ox, double oy) : GridBase(w, h, sx, sy, ox, oy) {}
};
const std::string TG::className = "envire::TG";
struct Rect { Vector2d c; double a, lx, ly; };
// signed distance in cells (negative inside), measured in grid units along the rectangle axes
double depth(const Rect& R, const Vector2d& p) {
    Vector2d q = Rotation2Dd(-R.a) * (p - R.c);
    return std::max(fabs(q.x()) - R.lx / 2, fabs(q.y()) - R.ly / 2);
}
double dist(const Rect& R, const Vector2d& p) {
    Vector2d q = Rotation2Dd(-R.a) * (p - R.c);
    return Vector2d(std::max(0.0, fabs(q.x()) - R.lx / 2), std::max(0.0, fabs(q.y()) - R.ly / 2)).norm();
}
typedef std::map<std::pair<size_t, size_t>, int> Hits;
struct Setup {
    size_t w, h; double s, ox, oy; TG* g;
    Vector2d centre(size_t x, size_t y) const { return Vector2d(ox + (x + 0.5) * s, oy + (y + 0.5) * s); }
    bool corners(const Rect& R, bool& near) const {
        bool in = true; near = false;
        for (int k = 0; k < 4; k++) {
            Vector2d p = R.c + Rotation2Dd(R.a) * Vector2d((k & 1 ? .5 : -.5) * R.lx, (k & 2 ? .5 : -.5) * R.ly);
            double u = (p.x() - ox) / s, v = (p.y() - oy) / s;
            if (u < 0 || v < 0 || u >= w || v >= h) in = false;
            for (double q : {u, v, w - u, h - v}) if (fabs(q) < 1e-6) near = true;
        }
        return in;
    }
};
Rect rndRect(mon::Rng& r, const Setup& s, double maxPart) {
    Rect R; double W = s.w * s.s, H = s.h * s.s;
    R.a = r.chance(0.25) ? r.range(-4, 4) * M_PI / 2 : r.chance(0.1) ? M_PI / 4 : r.chance(0.1) ? r.real(-0.02, 0.02) : r.real(-M_PI, M_PI);
    double m = std::min(W, H) * maxPart;
    R.lx = r.chance(0.1) ? r.real(0, s.s) : r.real(0, m); R.ly = r.chance(0.1) ? r.real(0, s.s) : r.real(0, m);
    R.c = Vector2d(s.ox + r.real() * W, s.oy + r.real() * H);
    if (r.chance(0.5)) R.c = Vector2d(s.ox + r.real(0.3, 0.7) * W, s.oy + r.real(0.3, 0.7) * H);
    return R;
}
void judge(const Setup& s, const Rect& R, const Hits& hits, const char* what) {
    size_t inside = 0;
    for (auto& h : hits) {
        REQUIRE(h.first.first < s.w && h.first.second < s.h, "rect:outside", what << ": cell " << h.first.first << "," << h.first.second << " is not in the grid");
        REQUIRE(h.second == 1, "rect:repeated", what << ": cell " << h.first.first << "," << h.first.second << " reported " << h.second << " times");
        double d = dist(R, s.centre(h.first.first, h.first.second)) / s.s;
        REQUIRE(d <= 0.86, "rect:stray", what << ": cell " << h.first.first << "," << h.first.second << " lies " << d << " cells from the rectangle");
    }
    for (size_t x = 0; x < s.w; x++) for (size_t y = 0; y < s.h; y++) {
        double d = depth(R, s.centre(x, y)) / s.s;
        if (d < -0.12) { inside++; REQUIRE(hits.count({x, y}), "rect:missed", what << ": cell " << x << "," << y << " lies " << -d << " cells inside the rectangle and is not reported"); }
    }
    mon::seen("cells", hits.size()); mon::seen("deep", inside);
}
}

SECTION(single, 8000, 40000)
{
    auto& r = c.rng;
    Setup s; s.w = r.range(3, 40); s.h = r.range(3, 40); s.s = r.chance(0.5) ? r.one({0.05, 0.1, 0.12, 0.15, 1.0}) : r.real(0.02, 2); s.ox = r.chance(0.4) ? 0 : r.real(-30, 30); s.oy = r.chance(0.4) ? 0 : r.real(-30, 30);
    TG g(s.w, s.h, s.s, s.s, s.ox, s.oy); s.g = &g;
    for (int k = 0; k < 8; k++) {
        Rect R = rndRect(r, s, 0.9);
        LOGOP("grid " << s.w << "x" << s.h << " scale " << s.s << " offset " << s.ox << "," << s.oy << " rect " << R.c.transpose() << " angle " << R.a << " size " << R.lx << "," << R.ly);
        Hits hits; bool near; bool in = s.corners(R, near);
        bool ok = g.forEachInRectangle(base::Pose2D(R.c, R.a), R.lx, R.ly, [&](size_t x, size_t y) { hits[{x, y}]++; });
        if (!near) REQUIRE(ok == in, "rect:return", "says inside " << ok << " expected " << in);
        if (!ok) { REQUIRE(hits.empty(), "rect:partial", "refused, but reported cells"); mon::seen("refused"); continue; }
        judge(s, R, hits, "rectangle");
        { // the corners themselves, in cells and in parts of cells
            GridBase::Position q[4]; int mult = r.range(1, 5); bool dflt = r.chance(0.5); if (dflt) mult = 1;
            bool got = dflt ? g.getRectPoints(base::Pose2D(R.c, R.a), R.lx, R.ly, q[0], q[1], q[2], q[3]) : g.getRectPoints(base::Pose2D(R.c, R.a), R.lx, R.ly, q[0], q[1], q[2], q[3], mult);
            if (!near) REQUIRE(got, "rect:corners", "no corners of a rectangle in the grid");
            if (got) for (int m = 0; m < 4; m++) { Vector2d p = R.c + Rotation2Dd(R.a) * Vector2d((m & 1 ? .5 : -.5) * R.lx, (m & 2 ? .5 : -.5) * R.ly); double u = (p.x() - s.ox) / s.s * mult, v = (p.y() - s.oy) / s.s * mult; bool found = false; for (auto& x : q) found = found || (u > x.x - 1e-6 && u < x.x + 1 + 1e-6 && v > x.y - 1e-6 && v < x.y + 1 + 1e-6); REQUIRE(found, "rect:corner", "corner " << p.transpose() << " (" << u << "," << v << " with multiplier " << mult << ") is not among the corners found"); }
            mon::seen(dflt ? "corners" : "corners.parts"); }
        mon::seen("single");
    }
    mon::distinct(mon::hashStr(mon::currentLog()));
}

SECTION(both, 8000, 40000)
{
    auto& r = c.rng;
    Setup s; s.w = r.range(3, 40); s.h = r.range(3, 40); s.s = r.chance(0.5) ? r.one({0.05, 0.1, 0.12, 0.15, 1.0}) : r.real(0.02, 2); s.ox = r.chance(0.4) ? 0 : r.real(-30, 30); s.oy = r.chance(0.4) ? 0 : r.real(-30, 30);
    TG g(s.w, s.h, s.s, s.s, s.ox, s.oy); s.g = &g;
    for (int k = 0; k < 8; k++) {
        Rect O = rndRect(r, s, 0.9), I = O;
        double border = r.chance(0.2) ? 0 : r.real(0, 0.5) * std::min(O.lx, O.ly);
        I.lx -= 2 * border * r.real(); I.ly -= 2 * border; if (I.lx < 0) I.lx = 0; if (I.ly < 0) I.ly = 0;
        LOGOP("grid " << s.w << "x" << s.h << " scale " << s.s << " offset " << s.ox << "," << s.oy << " rect " << O.c.transpose() << " angle " << O.a << " inner " << I.lx << "," << I.ly << " outer " << O.lx << "," << O.ly);
        Hits in, out; bool near; bool inside = s.corners(O, near);
        bool ok = g.forEachInRectangles(base::Pose2D(O.c, O.a), I.lx, I.ly, [&](size_t x, size_t y) { in[{x, y}]++; }, O.lx, O.ly, [&](size_t x, size_t y) { out[{x, y}]++; });
        if (!near) REQUIRE(ok == inside, "rect:return", "says inside " << ok << " expected " << inside);
        if (!ok) { REQUIRE(in.empty() && out.empty(), "rect:partial", "refused, but reported cells"); mon::seen("both.refused"); continue; }
        Hits all = out; for (auto& h : in) all[h.first] += h.second;
        judge(s, O, all, "both rectangles");
        judge(s, I, in, "inner rectangle");
        for (auto& h : out) { double d = depth(I, s.centre(h.first.first, h.first.second)) / s.s; REQUIRE(d > -0.12, "rect:outer-inside", "cell " << h.first.first << "," << h.first.second << " lies in the inner rectangle and is reported as outer"); }
        mon::seen("both"); mon::seen("both.ring", out.size());
    }
    mon::distinct(mon::hashStr(mon::currentLog()));
}

SECTION(line, 10000, 60000)
{
    auto& r = c.rng;
    int m = r.one({3, 10, 100, 2000});
    bool pos = r.chance(0.5);
    int x0 = pos ? r.range(0, m) : r.range(-m, m), y0 = pos ? r.range(0, m) : r.range(-m, m), x1 = pos ? r.range(0, m) : r.range(-m, m), y1 = pos ? r.range(0, m) : r.range(-m, m);
    if (r.chance(0.1)) x1 = x0;
    if (r.chance(0.1)) y1 = y0;
    LOGOP("line " << x0 << "," << y0 << " to " << x1 << "," << y1);
    std::vector<Vector2i> pts; int form = pos ? r.range(0, 4) : r.range(0, 1);
    if (form == 0) { Bresenham b((Vector2i(x0, y0)), Vector2i(x1, y1)); Vector2i p; while (b.getNextPoint(p)) { pts.push_back(p); REQUIRE(pts.size() < 100000, "line:endless", "line does not end"); } REQUIRE(!b.getNextPoint(p), "line:end", "goes on after the end"); }
    else if (form == 1) { Bresenham b((Vector2i(5, 5)), Vector2i(9, 1)); int x, y; for (int k = r.range(0, 6); k-- > 0;) b.getNextPoint(x, y); b.init(x0, y0, x1, y1); while (b.getNextPoint(x, y)) { pts.push_back(Vector2i(x, y)); REQUIRE(pts.size() < 100000, "line:endless", "line does not end"); } mon::seen("line.reinit"); }
    else if (form == 2) { Bresenham b(GridBase::Position(x0, y0), GridBase::Position(x1, y1)); GridBase::Position p; while (b.getNextPoint(p)) { pts.push_back(Vector2i(p.x, p.y)); REQUIRE(pts.size() < 100000, "line:endless", "line does not end"); } }
    else if (form == 3) { std::vector<GridBase::Position> v(1, GridBase::Position(1, 2)); lineBresenham(GridBase::Position(x0, y0), GridBase::Position(x1, y1), v); REQUIRE(v[0] == GridBase::Position(1, 2), "line:append", "the points already there were changed"); for (size_t i = 1; i < v.size(); i++) pts.push_back(Vector2i(v[i].x, v[i].y)); }
    else { Bresenham b(GridBase::Position(3, 3), GridBase::Position(3, 3)); b.init(GridBase::Position(x0, y0), GridBase::Position(x1, y1)); std::vector<GridBase::Position> v; b.getLine(v); for (auto& p : v) pts.push_back(Vector2i(p.x, p.y)); }
    int dx = abs(x1 - x0), dy = abs(y1 - y0);
    REQUIRE(pts.size() == size_t(std::max(dx, dy) + 1), "line:length", pts.size() << " points for " << dx << "," << dy);
    REQUIRE(pts.front() == Vector2i(x0, y0) && pts.back() == Vector2i(x1, y1), "line:ends", "line goes from " << pts.front().transpose() << " to " << pts.back().transpose());
    double len = std::hypot(dx, dy);
    for (size_t i = 0; i < pts.size(); i++) {
        if (i) REQUIRE((pts[i] - pts[i - 1]).cwiseAbs().maxCoeff() == 1, "line:step", "step from " << pts[i - 1].transpose() << " to " << pts[i].transpose());
        if (len > 0) { // error along the minor axis is at most half a cell
            double t = double(i) / std::max(dx, dy), ex = x0 + t * (x1 - x0), ey = y0 + t * (y1 - y0);
            REQUIRE(fabs(pts[i].x() - ex) <= 0.5 + 1e-9 && fabs(pts[i].y() - ey) <= 0.5 + 1e-9, "line:deviation", "point " << pts[i].transpose() << " is off the line by " << pts[i].x() - ex << "," << pts[i].y() - ey);
        }
    }
    mon::seen("line"); if (dx > dy) mon::seen("line.flat"); else mon::seen("line.steep");
    mon::distinct(mon::hashStr(mon::currentLog()));
}
