// P41: clouds projected onto elevation grids, and simplified clouds.
#include "mon.hpp"
#include <envire/Core.hpp>
#include <envire/core/Serialization.hpp>
#include <envire/maps/ElevationGrid.hpp>
#include <envire/maps/Grids.hpp>
#include <envire/maps/TriMesh.hpp>
#include <envire/operators/Projection.hpp>
#include <envire/operators/SimplifyPointcloud.hpp>
#include <CGAL/property_map.h>
#include <sstream>
using namespace envire;
using namespace Eigen;

namespace {
Affine3d pose(mon::Rng& r) {
    Affine3d t = Affine3d::Identity(); if (r.chance(.2)) return t; t.translation() = Vector3d(r.real(-4, 4), r.real(-4, 4), r.real(-4, 4)); if (r.chance(.8)) t.linear() = AngleAxisd(r.real(-3, 3), Vector3d(r.gauss(), r.gauss(), r.gauss() + 1e-3).normalized()).toRotationMatrix(); return t;
}
struct Frame { FrameNode* node; Affine3d toRoot; Frame(mon::Rng& r, Environment& env) : node(env.getRootNode()), toRoot(Affine3d::Identity()) {
    for (int n = r.range(0, 3); n-- > 0;) { FrameNode* f = new FrameNode; Affine3d t = pose(r); f->setTransform(t); env.attachItem(f); node->addChild(f); node = f; toRoot = toRoot * t; } } };
struct Quiet { std::ostringstream s; std::streambuf* o; Quiet() : o(std::cout.rdbuf(s.rdbuf())) {} ~Quiet() { std::cout.rdbuf(o); } };
const double INF = std::numeric_limits<double>::infinity();
long orient(const Vector2i& a, const Vector2i& b, const Vector2i& c) { return (long)(b.x() - a.x()) * (c.y() - a.y()) - (long)(b.y() - a.y()) * (c.x() - a.x()); }
long incircle(const Vector2i& a, const Vector2i& b, const Vector2i& c, const Vector2i& d) {
    long ax = a.x() - d.x(), ay = a.y() - d.y(), bx = b.x() - d.x(), by = b.y() - d.y(), cx = c.x() - d.x(), cy = c.y() - d.y();
    return (ax * ax + ay * ay) * (bx * cy - cx * by) - (bx * bx + by * by) * (ax * cy - cx * ay) + (cx * cx + cy * cy) * (ax * by - bx * ay);
}
}

SECTION(project, 2500, 25000)
{
    auto& r = c.rng; Environment env;
    if (r.chance(.3)) env.getRootNode()->setTransform(pose(r));
    int nx = r.range(1, 9), ny = r.range(1, 9); double sx = r.chance(.5) ? .5 : r.real(.05, 2), sy = r.chance(.5) ? sx : r.real(.05, 2), ox = r.chance(.4) ? 0 : r.real(-5, 5), oy = r.chance(.4) ? 0 : r.real(-5, 5);
    Frame fg(r, env); ElevationGrid* grid = new ElevationGrid(nx, ny, sx, sy, ox, oy); env.attachItem(grid); grid->setFrameNode(fg.node);
    Projection* op = new Projection; env.attachItem(op);
    if (r.chance(.03)) { REQUIRE(mon::throws([&] { op->updateAll(); }), "project:incomplete", "runs without a grid"); mon::seen("project.incomplete"); }
    if (r.chance(.03)) { ElevationGrid* g2 = new ElevationGrid(2, 2, 1, 1); env.attachItem(g2); op->addOutput(g2); REQUIRE(mon::throws([&] { op->addOutput(grid); }), "project:several", "several outputs are accepted"); op->removeOutput(g2); mon::seen("project.refused"); }
    op->addOutput(grid);
    struct In { Pointcloud* pc; Affine3d T; std::vector<Vector3d> v; }; std::vector<In> ins;
    for (int n = r.range(0, 3); n-- > 0;) { Frame f(r, env); In i{r.chance(.2) ? new TriMesh : new Pointcloud, fg.toRoot.inverse() * f.toRoot, {}}; env.attachItem(i.pc); i.pc->setFrameNode(f.node); op->addInput(i.pc); ins.push_back(i); }
    if (r.chance(.03)) { ElevationGrid* g2 = new ElevationGrid(2, 2, 1, 1); env.attachItem(g2); env.addInput(op, g2); REQUIRE(mon::throws([&] { op->updateAll(); }), "project:input", "an input that is no cloud is accepted"); env.removeInput(op, g2); mon::seen("project.input"); }
    for (int round = r.range(1, 2); round-- > 0;) {
        std::vector<std::vector<double> > lo(ny, std::vector<double>(nx, INF)), hi(ny, std::vector<double>(nx, -INF));
        for (In& i : ins) {
            i.pc->vertices.clear(); i.v.clear();
            for (int n = r.chance(.3) ? r.range(0, 3) : r.range(0, 12); n-- > 0;) {
                // choose the place in the grid, away from the borders of the cells
                int x = r.range(-1, nx), y = r.range(-1, ny); if (r.chance(.15)) y = ny - 1; if (r.chance(.15)) x = nx - 1; if (r.chance(.1)) x = 0;
                Vector3d p(ox + (x + r.real(.05, .95)) * sx, oy + (y + r.real(.05, .95)) * sy, r.real(-3, 3));
                Vector3d q = i.T.inverse() * p; i.pc->vertices.push_back(q); i.v.push_back(q);
                if (x < 0 || y < 0 || x >= nx || y >= ny) { mon::seen("point.outside"); continue; }
                lo[y][x] = std::min(lo[y][x], p.z()); hi[y][x] = std::max(hi[y][x], p.z());
            }
        }
        { Quiet q; REQUIRE(op->updateAll(), "project:return", "update failed"); }
        for (In& i : ins) REQUIRE(i.pc->vertices == i.v, "project:source", "the cloud was changed");
        std::vector<Vector2i> occ; for (int y = 0; y < ny; y++) for (int x = 0; x < nx; x++) if (hi[y][x] != -INF) occ.push_back(Vector2i(x, y));
        bool flat = true; for (size_t i = 2; i < occ.size(); i++) if (orient(occ[0], occ[1], occ[i])) flat = false;
        auto& mn = grid->getGridData(ElevationGrid::ELEVATION_MIN); auto& mx = grid->getGridData(ElevationGrid::ELEVATION_MAX);
        LOGOP("grid " << nx << "x" << ny << " cells with points " << occ.size());
        struct Tri { Vector2i a, b, c; }; std::vector<Tri> tris;
        for (size_t i = 0; i < occ.size(); i++) for (size_t j = i + 1; j < occ.size(); j++) for (size_t k = j + 1; k < occ.size(); k++) {
            long o = orient(occ[i], occ[j], occ[k]); if (!o) continue; Tri t{occ[i], o > 0 ? occ[j] : occ[k], o > 0 ? occ[k] : occ[j]};
            bool e = true; for (auto& d : occ) if (incircle(t.a, t.b, t.c, d) > 0) { e = false; break; } if (e) tris.push_back(t);
        }
        for (int y = 0; y < ny; y++) for (int x = 0; x < nx; x++) {
            if (hi[y][x] != -INF) {
                REQUIRE(std::abs(mx[y][x] - hi[y][x]) < 1e-9, "project:max", "highest of cell " << x << "," << y << " is " << mx[y][x] << ", expected " << hi[y][x]);
                REQUIRE(std::abs(mn[y][x] - lo[y][x]) < 1e-9, "project:min", "lowest of cell " << x << "," << y << " is " << mn[y][x] << ", expected " << lo[y][x]);
                mon::seen(hi[y][x] > lo[y][x] ? "cell.several" : "cell.one"); continue;
            }
            REQUIRE(mn[y][x] == INF, "project:min-empty", "empty cell " << x << "," << y << " has lowest " << mn[y][x]);
            if (flat) { mon::seen("cell.flat"); if (occ.empty()) REQUIRE(mx[y][x] == -INF, "project:empty", "empty grid has height " << mx[y][x]); continue; }
            Vector2i q(x, y); bool in = false, ok = false; std::string want;
            for (auto& t : tris) {
                long o1 = orient(t.a, t.b, q), o2 = orient(t.b, t.c, q), o3 = orient(t.c, t.a, q); if (o1 < 0 || o2 < 0 || o3 < 0) continue;
                in = true; double s = o1 + o2 + o3, v = (o2 * hi[t.a.y()][t.a.x()] + o3 * hi[t.b.y()][t.b.x()] + o1 * hi[t.c.y()][t.c.x()]) / s;
                if (std::abs(mx[y][x] - v) < 1e-6) ok = true; want += std::to_string(v) + " ";
            }
            if (in) { REQUIRE(ok, "project:gap", "gap " << x << "," << y << " of " << nx << "x" << ny << " filled with " << mx[y][x] << ", expected " << want); mon::seen("cell.gap"); if (x == nx - 1 || y == ny - 1) mon::seen("cell.gap.last"); }
            else { REQUIRE(mx[y][x] == -INF, "project:outside", "cell " << x << "," << y << " outside of the measured area has height " << mx[y][x]); mon::seen("cell.outside"); }
        }
        mon::distinct(mon::hashStr(mon::currentLog()) + (uint64_t)(1e6 * sx));
    }
}

SECTION(simplify, 2500, 25000)
{
    auto& r = c.rng; Environment env; Pointcloud* in = r.chance(.2) ? new TriMesh : new Pointcloud; Pointcloud* out = new Pointcloud; env.attachItem(in); env.attachItem(out);
    FrameNode* f = env.getRootNode(); if (r.chance(.5)) { f = new FrameNode; f->setTransform(pose(r)); env.attachItem(f); env.getRootNode()->addChild(f); } in->setFrameNode(f); out->setFrameNode(f);
    SimplifyPointcloud* op = new SimplifyPointcloud; env.attachItem(op);
    if (r.chance(.03)) { REQUIRE(mon::throws([&] { Quiet q; op->updateAll(); }), "simplify:incomplete", "runs without clouds"); mon::seen("simplify.incomplete"); }
    if (r.chance(.03)) { op->addInput(in); op->addOutput(in); in->vertices.assign(5, Vector3d(1, 2, 3)); REQUIRE(mon::throws([&] { Quiet q; op->updateAll(); }), "simplify:same", "one cloud is simplified in place"); REQUIRE(in->vertices.size() == 5, "simplify:same", "the cloud was changed"); mon::seen("simplify.same"); return; }
    op->addInput(in); op->addOutput(out);
    if (r.chance(.05)) { Pointcloud* x = new Pointcloud; env.attachItem(x); REQUIRE(mon::throws([&] { op->addInput(x); }) && mon::throws([&] { op->addOutput(x); }), "simplify:several", "several inputs or outputs are accepted"); mon::seen("simplify.refused"); }
    double cell = .05, outl = 5; int smooth = 24; bool spacing = false;
    if (r.chance(.8)) op->setSimplifyCellSize(cell = r.chance(.3) ? 0 : r.real(.01, 2)); if (r.chance(.8)) op->setOutlierPercentage(outl = r.chance(.3) ? 0 : r.chance(.1) ? 100 : r.real(0, 60));
    if (r.chance(.8)) op->setSmoothNeighbours(smooth = r.chance(.5) ? 0 : r.range(2, 30)); if (r.chance(.5)) op->setComputeSpacing(spacing = r.chance(.5));
    if (r.chance(.5)) { out->vertices.assign(3, Vector3d::Zero()); out->getVertexData<Vector3d>(Pointcloud::VERTEX_NORMAL).assign(3, Vector3d::UnitX()); }
    for (int round = r.range(1, 2); round-- > 0;) {
        in->clear(); bool nrm = r.chance(.5) || in->hasData(Pointcloud::VERTEX_NORMAL), col = r.chance(.5) || in->hasData(Pointcloud::VERTEX_COLOR); int n = r.chance(.05) ? 0 : r.range(1, 60);
        std::vector<Vector3d> v; for (int i = 0; i < n; i++) { v.push_back(Vector3d(r.real(-2, 2), r.real(-2, 2), r.real(-2, 2))); in->vertices.push_back(v.back()); }
        if (nrm) { auto& d = in->getVertexData<Vector3d>(Pointcloud::VERTEX_NORMAL); d.clear(); for (int i = 0; i < n; i++) d.push_back(Vector3d(i, 0, 1)); }
        if (col) { auto& d = in->getVertexData<Vector3d>(Pointcloud::VERTEX_COLOR); d.clear(); for (int i = 0; i < n; i++) d.push_back(Vector3d(0, i, 1)); }
        LOGOP("points " << n << " cell " << cell << " outliers " << outl << " smooth " << smooth << " normals " << nrm << " colors " << col);
        CGAL::pspCalls().clear();
        { Quiet q; REQUIRE(op->updateAll(), "simplify:return", "update failed"); }
        // the steps asked for, in their order, with their settings
        std::vector<std::string> want, got; bool left = n > 0;
        typedef boost::tuple<int, CGAL::Exact_predicates_inexact_constructions_kernel::Point_3> IP; std::vector<IP> pts; CGAL::Nth_of_tuple_property_map<1, IP> m;
        auto calls = CGAL::pspCalls();
        for (int i = 0; i < n; i++) pts.push_back(IP(i, CGAL::Exact_predicates_inexact_constructions_kernel::Point_3(v[i].x(), v[i].y(), v[i].z())));
        size_t k = 0; auto next = [&](const char* what) { REQUIRE(k < calls.size() && calls[k].what == what, "simplify:steps", "step " << k << " is not " << what); return calls[k++]; };
        auto skipEmpty = [&](const char* what) { if (k < calls.size() && calls[k].what == what && !calls[k].before) k++; };
        if (cell > 0) { if (left) { auto q = next("simplify"); REQUIRE(q.value == cell, "simplify:cell", "cell size " << q.value << ", set to " << cell); pts.erase(CGAL::grid_simplify_point_set(pts.begin(), pts.end(), m, cell), pts.end()); mon::seen("simplify.cells"); } else skipEmpty("simplify"); }
        left = !pts.empty();
        if (spacing && left) next("spacing");
        if (outl > 0 && left) { auto q = next("outliers"); REQUIRE(q.value == outl && q.k == 24, "simplify:outliers", "removes " << q.value << " %, set to " << outl); pts.erase(CGAL::remove_outliers(pts.begin(), pts.end(), m, 24, outl), pts.end()); mon::seen("simplify.outliers"); }
        left = !pts.empty();
        if (smooth > 0 && left) { auto q = next("smooth"); REQUIRE((int)q.k == smooth, "simplify:smooth", "smoothes over " << q.k << " neighbours, set to " << smooth); CGAL::jet_smooth_point_set<CGAL::Sequential_tag>(pts.begin(), pts.end(), m, smooth); mon::seen("simplify.smooth"); }
        REQUIRE(k == calls.size(), "simplify:steps", "further step " << (k < calls.size() ? calls[k].what : ""));
        if (pts.empty()) mon::seen("simplify.empty");
        REQUIRE(out->vertices.size() == pts.size(), "simplify:size", "output has " << out->vertices.size() << " points, expected " << pts.size());
        std::vector<Vector3d>* on = out->hasData(Pointcloud::VERTEX_NORMAL) ? &out->getVertexData<Vector3d>(Pointcloud::VERTEX_NORMAL) : nullptr; std::vector<Vector3d>* oc = out->hasData(Pointcloud::VERTEX_COLOR) ? &out->getVertexData<Vector3d>(Pointcloud::VERTEX_COLOR) : nullptr;
        REQUIRE((on ? on->size() : 0) == (nrm ? pts.size() : 0) && (oc ? oc->size() : 0) == (col ? pts.size() : 0), "simplify:data", "normals or colours do not match the points");
        for (size_t i = 0; i < pts.size(); i++) {
            auto& p = pts[i].get<1>(); int id = pts[i].get<0>();
            REQUIRE((out->vertices[i] - Vector3d(p.x(), p.y(), p.z())).norm() < 1e-9, "simplify:point", "point " << i << " is at " << out->vertices[i].transpose());
            if (nrm) { REQUIRE((*on)[i] == Vector3d(id, 0, 1), "simplify:normal", "point " << i << " has the normal of another"); mon::seen("simplify.normal"); }
            if (col) { REQUIRE((*oc)[i] == Vector3d(0, id, 1), "simplify:color", "point " << i << " has the colour of another"); mon::seen("simplify.color"); }
        }
        REQUIRE(in->vertices == v, "simplify:source", "the input was changed");
        mon::distinct(mon::hashStr(mon::currentLog()));
    }
}
