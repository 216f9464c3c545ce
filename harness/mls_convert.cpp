// P31: multi-level surfaces turned into slopes, elevation grids and point clouds, and grids into surfaces.
#include "mon.hpp"
#include <envire/Core.hpp>
#include <envire/core/Serialization.hpp>
#include <envire/maps/ElevationGrid.hpp>
#include <envire/maps/Grids.hpp>
#include <envire/maps/MLSGrid.hpp>
#include <envire/maps/Pointcloud.hpp>
#include <envire/operators/MLSSlope.hpp>
#include <envire/operators/MLSToGrid.hpp>
#include <envire/operators/MLSToPointCloud.hpp>
#include <envire/operators/GridFloatToMLS.hpp>
#include <boost/filesystem.hpp>
using namespace envire;
using namespace Eigen;
typedef MLSGrid::SurfacePatch P;

namespace {
struct Scratch { std::string d; Scratch() { char b[] = "/tmp/verif.conv.XXXXXX"; if (!mkdtemp(b)) throw std::runtime_error("mkdtemp"); d = b; } ~Scratch() { boost::system::error_code e; boost::filesystem::remove_all(d, e); } };
Affine3d pose(mon::Rng& r, bool tilt) {
    Affine3d t = Affine3d::Identity(); if (r.chance(.15)) return t; t.translation() = Vector3d(r.real(-4, 4), r.real(-4, 4), r.chance(.3) ? 0 : r.real(-4, 4));
    if (r.chance(.8)) t.linear() = AngleAxisd(r.real(-3, 3), Vector3d::UnitZ()).toRotationMatrix(); if (tilt && r.chance(.7)) t.linear() = t.linear() * AngleAxisd(r.real(-3, 3), Vector3d(r.gauss(), r.gauss(), r.gauss() + 1e-3).normalized()).toRotationMatrix(); return t;
}
struct Frame { FrameNode* node; Affine3d toRoot; Frame(mon::Rng& r, Environment& env, bool tilt) : node(env.getRootNode()), toRoot(Affine3d::Identity()) {
    for (int n = r.range(0, 3); n-- > 0;) { FrameNode* f = new FrameNode; Affine3d t = pose(r, tilt); f->setTransform(t); env.attachItem(f); node->addChild(f); node = f; toRoot = toRoot * t; } } };
struct Geo { int w, h; double sx, sy, ox, oy; Geo(mon::Rng& r, int m) { w = r.range(1, m); h = r.range(1, m); sx = r.one({.1, .25, .5, 1.0}); sy = r.chance(.5) ? sx : sx * r.one({.5, 2.0}); ox = r.chance(.3) ? 0 : r.real(-5, 5); oy = r.chance(.3) ? 0 : r.real(-5, 5); }
    Vector2d at(int x, int y, double u = .5, double v = .5) const { return Vector2d(ox + (x + u) * sx, oy + (y + v) * sy); }
    MLSGrid* mls(Environment& env) const { MLSGrid* g = new MLSGrid(w, h, sx, sy, ox, oy); env.attachItem(g); return g; } };
std::ostream& operator<<(std::ostream& o, const Geo& g) { return o << g.w << "x" << g.h << " scale " << g.sx << "," << g.sy << " offset " << g.ox << "," << g.oy; }
bool doubt(double u) { return fabs(u - std::round(u)) < 1e-6; }
struct Top { bool has = false; double z = 0, s = 0, n = 0; };
std::vector<Top> tops(MLSGrid* g, const Geo& G) { std::vector<Top> v(G.w * G.h); for (int x = 0; x < G.w; x++) for (int y = 0; y < G.h; y++) { Top& t = v[y * G.w + x]; for (MLSGrid::iterator it = g->beginCell(x, y); it != g->endCell(); it++) if (!t.has || it->mean > t.z) { t.has = true; t.z = it->mean; t.s = it->stdev; t.n = it->getMeasurementCount(); } } return v; }
void terrain(mon::Rng& r, MLSGrid* g, const Geo& G) {
    double p = r.one({.6, .9, 1.0}), a = r.gauss() * .5, b = r.gauss() * .5, q = r.one({0.0, .1, .5}); int style = r.range(0, 2);
    for (int x = 0; x < G.w; x++) for (int y = 0; y < G.h; y++) { if (!r.chance(p)) continue; double z = style == 0 ? r.gauss() * .3 : style == 1 ? a * x * G.sx + b * y * G.sy : floor(r.real(0, 3)) * .3; int n = r.range(1, 3);
        for (int i = r.chance(q) ? r.range(1, 2) : 0; i-- > 0;) g->insertTail(x, y, P(z + r.one({-1.0, 1.0}) * r.real(3, 9), r.real(.01, .2)));
        if (r.chance(.1)) { P v(z, r.real(.01, .2), r.real(.1, 2), SurfacePatch::VERTICAL); g->insertHead(x, y, v); } else for (double s = r.real(.01, .2); n-- > 0;) g->updateCell(x, y, P(z, s)); }
}
}

SECTION(slope, 5000, 40000)
{
    auto& r = c.rng; Environment env; Geo G(r, 10); MLSGrid* g = G.mls(env); g->getConfig().updateModel = MLSConfiguration::SUM; g->getConfig().gapSize = .5; Grid<float>* out = new Grid<float>(G.w, G.h, G.sx, G.sy, G.ox, G.oy); env.attachItem(out);
    double thr = .25; bool dev = false; unsigned req = 0; MLSSlope* op; int win = 1;
    { // use memory that held other things before
        void* mem = ::operator new(sizeof(MLSSlope)); memset(mem, 0x77, sizeof(MLSSlope));
        switch (r.range(0, 2)) { case 0: op = new (mem) MLSSlope(); break; case 1: thr = r.real(.05, .6), dev = r.chance(.5); op = new (mem) MLSSlope(thr, dev); mon::seen("slope.ctor2"); break; default: thr = r.real(.05, .6), dev = r.chance(.5), req = r.range(0, 3); op = new (mem) MLSSlope(thr, dev, req); mon::seen("slope.ctor3"); }
    }
    env.attachItem(op); REQUIRE(op->getRequiredMeasurementsPerPatch() == req, "slope:required", "requires " << op->getRequiredMeasurementsPerPatch() << " measurements");
    if (r.chance(.3)) op->setRequiredMeasurementsPerPatch(req = r.range(0, 3)); if (r.chance(.3)) op->setWindowSize(win = r.range(1, 3));
    if (r.chance(.03)) { REQUIRE(mon::throws([&] { op->updateAll(); }), "slope:incomplete", "runs without input and output"); mon::seen("slope.incomplete"); }
    int bad = r.chance(.08) ? r.range(1, 4) : 0; if (bad) { Grid<float>* o = new Grid<float>(G.w + (bad == 1), G.h + (bad == 2), G.sx * (bad == 3 ? 2 : 1), G.sy * (bad == 4 ? 2 : 1), G.ox, G.oy); env.attachItem(o); MLSSlope* q = new MLSSlope; env.attachItem(q); env.addInput(q, g); env.addOutput(q, o); REQUIRE(mon::throws([&] { q->updateAll(); }), "slope:mismatch", "an output that differs in one dimension is accepted (" << bad << ")"); mon::seen("slope.refused"); }
    env.addInput(op, g); env.addOutput(op, out); const float UNK = -std::numeric_limits<float>::infinity();
    for (int round = r.range(1, 2); round-- > 0;) {
        g->clear(); terrain(r, g, G); std::vector<Top> t = tops(g, G); LOGOP("mls " << G << " threshold " << thr << " stdev " << dev << " required " << req << " window " << win);
        REQUIRE(op->updateAll(), "slope:return", "update failed"); auto& A = out->getGridData("mean_slope"); auto& S = out->getGridData("max_step"); auto& C = out->getGridData("corrected_max_step");
        for (const char* b : {"mean_slope", "max_step", "corrected_max_step"}) REQUIRE(out->getNoData(b).second && out->getNoData(b).first == UNK, "slope:nodata", "band " << b << " does not tell which cells are unknown");
        for (int x = 0; x < G.w; x++) for (int y = 0; y < G.h; y++) {
            const Top& m = t[y * G.w + x]; float a = A[y][x], s = S[y][x], k = C[y][x]; auto ok = [&](const Top& q) { return q.has && q.n >= req; };
            if (!x || !y || x == G.w - 1 || y == G.h - 1) { REQUIRE(a == UNK && s == UNK && k == UNK, "slope:border", "border cell " << x << "," << y << " is known"); mon::seen("slope.border"); continue; }
            if (!ok(m)) { REQUIRE(a == UNK && s == UNK && k == UNK, "slope:empty", "cell " << x << "," << y << " without surface has slope " << a << " step " << s << "," << k); mon::seen("slope.empty"); continue; }
            int cnt = 0; double step = 0; for (int i = -1; i <= 1; i++) for (int j = -1; j <= 1; j++) { if (!i && !j) continue; const Top& q = t[(y + j) * G.w + x + i]; if (!ok(q)) continue; cnt++; step = std::max(step, fabs(q.z - m.z) + (dev ? q.s + m.s : 0)); }
            if (cnt < 5) { REQUIRE(s == UNK && k == UNK, "slope:few", "cell " << x << "," << y << " with " << cnt << " neighbours has step " << s); mon::seen("slope.few"); }
            else { REQUIRE(fabs(s - step) < 1e-5 * (1 + step), "slope:step", "largest step of cell " << x << "," << y << " is " << s << " expected " << step); mon::seen("slope.step"); if (y == 1 || y == G.h - 2) mon::seen("slope.rim-step");
                if (step > thr * 1.0001) { REQUIRE(k == s, "slope:corrected", "corrected step of cell " << x << "," << y << " is " << k << " but the step " << s << " is above the threshold " << thr); mon::seen("slope.high"); }
                else if (step < thr * .9999) { REQUIRE(k <= s + 1e-5 && k >= -step - 1e-5, "slope:corrected", "corrected step of cell " << x << "," << y << " is " << k << ", step " << s); mon::seen("slope.low"); } }
            // plane through the surrounding surfaces
            int n = 0; bool unsure = false; Matrix<long double, 3, 3> M = Matrix<long double, 3, 3>::Zero(); Matrix<long double, 3, 1> v = Matrix<long double, 3, 1>::Zero(); M(2, 2) = 1;
            for (int i = -win; i <= win; i++) for (int j = -win; j <= win; j++) { int u = x + i, w = y + j; if ((!i && !j) || u < 0 || w < 0 || u >= G.w || w >= G.h) continue; const Top& q = t[w * G.w + u]; if (!q.has) continue; if (!ok(q)) unsure = true; n++;
                Matrix<long double, 3, 1> d(i * G.sx, j * G.sy, 1); M += d * d.transpose(); v += d * (long double)(q.z - m.z); }
            if (unsure) continue; if (n < 5) { REQUIRE(a == UNK, "slope:few-slope", "cell " << x << "," << y << " with " << n << " neighbours has slope " << a); continue; }
            Matrix<long double, 3, 3> N = M; N.row(0) /= G.sx; N.col(0) /= G.sx; N.row(1) /= G.sy; N.col(1) /= G.sy; if (fabs(double(N.determinant())) < .5) continue; // all in one line
            Matrix<long double, 3, 1> f = M.inverse() * v; double want = atan(sqrt(double(f.x() * f.x() + f.y() * f.y())));
            REQUIRE(fabs(a - want) < 1e-3, "slope:slope", "slope of cell " << x << "," << y << " is " << a << " expected " << want << " from " << n << " neighbours"); mon::seen("slope.slope"); if (win > 1) mon::seen("slope.window");
        }
    }
    mon::distinct(mon::hashStr(mon::currentLog()));
}

SECTION(togrid, 3000, 20000)
{
    auto& r = c.rng; std::unique_ptr<Environment> env(new Environment); Geo G(r, 9); MLSGrid* g = G.mls(*env); terrain(r, g, G); Grid<double>* out = r.chance(.5) ? static_cast<Grid<double>*>(new ElevationGrid(G.w, G.h, G.sx, G.sy, G.ox, G.oy)) : new Grid<double>(G.w, G.h, G.sx, G.sy, G.ox, G.oy); env->attachItem(out);
    MLSToGrid* op = new MLSToGrid; env->attachItem(op); if (r.chance(.05)) { REQUIRE(mon::throws([&] { op->updateAll(); }), "togrid:incomplete", "runs without input and output"); mon::seen("togrid.incomplete"); }
    bool named = r.chance(.5); std::string band = ElevationGrid::ELEVATION; env->addInput(op, g); if (named) op->setOutput(out, band = "top"); else env->addOutput(op, out);
    LOGOP("mls " << G << " band " << band); auto& D = out->getGridData(band); for (size_t k = 0; k < D.num_elements(); k++) D.data()[k] = 1000 + k;
    auto check = [&](MLSGrid* g, Grid<double>* o) { std::vector<Top> t = tops(g, G); auto& D = o->getGridData(band); for (int x = 0; x < G.w; x++) for (int y = 0; y < G.h; y++) { const Top& m = t[y * G.w + x]; double e = m.has ? m.z : 1000 + y * G.w + x; REQUIRE(D[y][x] == e, "togrid:cell", "cell " << x << "," << y << " is " << D[y][x] << " expected " << e); mon::seen(m.has ? "togrid.cell" : "togrid.empty"); } };
    REQUIRE(op->updateAll(), "togrid:return", "update failed"); check(g, out);
    if (r.chance(.08)) { int bad = r.range(1, 4); Grid<double>* o = new Grid<double>(G.w + (bad == 1), G.h + (bad == 2), G.sx * (bad == 3 ? 2 : 1), G.sy * (bad == 4 ? 2 : 1), G.ox, G.oy); env->attachItem(o); MLSToGrid* q = new MLSToGrid; env->attachItem(q); env->addInput(q, g); env->addOutput(q, o); REQUIRE(mon::throws([&] { q->updateAll(); }), "togrid:mismatch", "an output that differs in one dimension is accepted (" << bad << ")"); mon::seen("togrid.refused"); env->detachItem(q); }
    else if (r.chance(.1)) { Scratch d; env->serialize(d.d); LOGOP("scene"); std::unique_ptr<Environment> e2(Environment::unserialize(d.d)); MLSToGrid::Ptr q = e2->getItem<MLSToGrid>(op->getUniqueId()); MLSGrid::Ptr g2 = e2->getItem<MLSGrid>(g->getUniqueId()); boost::intrusive_ptr<Grid<double>> o2 = e2->getItem<Grid<double>>(out->getUniqueId()); REQUIRE(q && g2 && o2, "togrid:scene", "items are lost");
        auto& E = o2->getGridData(band); for (size_t k = 0; k < E.num_elements(); k++) E.data()[k] = 1000 + k; REQUIRE(q->updateAll(), "togrid:scene", "update failed"); check(g2.get(), o2.get()); mon::seen("togrid.scene"); }
    mon::distinct(mon::hashStr(mon::currentLog()) + tops(g, G)[0].z * 1e6);
}

SECTION(tocloud, 3000, 20000)
{
    auto& r = c.rng; Environment env; Geo G(r, 7); MLSGrid* g = G.mls(env); Frame gf(r, env, true), pf(r, env, true); g->setFrameNode(gf.node); terrain(r, g, G); Pointcloud* pc = new Pointcloud; env.attachItem(pc); if (r.chance(.8)) pc->setFrameNode(pf.node); else pf.toRoot = Affine3d::Identity();
    for (int k = r.range(0, 4); k-- > 0;) { P p(r.real(-3, 3), .1, r.real(.1, 2), r.chance(.5) ? SurfacePatch::NEGATIVE : SurfacePatch::VERTICAL); g->insertHead(r.u(G.w), r.u(G.h), p); }
    for (int k = r.range(0, 5); k-- > 0;) pc->vertices.push_back(Vector3d::Random()); if (r.chance(.3)) pc->getVertexData<double>(Pointcloud::VERTEX_VARIANCE).resize(pc->vertices.size());
    MLSToPointCloud* op = new MLSToPointCloud; env.attachItem(op); if (r.chance(.05)) { REQUIRE(mon::throws([&] { op->updateAll(); }), "tocloud:incomplete", "runs without input and output"); mon::seen("tocloud.incomplete"); } op->setInput(g); op->setOutput(pc);
    LOGOP("mls " << G); for (int rounds = r.range(1, 2); rounds-- > 0;) REQUIRE(op->updateAll(), "tocloud:return", "update failed");
    Affine3d T = pf.toRoot.inverse() * gf.toRoot; size_t used = 0; std::vector<Vector3d> pts = pc->vertices; double step = (G.sx + G.sy) / 2; if (pc->hasData(Pointcloud::VERTEX_VARIANCE)) REQUIRE(pc->getVertexData<double>(Pointcloud::VERTEX_VARIANCE).empty(), "tocloud:stale", "data of removed points remains");
    std::vector<bool> taken(pts.size(), false); auto near = [&](const Vector3d& p, double tol) { for (size_t i = 0; i < pts.size(); i++) if (!taken[i] && (pts[i] - p).norm() < tol) { taken[i] = true; used++; return true; } return false; };
    for (int x = 0; x < G.w; x++) for (int y = 0; y < G.h; y++) for (MLSGrid::iterator it = g->beginCell(x, y); it != g->endCell(); it++) {
        Vector3d q; q << G.at(x, y), it->mean;
        if (it->isHorizontal()) { REQUIRE(near(T * q, 1e-5), "tocloud:patch", "patch of cell " << x << "," << y << " at " << it->mean << " has no point"); mon::seen("tocloud.patch"); }
        else if (it->isVertical()) { double lo = it->mean - it->height; int n = 0; for (double z = lo; z <= it->mean - 1e-4; z += step, n++) { q.z() = z; REQUIRE(near(T * q, 1e-4), "tocloud:wall", "vertical patch of cell " << x << "," << y << " from " << lo << " to " << it->mean << " has no point at " << z); }
            q.z() = lo + n * step; if (q.z() < it->mean + 1e-4) near(T * q, 1e-4); mon::seen("tocloud.wall"); }
        else mon::seen("tocloud.negative");
    }
    REQUIRE(used == pts.size(), "tocloud:stray", pts.size() - used << " points belong to no patch"); mon::distinct(mon::hashStr(mon::currentLog()) + pts.size());
}

template <class F> static void frommls(mon::Ctx& c) {
    auto& r = c.rng; std::unique_ptr<Environment> env(new Environment); Geo G(r, 9), H(r, 9); Frame gf(r, *env, false), hf(r, *env, false); bool same = r.chance(.3); if (same) { H = G; hf = gf; mon::seen("tomls.same-geometry"); }
    Affine3d T = gf.toRoot.inverse() * hf.toRoot; // from the surface to the grid
    if (!same && r.chance(.7)) { Vector2d m = G.at(0, 0, r.real(0, G.w), r.real(0, G.h)); Vector3d at = T.inverse() * Vector3d(m.x(), m.y(), 0); H.ox = at.x() - r.real(0, H.w) * H.sx; H.oy = at.y() - r.real(0, H.h) * H.sy; }
    Grid<F>* g = new Grid<F>(G.w, G.h, G.sx, G.sy, G.ox, G.oy); env->attachItem(g); g->setFrameNode(gf.node); MLSGrid* m = H.mls(*env); m->setFrameNode(hf.node); GridFloatToMLS* op = new GridFloatToMLS; env->attachItem(op);
    if (r.chance(.05)) { REQUIRE(mon::throws([&] { op->updateAll(); }), "tomls:incomplete", "runs without input and output"); mon::seen("tomls.incomplete"); }
    if (r.chance(.05)) { Grid<unsigned char>* b = new Grid<unsigned char>(2, 2, 1, 1, 0, 0); env->attachItem(b); REQUIRE(mon::throws([&] { op->setInput(b); }), "tomls:type", "a grid of bytes is accepted"); mon::seen("tomls.refused"); }
    bool named = r.chance(.5); std::string band = named ? "height" : ""; if (named && r.chance(.5)) g->getGridData("other"); auto& D = named ? g->getGridData(band) : g->getGridData(); for (size_t k = 0; k < D.num_elements(); k++) D.data()[k] = r.real(-5, 5);
    if (r.chance(.5)) op->setInput(g, band); else op->setInput(static_cast<GridBase*>(g), band); op->setOutput(m); if (r.chance(.05)) REQUIRE(mon::throws([&] { op->setOutput(m); }), "tomls:outputs", "two outputs are accepted");
    LOGOP("grid " << G << " surface " << H << " band " << band << " frame at " << T.translation().transpose());
    auto check = [&](MLSGrid* m) { for (int x = 0; x < H.w; x++) for (int y = 0; y < H.h; y++) {
        Vector3d q; q << H.at(x, y), 0; q = T * q; double u = (q.x() - G.ox) / G.sx, v = (q.y() - G.oy) / G.sy; if (doubt(u) || doubt(v)) continue; bool in = u >= 0 && v >= 0 && u < G.w && v < G.h; std::vector<P> ps; for (MLSGrid::iterator it = m->beginCell(x, y); it != m->endCell(); it++) ps.push_back(*it);
        REQUIRE(ps.size() == size_t(in), "tomls:patches", "cell " << x << "," << y << " has " << ps.size() << " patches, the grid " << (in ? "covers" : "does not cover") << " it"); if (!in) { mon::seen("tomls.outside"); continue; }
        double z = D[int(v)][int(u)] - T.translation().z(); REQUIRE(ps[0].isHorizontal() && fabs(ps[0].mean - z) < 1e-5 * (1 + fabs(z)), "tomls:height", "cell " << x << "," << y << " is at " << ps[0].mean << " expected " << z); mon::seen("tomls.cell"); } };
    for (int n = r.range(1, 2); n-- > 0;) { REQUIRE(op->updateAll(), "tomls:return", "update failed"); check(m); }
    if (r.chance(.08)) { Scratch d; env->serialize(d.d); LOGOP("scene"); std::unique_ptr<Environment> e2(Environment::unserialize(d.d)); GridFloatToMLS::Ptr q = e2->getItem<GridFloatToMLS>(op->getUniqueId()); MLSGrid::Ptr m2 = e2->getItem<MLSGrid>(m->getUniqueId()); REQUIRE(q && m2, "tomls:scene", "items are lost"); m2->clear(); REQUIRE(q->updateAll(), "tomls:scene", "update failed"); check(m2.get()); mon::seen("tomls.scene"); }
    mon::distinct(mon::hashStr(mon::currentLog()));
}
SECTION(tomls, 2000, 15000) { frommls<float>(c); }
SECTION(tomls_double, 2000, 15000) { frommls<double>(c); }
