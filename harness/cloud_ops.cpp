// P33: point clouds cut, merged, recovered from distance images, and scans turned into meshes.
#include "mon.hpp"
#include <envire/Core.hpp>
#include <envire/core/Serialization.hpp>
#include <envire/maps/ElevationGrid.hpp>
#include <envire/maps/Grids.hpp>
#include <envire/maps/LaserScan.hpp>
#include <envire/maps/TriMesh.hpp>
#include <envire/operators/CutPointcloud.hpp>
#include <envire/operators/DistanceGridToPointcloud.hpp>
#include <envire/operators/MergePointcloud.hpp>
#include <envire/operators/ScanMeshing.hpp>
#include <boost/filesystem.hpp>
#include <boost/tuple/tuple_comparison.hpp>
#include <memory>
using namespace envire;
using namespace Eigen;

namespace {
struct Scratch { std::string d; Scratch() { char b[] = "/tmp/verif.cops.XXXXXX"; if (!mkdtemp(b)) throw std::runtime_error("mkdtemp"); d = b; } ~Scratch() { boost::system::error_code e; boost::filesystem::remove_all(d, e); } };
Affine3d pose(mon::Rng& r) {
    Affine3d t = Affine3d::Identity(); if (r.chance(.2)) return t; t.translation() = Vector3d(r.real(-4, 4), r.real(-4, 4), r.real(-4, 4)); if (r.chance(.8)) t.linear() = AngleAxisd(r.real(-3, 3), Vector3d(r.gauss(), r.gauss(), r.gauss() + 1e-3).normalized()).toRotationMatrix(); return t;
}
struct Frame { FrameNode* node; Affine3d toRoot; Frame(mon::Rng& r, Environment& env) : node(env.getRootNode()), toRoot(Affine3d::Identity()) {
    for (int n = r.range(0, 3); n-- > 0;) { FrameNode* f = new FrameNode; Affine3d t = pose(r); f->setTransform(t); env.attachItem(f); node->addChild(f); node = f; toRoot = toRoot * t; } } };
// a cloud with every kind of vertex data; the data of vertex i names i
enum { NORMAL = 1, COLOR = 2, ATTR = 4, VAR = 8 };
struct Row { Vector3d p, n, c; int a; double v; };
std::vector<Row> rows(mon::Rng& r, int n) { std::vector<Row> v(n); for (auto& q : v) { q.p = Vector3d(r.real(-3, 3), r.real(-3, 3), r.real(-3, 3)); q.n = Vector3d(r.gauss(), r.gauss(), r.gauss() + 1e-3).normalized(); q.c = Vector3d(r.real(0, 1), r.real(0, 1), r.real(0, 1)); q.a = r.range(0, 9); q.v = r.real(0, 1); } return v; }
template <class V> std::vector<V>& dat(Pointcloud* pc, const std::string& k) { return pc->getVertexData<V>(k); }
void put(Pointcloud* pc, const std::vector<Row>& v, int kinds) {
    pc->vertices.reserve(v.size()); for (auto& q : v) pc->vertices.push_back(q.p);
    if (kinds & NORMAL) { auto& d = dat<Vector3d>(pc, Pointcloud::VERTEX_NORMAL); for (auto& q : v) d.push_back(q.n); }
    if (kinds & COLOR) { auto& d = dat<Vector3d>(pc, Pointcloud::VERTEX_COLOR); for (auto& q : v) d.push_back(q.c); }
    if (kinds & ATTR) { auto& d = dat<Pointcloud::vertex_attr>(pc, Pointcloud::VERTEX_ATTRIBUTES); for (auto& q : v) d.push_back(q.a); }
    if (kinds & VAR) { auto& d = dat<double>(pc, Pointcloud::VERTEX_VARIANCE); for (auto& q : v) d.push_back(q.v); }
}
// the cloud holds exactly these rows, moved
void same(Pointcloud* pc, const std::vector<Row>& v, int kinds, const std::string& key) {
    REQUIRE(pc->vertices.size() == v.size(), key + ":size", "cloud has " << pc->vertices.size() << " vertices, expected " << v.size());
    auto full = [&](int k, const std::string& name, size_t n) { if (kinds & k) REQUIRE(pc->hasData(name) && n == v.size(), key + ":data", name << " of " << n << " vertices, expected " << v.size()); else REQUIRE(!n, key + ":stray", name << " of " << n << " vertices from nowhere"); };
    full(NORMAL, Pointcloud::VERTEX_NORMAL, pc->hasData(Pointcloud::VERTEX_NORMAL) ? dat<Vector3d>(pc, Pointcloud::VERTEX_NORMAL).size() : 0); full(COLOR, Pointcloud::VERTEX_COLOR, pc->hasData(Pointcloud::VERTEX_COLOR) ? dat<Vector3d>(pc, Pointcloud::VERTEX_COLOR).size() : 0);
    full(ATTR, Pointcloud::VERTEX_ATTRIBUTES, pc->hasData(Pointcloud::VERTEX_ATTRIBUTES) ? dat<Pointcloud::vertex_attr>(pc, Pointcloud::VERTEX_ATTRIBUTES).size() : 0); full(VAR, Pointcloud::VERTEX_VARIANCE, pc->hasData(Pointcloud::VERTEX_VARIANCE) ? dat<double>(pc, Pointcloud::VERTEX_VARIANCE).size() : 0);
    for (size_t i = 0; i < v.size(); i++) {
        REQUIRE((pc->vertices[i] - v[i].p).norm() < 1e-8, key + ":vertex", "vertex " << i << " is at " << pc->vertices[i].transpose() << " expected " << v[i].p.transpose());
        if (kinds & NORMAL) REQUIRE((dat<Vector3d>(pc, Pointcloud::VERTEX_NORMAL)[i] - v[i].n).norm() < 1e-8, key + ":normal", "normal of vertex " << i << " is wrong"); if (kinds & COLOR) REQUIRE(dat<Vector3d>(pc, Pointcloud::VERTEX_COLOR)[i] == v[i].c, key + ":color", "color of vertex " << i << " is wrong");
        if (kinds & ATTR) REQUIRE(dat<Pointcloud::vertex_attr>(pc, Pointcloud::VERTEX_ATTRIBUTES)[i] == v[i].a, key + ":attr", "attribute of vertex " << i << " is wrong"); if (kinds & VAR) REQUIRE(dat<double>(pc, Pointcloud::VERTEX_VARIANCE)[i] == v[i].v, key + ":variance", "variance of vertex " << i << " is wrong");
    }
}
Row moved(const Affine3d& T, Row q) { q.p = T * q.p; q.n = T.linear() * q.n; return q; }
}

SECTION(cut, 4000, 30000)
{
    auto& r = c.rng; Environment env; Frame fi(r, env), fo(r, env); Pointcloud* in = r.chance(.3) ? new TriMesh : new Pointcloud; Pointcloud* out = new Pointcloud; env.attachItem(in); env.attachItem(out); in->setFrameNode(fi.node); out->setFrameNode(fo.node); Affine3d T = fo.toRoot.inverse() * fi.toRoot;
    CutPointcloud* op = new CutPointcloud; env.attachItem(op); if (r.chance(.05)) { REQUIRE(mon::throws([&] { op->updateAll(); }), "cut:incomplete", "runs without clouds"); mon::seen("cut.incomplete"); }
    if (r.chance(.03)) { op->addInput(in); op->addOutput(in); std::vector<Vector3d> v = in->vertices; REQUIRE(mon::throws([&] { op->updateAll(); }), "cut:same", "one cloud is cut in place"); REQUIRE(in->vertices == v, "cut:same", "the cloud was changed"); mon::seen("cut.same"); return; }
    op->addInput(in); op->addOutput(out); if (r.chance(.05)) { Pointcloud* x = new Pointcloud; env.attachItem(x); REQUIRE(mon::throws([&] { op->addInput(x); }) && mon::throws([&] { op->addOutput(x); }), "cut:several", "several inputs or outputs are accepted"); mon::seen("cut.refused"); }
    std::vector<ExclusionBox> boxes(r.range(0, 4)); std::set<ExclusionBox*> active;
    for (auto& b : boxes) { Vector3d a(r.real(-3, 3), r.real(-3, 3), r.real(-3, 3)), d(r.real(-3, 3), r.real(-3, 3), r.real(-3, 3)); if (r.chance(.4)) d = -a.cwiseSign() * 6; b.box = AlignedBox<double, 3>(a.cwiseMin(d), a.cwiseMax(d)); b.exclude = r.chance(.6); if (r.chance(.1)) b.box.setEmpty(); }
    int kinds = r.u(16), old = r.u(16); put(out, rows(r, r.range(0, 9)), old);
    for (int round = r.range(1, 3); round-- > 0;) {
        in->clear(); std::vector<Row> v = rows(r, r.range(0, 80)), want; put(in, v, kinds);
        for (auto& b : boxes) { if (r.chance(.5)) { op->addBox(&b); if (r.chance(.1)) op->addBox(&b); active.insert(&b); } else { op->removeBox(&b); active.erase(&b); } }
        LOGOP("cloud of " << v.size() << " data " << kinds << " before " << old << " boxes " << active.size());
        for (auto& q : v) { bool keep = true; for (auto* b : active) { bool inside = (q.p - b->box.min()).minCoeff() >= 0 && (b->box.max() - q.p).minCoeff() >= 0; if (inside == b->exclude) keep = false; } if (keep) want.push_back(moved(T, q)); mon::seen(keep ? "cut.kept" : "cut.removed"); }
        REQUIRE(op->updateAll(), "cut:return", "update failed"); same(out, want, kinds, "cut"); same(in, v, kinds, "cut-input"); if (kinds == ATTR || kinds == (ATTR | NORMAL)) mon::seen("cut.attributes");
    }
    if (r.chance(.15) && in->vertices.size() && (kinds & (NORMAL | VAR))) { // data for the first vertices only
        size_t n = in->vertices.size(), k = r.u(n), kn = 0, j = 0; if (kinds & NORMAL) { auto& d = dat<Vector3d>(in, Pointcloud::VERTEX_NORMAL); d.resize(k); d.shrink_to_fit(); } if (kinds & VAR) { auto& d = dat<double>(in, Pointcloud::VERTEX_VARIANCE); d.resize(k); d.shrink_to_fit(); } LOGOP("data of " << k << " of " << n << " vertices only");
        REQUIRE(op->updateAll(), "cut:return", "update failed"); std::vector<Vector3d> N; std::vector<double> V; for (size_t i = 0; i < n; i++) { bool keep = true; const Vector3d& p = in->vertices[i]; for (auto* b : active) { bool inside = (p - b->box.min()).minCoeff() >= 0 && (b->box.max() - p).minCoeff() >= 0; if (inside == b->exclude) keep = false; } if (!keep) continue; j++; if (i < k) { kn++; if (kinds & NORMAL) N.push_back(T.linear() * dat<Vector3d>(in, Pointcloud::VERTEX_NORMAL)[i]); if (kinds & VAR) V.push_back(dat<double>(in, Pointcloud::VERTEX_VARIANCE)[i]); } }
        REQUIRE(out->vertices.size() == j, "cut:short", out->vertices.size() << " vertices, expected " << j); if (kinds & NORMAL) { auto& d = dat<Vector3d>(out, Pointcloud::VERTEX_NORMAL); REQUIRE(d.size() == kn, "cut:short", d.size() << " normals, expected " << kn); for (size_t i = 0; i < kn; i++) REQUIRE((d[i] - N[i]).norm() < 1e-8, "cut:short", "normal " << i); } if (kinds & VAR) REQUIRE(dat<double>(out, Pointcloud::VERTEX_VARIANCE) == V, "cut:short", "variances"); mon::seen("cut.short"); }
    mon::distinct(mon::hashStr(mon::currentLog()) + in->vertices.size() + kinds * 1000);
}

SECTION(merge, 3000, 25000)
{
    auto& r = c.rng; Environment env; Frame fo(r, env); Pointcloud* out = r.chance(.3) ? new TriMesh : new Pointcloud; env.attachItem(out); out->setFrameNode(fo.node); MergePointcloud* op = new MergePointcloud; env.attachItem(op);
    if (r.chance(.05)) { REQUIRE(mon::throws([&] { op->updateAll(); }), "merge:incomplete", "runs without output"); mon::seen("merge.incomplete"); }
    bool keep = r.chance(.4); if (keep || r.chance(.2)) op->setClearOutput(!keep); op->addOutput(out); if (r.chance(.05)) { Pointcloud* x = new Pointcloud; env.attachItem(x); REQUIRE(mon::throws([&] { op->addOutput(x); }), "merge:several", "several outputs are accepted"); }
    int kinds = r.u(4); std::vector<Row> have = rows(r, r.range(0, 9)), before = have; put(out, have, kinds); struct In { Pointcloud* pc; std::vector<Row> v; Affine3d T; int kinds; }; std::vector<In> ins;
    for (int n = r.range(0, 4); n-- > 0;) { Frame f(r, env); Pointcloud* pc = new Pointcloud; env.attachItem(pc); pc->setFrameNode(f.node); In i{pc, rows(r, r.range(0, 40)), fo.toRoot.inverse() * f.toRoot, kinds}; put(pc, i.v, kinds); op->addInput(pc); ins.push_back(i); }
    LOGOP("clouds " << ins.size() << " data " << kinds << (keep ? " appended to " : " replacing ") << have.size()); bool bad = false;
    if (ins.size() > 1 && kinds && r.chance(.2)) { In& i = ins[r.u(ins.size())]; int lost = kinds == 3 ? r.range(1, 2) : kinds; std::string name = lost == NORMAL ? Pointcloud::VERTEX_NORMAL : Pointcloud::VERTEX_COLOR; if (r.chance(.5) && i.v.size()) { dat<Vector3d>(i.pc, name).pop_back(); } else i.pc->removeData(name); bad = true; }
    else if (r.chance(.06)) { if (r.chance(.5)) op->addInput(out); else { ElevationGrid* e = new ElevationGrid(2, 2, 1, 1, 0, 0); env.attachItem(e); env.addInput(op, e); } bad = true; }
    if (bad) { REQUIRE(mon::throws([&] { op->updateAll(); }), "merge:unfit", "unfit inputs are merged"); same(out, before, kinds, "merge-refused"); mon::seen("merge.refused"); return; }
    for (int round = r.range(1, 2); round-- > 0;) { if (!keep) have.clear(); for (auto& i : ins) for (auto& q : i.v) have.push_back(moved(i.T, q)); REQUIRE(op->updateAll(), "merge:return", "update failed"); same(out, have, ins.empty() && !keep ? 0 : kinds, "merge"); }
    for (auto& i : ins) same(i.pc, i.v, kinds, "merge-input"); mon::seen(keep ? "merge.append" : "merge.replace"); if (kinds) mon::seen("merge.data"); if (ins.size() > 1) mon::seen("merge.several"); mon::distinct(mon::hashStr(mon::currentLog()) + have.size());
}

SECTION(distance, 3000, 25000)
{
    auto& r = c.rng; Environment env; int w = r.range(1, 12), h = r.range(1, 12); double s = r.real(.01, .2), ox = r.real(-1, 1), oy = r.real(-1, 1); DistanceGrid* g = new DistanceGrid(w, h, s, s, ox, oy); env.attachItem(g); Frame fi(r, env), fo(r, env); g->setFrameNode(fi.node); Affine3d T = fo.toRoot.inverse() * fi.toRoot;
    Pointcloud* pc = new Pointcloud; env.attachItem(pc); pc->setFrameNode(fo.node); DistanceGridToPointcloud* op = new DistanceGridToPointcloud; env.attachItem(op); env.addOutput(op, pc); double uf = .1, md = 10; if (r.chance(.5)) op->setUncertaintyFactor(uf = r.real(0, .5)); if (r.chance(.5)) op->setMaxDistance(md = r.real(1, 8));
    if (r.chance(.05)) { REQUIRE(mon::throws([&] { op->updateAll(); }), "distance:incomplete", "runs without distances"); mon::seen("distance.incomplete"); }
    ImageRGB24* im = NULL; if (r.chance(.5)) { bool bad = r.chance(.15); im = new ImageRGB24(w + (bad && r.chance(.5) ? 1 : 0), h, s, s, ox, oy); if (bad && im->getWidth() == size_t(w)) im = new ImageRGB24(std::max(1, w - 1), h + (w == 1), s, s, ox, oy); env.attachItem(im); if (r.chance(.5)) env.addInput(op, im), env.addInput(op, g); else env.addInput(op, g), env.addInput(op, im);
        if (bad) { REQUIRE(mon::throws([&] { op->updateAll(); }), "distance:image", "an image of another size is accepted"); mon::seen("distance.refused"); return; } }
    else env.addInput(op, g);
    int old = r.u(16); put(pc, rows(r, r.range(0, 9)), old); LOGOP("grid " << w << "x" << h << " scale " << s << " image " << (im != NULL) << " factor " << uf << " limit " << md);
    for (int round = r.range(1, 2); round-- > 0;) {
        auto& D = g->getGridData(DistanceGrid::DISTANCE); std::vector<Row> want; for (size_t i = 0; i < D.num_elements(); i++) D.data()[i] = r.chance(.1) ? r.one({0.0f, INFINITY, NAN, 1e6f, -INFINITY}) : float(r.real(.1, 9));
        if (im) for (const std::string* b : {&ImageRGB24::R, &ImageRGB24::G, &ImageRGB24::B}) { auto& I = im->getGridData(*b); for (size_t i = 0; i < I.num_elements(); i++) I.data()[i] = r.u(256); }
        for (int x = 0; x < w; x++) for (int y = 0; y < h; y++) { float d = D[y][x]; if (!(d > 0) || !(d < md)) { mon::seen("distance.none"); continue; } Row q; q.p = T * Vector3d((ox + (x + .5) * s) * d, (oy + (y + .5) * s) * d, d); q.v = d * uf; if (im) q.c = Vector3d(im->getGridData(ImageRGB24::R)[y][x], im->getGridData(ImageRGB24::G)[y][x], im->getGridData(ImageRGB24::B)[y][x]) * (1.0 / 255.0); want.push_back(q); mon::seen("distance.point"); }
        REQUIRE(op->updateAll(), "distance:return", "update failed"); REQUIRE(pc->vertices.size() == want.size(), "distance:size", pc->vertices.size() << " points, expected " << want.size()); auto& V = dat<double>(pc, Pointcloud::VERTEX_VARIANCE); REQUIRE(V.size() == want.size(), "distance:size", V.size() << " variances, expected " << want.size());
        if (im) REQUIRE(dat<Vector3d>(pc, Pointcloud::VERTEX_COLOR).size() == want.size(), "distance:size", "wrong number of colors");
        for (const std::string* k : {&Pointcloud::VERTEX_NORMAL, &Pointcloud::VERTEX_COLOR}) if (pc->hasData(*k) && !(im && k == &Pointcloud::VERTEX_COLOR)) REQUIRE(dat<Vector3d>(pc, *k).empty(), "distance:stale", "data of earlier points remains");
        std::vector<bool> taken(want.size()); // the order of the points is free
        for (size_t i = 0; i < want.size(); i++) { bool ok = false; for (size_t k = i, n = 0; n < want.size() && !ok; n++, k = (k + 1) % want.size()) if (!taken[k] && (pc->vertices[k] - want[i].p).norm() < 1e-5 && fabs(V[k] - want[i].v) < 1e-6 && (!im || (dat<Vector3d>(pc, Pointcloud::VERTEX_COLOR)[k] - want[i].c).norm() < 1e-9)) taken[k] = ok = true; REQUIRE(ok, "distance:point", "no point at " << want[i].p.transpose() << " with variance " << want[i].v); }
        if (im) mon::seen("distance.color");
    }
    mon::distinct(mon::hashStr(mon::currentLog()) + pc->vertices.size());
}

SECTION(mesh, 4000, 30000)
{
    auto& r = c.rng; std::unique_ptr<Environment> env(new Environment); LaserScan* scan = new LaserScan; TriMesh* mesh = new TriMesh; env->attachItem(scan); env->attachItem(mesh); ScanMeshing* op = new ScanMeshing; env->attachItem(op);
    if (r.chance(.05)) { REQUIRE(mon::throws([&] { op->updateAll(); }), "mesh:incomplete", "runs without scan and mesh"); mon::seen("mesh.incomplete"); }
    op->addInput(scan); op->addOutput(mesh); if (r.chance(.05)) { TriMesh* x = new TriMesh; env->attachItem(x); REQUIRE(mon::throws([&] { op->addOutput(x); }), "mesh:several", "several outputs are accepted"); }
    double el = .5, mn = .1, mx = 1e9, rs = 10000; bool rem = r.chance(.4); if (r.chance(.6)) op->setMaxEdgeLength(el = r.real(.05, 2)); if (r.chance(.4)) op->setMinRange(mn = r.real(.05, 2)); bool far = r.chance(.4); if (far) op->setMaxRange(mx = r.real(2, 6)); if (r.chance(.4)) op->setRemissionScaleFactor(rs = r.real(100, 30000)); if (rem) op->useRemission(true); if (rem && r.chance(.3)) op->setExtractMarkers(true), op->setRemissionMarkerThreshold(1000000);
    scan->x_forward = r.chance(.5); scan->delta_psi = r.real(.005, .1); scan->origin_psi = r.real(-2.2, .5); scan->origin_phi = r.real(-1, 1); scan->center_offset = r.chance(.5) ? Vector3d::Zero().eval() : Vector3d(r.real(-.3, .3), r.real(-.3, .3), r.real(-.3, .3));
    bool scene = r.chance(.1) && !far && !rem;
    for (int round = r.range(1, 2); round-- > 0;) {
        int lines = r.range(0, 8), len = r.range(1, 14); bool ragged = r.chance(.3), partly = rem && r.chance(.2); scan->lines.clear(); scan->points_per_line = len; double phi = 0, dphi = r.real(.005, .1), base = r.real(.5, 5), rough = r.one({.0, .01, .1, .6}); bool anyRem = false, allRem = true;
        for (int l = 0; l < lines; l++) { LaserScan::scanline_t s; s.delta_phi = phi; phi += dphi; int n = ragged ? r.range(0, 16) : len; for (int i = 0; i < n; i++) s.ranges.push_back(r.chance(.03) ? r.one({0u, 50u, 20000u}) : unsigned(1000 * base * (1 + rough * r.real(-.5, .5)))); bool hr = !partly || r.chance(.5); if (hr) for (int i = 0; i < n; i++) s.remissions.push_back(r.u(40000)); if (hr || !n) anyRem |= n > 0; else allRem = false; scan->lines.push_back(s); }
        LOGOP("scan of " << lines << " lines of " << (ragged ? -1 : len) << " points, step " << scan->delta_psi << " by " << dphi << " from " << scan->origin_psi << "," << scan->origin_phi << " range " << base << " rough " << rough << " edge " << el << " limits " << mn << ".." << mx << " remission " << rem << partly << " forward " << scan->x_forward);
        // expected points
        struct Q { int l, i; Vector3d p; double range, psi; unsigned remission; bool edge; int state; }; std::vector<std::vector<Q>> grid(lines); bool unsure = false; // state 0 absent 1 present
        for (int l = 0; l < lines; l++) { auto& ln = scan->lines[l]; double psi = scan->origin_psi, ph = double(scan->origin_phi) + ln.delta_phi, prev = M_PI / 2; int n = ln.ranges.size();
            for (int i = 0; i < n; i++, psi += scan->delta_psi) {
                double d = ln.ranges[i] / 1000.0, e = M_PI / 2; if (i + 1 < n) { double d2 = ln.ranges[i + 1] / 1000.0, cc = sqrt(d * d + d2 * d2 - 2 * d * d2 * cos(2.0 * scan->delta_psi)); e = acos(std::max(-1.0, std::min(1.0, (d * d - d2 * d2 + cc * cc) / (2 * d * cc)))); if (d == 0 || d2 == 0) e = NAN; }
                double lim = 85.0 / 180 * M_PI, a1 = fabs(e - M_PI / 2), a0 = fabs(prev - M_PI / 2); Q q; q.l = l; q.i = i; q.range = d; q.psi = psi; q.remission = ln.remissions.size() == ln.ranges.size() ? ln.remissions[i] : 0; q.edge = !l || !i || l == lines - 1 || i == n - 1;
                bool inRange = d > mn && d < mx; if (fabs(d - mn) < 1e-4 || fabs(d - mx) < 1e-4) unsure = true; bool nan = std::isnan(e) || std::isnan(prev); if (inRange && (nan || fabs(a1 - lim) < 1e-2 || fabs(a0 - lim) < 1e-2)) unsure = true; // an absent neighbour, or at the limit of the angle
                q.state = inRange && !nan && a1 < lim && a0 < lim; if (inRange && !q.state && !nan) mon::seen("mesh.ghost"); prev = e;
                Vector3d p = scan->x_forward ? Vector3d(cos(ph) * cos(psi), sin(psi), sin(ph) * cos(psi)) : Vector3d(-sin(psi), cos(ph) * cos(psi), sin(ph) * cos(psi)); const Vector3d& o = scan->center_offset; q.p = p * d + Vector3d(o.x(), cos(ph) * o.y() - sin(ph) * o.z(), sin(ph) * o.y() + cos(ph) * o.z()); grid[l].push_back(q);
            } }
        REQUIRE(op->updateAll(), "mesh:return", "update failed");
        std::vector<const Q*> want; std::map<std::pair<int, int>, int> index; for (auto& ln : grid) for (auto& q : ln) if (q.state) { index[{q.l, q.i}] = want.size(); want.push_back(&q); }
        size_t n = mesh->vertices.size(); auto& attr = dat<Pointcloud::vertex_attr>(mesh, Pointcloud::VERTEX_ATTRIBUTES); auto& var = dat<double>(mesh, Pointcloud::VERTEX_VARIANCE); REQUIRE(attr.size() == n && var.size() == n && dat<Vector3d>(mesh, Pointcloud::VERTEX_NORMAL).size() == n, "mesh:data", n << " vertices, but " << attr.size() << " attributes, " << var.size() << " variances and " << dat<Vector3d>(mesh, Pointcloud::VERTEX_NORMAL).size() << " normals");
        if (mesh->hasData(Pointcloud::VERTEX_COLOR)) REQUIRE(dat<Vector3d>(mesh, Pointcloud::VERTEX_COLOR).size() == n && rem, "mesh:color", "colors of " << dat<Vector3d>(mesh, Pointcloud::VERTEX_COLOR).size() << " of " << n << " vertices"); else REQUIRE(!rem || !anyRem || !allRem || !n, "mesh:color", "the remissions are lost");
        for (auto& f : mesh->faces) for (int k : {f.get<0>(), f.get<1>(), f.get<2>()}) REQUIRE(k >= 0 && size_t(k) < n, "mesh:face-index", "a face names vertex " << k << " of " << n);
        if (partly && !allRem) mon::seen("mesh.partly"); if (unsure) { mon::seen("mesh.unsure"); continue; }
        REQUIRE(n == want.size(), "mesh:size", n << " vertices, expected " << want.size());
        for (size_t k = 0; k < n; k++) { const Q& q = *want[k]; REQUIRE((mesh->vertices[k] - q.p).norm() < 1e-4 * (1 + q.range), "mesh:vertex", "vertex " << k << " is at " << mesh->vertices[k].transpose() << " expected " << q.p.transpose()); REQUIRE(bool(attr[k] & (1 << Pointcloud::SCAN_EDGE)) == q.edge, "mesh:edge", "vertex " << k << " is " << (q.edge ? "" : "not ") << "at the edge of the scan"); double sg = std::min(.01 * q.range, .02); REQUIRE(fabs(var[k] - sg * sg) < 1e-6, "mesh:variance", "variance of vertex " << k << " is " << var[k]);
            if (mesh->hasData(Pointcloud::VERTEX_COLOR)) REQUIRE((dat<Vector3d>(mesh, Pointcloud::VERTEX_COLOR)[k] - Vector3d::Constant(std::min(1.0, q.remission / rs))).norm() < 1e-5, "mesh:color", "color of vertex " << k << " is wrong"); mon::seen("mesh.vertex"); if (q.edge) mon::seen("mesh.edge"); if (mesh->hasData(Pointcloud::VERTEX_COLOR)) mon::seen("mesh.color"); }
        // faces: two for every square of four near points, one for three
        std::map<std::set<int>, std::vector<int>> faces; for (auto& f : mesh->faces) { std::vector<int> t{f.get<0>(), f.get<1>(), f.get<2>()}; REQUIRE(faces.emplace(std::set<int>(t.begin(), t.end()), t).second, "mesh:double", "a face is there twice"); } size_t used = 0;
        for (int l = 1; l < lines; l++) for (size_t i = 1; i < grid[l].size(); i++) {
            static const Q none{-1, -1, Vector3d(0, 0, 0), 0, 0, 0, false, 0}; auto at = [&](int l, size_t i) { return i < grid[l].size() ? &grid[l][i] : &none; }; const Q* q[4] = {at(l - 1, i - 1), at(l - 1, i), at(l, i), at(l, i - 1)}; int got[4], ng = 0; bool could[4]; 
            for (int k = 0; k < 4; k++) { const Q *a = q[(k + 1) % 4], *b = q[(k + 2) % 4], *d = q[(k + 3) % 4]; bool there = a->state && b->state && d->state; double m = std::max((a->p - b->p).norm(), std::max((b->p - d->p).norm(), (a->p - d->p).norm())); could[k] = there && m < el; if (there && fabs(m - el) < 1e-4) unsure = true;
                got[k] = 0; if (there) { auto it = faces.find({index[{a->l, a->i}], index[{b->l, b->i}], index[{d->l, d->i}]}); if (it != faces.end()) { got[k] = 1; ng++; used++; if (!unsure) REQUIRE(could[k], "mesh:long", "a face with an edge longer than " << el);
                    // seen from the scanner: the points in the order of the square, reversed behind it
                    std::vector<int> t = it->second; std::rotate(t.begin(), std::find(t.begin(), t.end(), index[{a->l, a->i}]), t.end()); bool fwd = t[1] == index[{b->l, b->i}]; double ps = fabs(q[2]->psi); if (fabs(ps - M_PI / 2) > 1e-4) REQUIRE(fwd == (ps < M_PI / 2), "mesh:orientation", "face at line " << l << " point " << i << " has the wrong orientation"); if (ps > M_PI / 2) mon::seen("mesh.behind"); if (std::count(t.begin(), t.end(), 0)) mon::seen("mesh.first"); } } }
            if (unsure) continue; int can = could[0] + could[1] + could[2] + could[3];
            REQUIRE(ng <= 2 && (ng < 2 || (got[0] && got[2]) || (got[1] && got[3])), "mesh:overlap", "overlapping faces at line " << l << " point " << i); REQUIRE(!can || ng, "mesh:hole", "no face at line " << l << " point " << i); if (can == 4) { REQUIRE(ng == 2, "mesh:hole", "half of the square at line " << l << " point " << i << " has no face"); mon::seen("mesh.square"); } if (can == 1) mon::seen("mesh.triangle"); if (!can) mon::seen("mesh.gap");
        }
        if (!unsure) REQUIRE(used == faces.size(), "mesh:stray", faces.size() - used << " faces join points that are not neighbours"); if (ragged) mon::seen("mesh.ragged");
    }
    if (scene) { Scratch d; env->serialize(d.d); LOGOP("scene"); std::unique_ptr<Environment> e2(Environment::unserialize(d.d)); ScanMeshing::Ptr q = e2->getItem<ScanMeshing>(op->getUniqueId()); TriMesh::Ptr m2 = e2->getItem<TriMesh>(mesh->getUniqueId()); LaserScan::Ptr s2 = e2->getItem<LaserScan>(scan->getUniqueId()); REQUIRE(q && m2 && s2, "mesh:scene", "items are lost"); s2->lines = scan->lines; s2->delta_psi = scan->delta_psi; s2->origin_psi = scan->origin_psi; s2->origin_phi = scan->origin_phi; s2->center_offset = scan->center_offset; s2->x_forward = scan->x_forward; op->useRemission(true); q->useRemission(true);
        REQUIRE(op->updateAll() && q->updateAll(), "mesh:scene", "update failed"); REQUIRE(m2->vertices == mesh->vertices && m2->faces == mesh->faces && m2->hasData(Pointcloud::VERTEX_COLOR) == mesh->hasData(Pointcloud::VERTEX_COLOR), "mesh:scene", "the stored operator gives another mesh"); if (mesh->hasData(Pointcloud::VERTEX_COLOR)) REQUIRE(dat<Vector3d>(mesh, Pointcloud::VERTEX_COLOR) == dat<Vector3d>(m2.get(), Pointcloud::VERTEX_COLOR), "mesh:scene", "the stored operator gives other colors"); mon::seen("mesh.scene"); }
    mesh->clear(); mon::distinct(mon::hashStr(mon::currentLog()));
}
