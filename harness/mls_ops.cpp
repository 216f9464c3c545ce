// P30: point clouds projected into multi-level surfaces, and surfaces merged into one.
#include "mon.hpp"
#include <envire/Core.hpp>
#include <envire/maps/MLSMap.hpp>
#include <envire/maps/Pointcloud.hpp>
#include <envire/maps/ElevationGrid.hpp>
#include <envire/operators/MLSProjection.hpp>
#include <envire/operators/MergeMLS.hpp>
#include <envire/tools/BresenhamLine.hpp>
using namespace envire;
using namespace Eigen;
typedef MLSGrid::SurfacePatch P;

namespace {
Affine3d pose(mon::Rng& r, bool tilt) {
    Affine3d t = Affine3d::Identity(); if (r.chance(.15)) return t; t.translation() = Vector3d(r.real(-4, 4), r.real(-4, 4), r.chance(.3) ? 0 : r.real(-4, 4));
    if (r.chance(.8)) t.linear() = AngleAxisd(r.real(-3, 3), Vector3d::UnitZ()).toRotationMatrix(); if (tilt && r.chance(.7)) t.linear() = t.linear() * AngleAxisd(r.real(-3, 3), Vector3d(r.gauss(), r.gauss(), r.gauss() + 1e-3).normalized()).toRotationMatrix(); return t;
}
struct Frame { FrameNode* node; Affine3d toRoot; Frame(mon::Rng& r, Environment& env, bool tilt) : node(env.getRootNode()), toRoot(Affine3d::Identity()) {
    for (int n = r.range(0, 3); n-- > 0;) { FrameNode* f = new FrameNode; Affine3d t = pose(r, tilt); f->setTransform(t); env.attachItem(f); node->addChild(f); node = f; toRoot = toRoot * t; } } };
struct Fuse { double w = 0, m = 0; int n = 0; Vector3d color; void add(double z, double var) { w += 1 / var; m += z / var; n++; } double mean() const { return m / w; } double var() const { return 1 / w; } };
typedef std::map<std::pair<int, int>, std::map<int, Fuse>> Model; // cell -> layer -> measurements
std::vector<P> cell(MLSGrid* g, int x, int y) { std::vector<P> v; for (MLSGrid::iterator it = g->beginCell(x, y); it != g->endCell(); it++) v.push_back(*it); std::sort(v.begin(), v.end()); return v; }
// every cell has exactly the layers of the model
void compare(MLSGrid* g, int w, int h, const Model& m, bool sum, bool stdev, bool color, const char* key) {
    for (int x = 0; x < w; x++) for (int y = 0; y < h; y++) {
        std::vector<P> have = cell(g, x, y); std::vector<Fuse> want; auto it = m.find({x, y}); if (it != m.end()) for (auto& l : it->second) want.push_back(l.second);
        std::sort(want.begin(), want.end(), [](const Fuse& a, const Fuse& b) { return a.mean() < b.mean(); });
        REQUIRE(have.size() == want.size(), std::string(key) + ":layers", "cell " << x << "," << y << " has " << have.size() << " patches, expected " << want.size());
        for (size_t i = 0; i < want.size(); i++) {
            REQUIRE(have[i].isHorizontal() && fabs(have[i].mean - want[i].mean()) < 2e-4 * (1 + fabs(want[i].mean())), std::string(key) + ":mean", "layer " << i << " of cell " << x << "," << y << " is at " << have[i].mean << " expected " << want[i].mean() << " from " << want[i].n << " measurements");
            if (sum) REQUIRE(fabs(have[i].getMeasurementCount() - want[i].n) < 1e-3, std::string(key) + ":count", "layer " << i << " of cell " << x << "," << y << " counts " << have[i].getMeasurementCount() << " measurements, expected " << want[i].n);
            if (!sum && stdev) REQUIRE(fabs(have[i].stdev - sqrt(want[i].var())) < 1e-3 * sqrt(want[i].var()), std::string(key) + ":stdev", "layer " << i << " of cell " << x << "," << y << " has stdev " << have[i].stdev << " expected " << sqrt(want[i].var()));
            if (color) REQUIRE((have[i].getColor() - want[i].color).norm() < 0.02, std::string(key) + ":color", "layer " << i << " of cell " << x << "," << y << " has color " << have[i].getColor().transpose() << " expected " << want[i].color.transpose());
            mon::seen(std::string(key) + ".layer"); if (want[i].n > 1) mon::seen(std::string(key) + ".fused"); if (i) mon::seen(std::string(key) + ".several");
        }
    }
}
struct Geo { int w, h; double sx, sy, ox, oy; Geo(mon::Rng& r, int m, bool square) { w = r.range(1, m); h = r.range(1, m); sx = r.one({.1, .25, .5, 1.0}); sy = square || r.chance(.5) ? sx : sx * r.one({.5, 2.0}); ox = r.chance(.3) ? 0 : r.real(-5, 5); oy = r.chance(.3) ? 0 : r.real(-5, 5); }
    MLSGrid* make() const { return new MLSGrid(w, h, sx, sy, ox, oy); } Vector2d at(int x, int y, double u = .5, double v = .5) const { return Vector2d(ox + (x + u) * sx, oy + (y + v) * sy); } };
}

SECTION(project, 3000, 25000)
{
    auto& r = c.rng; Environment env; Geo G(r, 9, false); Frame gf(r, env, true); MLSGrid* g = G.make(); env.attachItem(g); g->setFrameNode(gf.node);
    bool sum = r.chance(.3), unc = r.chance(.6), color = r.chance(.4); g->getConfig().updateModel = sum ? MLSConfiguration::SUM : MLSConfiguration::KALMAN; double gap = g->getConfig().gapSize = r.one({.1f, .5f, 1.0f}); double thick = g->getConfig().thickness = r.one({.02f, .05f, .2f});
    MLSProjection* op = new MLSProjection; env.attachItem(op);
    if (r.chance(.05)) { REQUIRE(!op->updateAll(), "project:no-output", "succeeds without output"); mon::seen("project.incomplete"); }
    op->addOutput(g); op->useUncertainty(unc); double dflt = .01; if (r.chance(.3)) op->setDefaultUncertainty(dflt = r.real(.002, .05));
    if (r.chance(.05)) REQUIRE(mon::throws([&] { MLSGrid* g2 = G.make(); env.attachItem(g2); op->addOutput(g2); }), "project:outputs", "a second output is accepted");
    bool box = r.chance(.3); Vector3d lo, hi; if (box) { Vector2d a = G.at(0, 0, r.real(-.5, G.w), r.real(-.5, G.h)), b = G.at(0, 0, r.real(0, G.w + .5), r.real(0, G.h + .5)); lo << a.cwiseMin(b), r.real(-8, 2); hi << a.cwiseMax(b), r.real(2, 8);
        if (r.chance(.2)) op->setAreaOfInterest(1, 2, 1, 2, 1, 2); bool swap = r.chance(.3); op->setAreaOfInterest(swap ? hi.x() : lo.x(), swap ? lo.x() : hi.x(), lo.y(), hi.y(), lo.z(), hi.z()); }
    else if (r.chance(.2)) { op->setAreaOfInterest(1, 2, 1, 2, 1, 2); op->unsetAreaOfInterest(); }
    const double smin = .05, smax = .25, spread = .45 * std::min(thick + smin, gap), apart = gap + 4 * smax + 2; // layers are certain to be one or to be apart
    double base = r.real(-5, 5); int layers = r.range(1, 3); std::map<int, Vector3d> colors; for (int l = 0; l < layers; l++) colors[l] = Vector3d(r.real(0, 1), r.real(0, 1), r.real(0, 1));
    LOGOP("grid " << G.w << "x" << G.h << " scale " << G.sx << "," << G.sy << " offset " << G.ox << "," << G.oy << " model " << (sum ? "sum" : "kalman") << " gap " << gap << " thickness " << thick << " uncertainty " << unc << " box " << box << " layers " << layers << " from " << base);
    Model model; int rounds = r.range(1, 2);
    for (int round = 0; round < rounds; round++) {
        int clouds = r.range(1, 3); std::vector<Pointcloud*> cs; std::vector<std::vector<Vector3d>> verts;
        for (Layer* l : env.getInputs(op)) env.removeInput(op, l);
        for (int k = 0; k < clouds; k++) {
            Frame f(r, env, true); Pointcloud* pc = k ? static_cast<Pointcloud*>(r.chance(.3) ? new TriMesh : new Pointcloud) : new Pointcloud; env.attachItem(pc); pc->setFrameNode(f.node);
            double zvar = 0; int uk = unc ? r.range(0, 2) : 0; // uncertainty of the pose: none, of the height only, full
            TransformWithUncertainty C; if (uk) { Matrix<double, 6, 6> cov = Matrix<double, 6, 6>::Zero(); Matrix3d R = (gf.toRoot.linear().transpose() * f.toRoot.linear());
                if (uk == 1) { zvar = r.real(.001, .1); Vector3d up = R.transpose() * Vector3d::UnitZ(); cov.bottomRightCorner<3, 3>() = up * up.transpose() * zvar; }
                else { Matrix<double, 6, 6> A; for (int i = 0; i < 36; i++) A.data()[i] = r.gauss() * .02; cov = A * A.transpose(); }
                FrameNode* u = new FrameNode; u->setTransform(TransformWithUncertainty(Affine3d::Identity(), cov)); env.attachItem(u); f.node->addChild(u); pc->setFrameNode(u); C = env.relativeTransformWithUncertainty(pc, g);
                // translation covariances given in the frame of the cloud turn with it
                mon::seen(uk == 1 ? "project.height-uncertain" : "project.uncertain"); }
            Affine3d toCloud = f.toRoot.inverse() * gf.toRoot; bool hasVar = r.chance(.5), badVar = hasVar && r.chance(.15); int n = r.range(0, 120); std::vector<double> var; std::vector<Vector3d> col; Model mine;
            for (int i = 0; i < n; i++) {
                int x = r.u(G.w), y = r.u(G.h), l = r.u(layers); double u = r.real(.01, .99), v = r.real(.01, .99), z = base + l * apart + r.real(-.5, .5) * spread, s = r.real(smin, smax); bool out = r.chance(.1);
                Vector2d q = G.at(x, y, u, v); if (out) { if (r.chance(.5)) q.x() = r.chance(.5) ? G.ox - r.real(.01, 3) : G.ox + G.w * G.sx + r.real(.01, 3); else q.y() = r.chance(.5) ? G.oy - r.real(.01, 3) : G.oy + G.h * G.sy + r.real(.01, 3); }
                Vector3d p(q.x(), q.y(), z); pc->vertices.push_back(toCloud * p); var.push_back(s * s); col.push_back(colors[l]);
                if (out) { mon::seen("project.outside"); continue; }
                if (box && ((p - lo).minCoeff() < 0 || (hi - p).minCoeff() < 0)) { if (((p - lo).array().abs() < 1e-6).any() || ((p - hi).array().abs() < 1e-6).any()) return; mon::seen("project.cut"); continue; }
                Fuse& fu = mine[{x, y}][l]; fu.add(z, hasVar && !badVar ? s * s : std::pow(float(sqrt(dflt)), 2)); fu.color = colors[l];
            }
            if (badVar && n) var.pop_back(); if (hasVar) { pc->getVertexData<double>(Pointcloud::VERTEX_VARIANCE) = var; mon::seen("project.variance"); } if (color) pc->getVertexData<Vector3d>(Pointcloud::VERTEX_COLOR) = col;
            LOGOP("cloud of " << n << " points, variance " << hasVar << " pose uncertainty " << uk);
            for (auto& cm : mine) for (auto& lm : cm.second) {
                Fuse f = lm.second; double add = zvar; if (uk == 2) { Vector3d q; q << G.at(cm.first.first, cm.first.second), f.mean(); add = (C * PointWithUncertainty(Vector3d(toCloud * q), Matrix3d::Zero())).getCovariance()(2, 2); }
                double mean = f.mean(), va = f.var() + add; Fuse& t = model[cm.first][lm.first]; t.color = f.color;
                if (sum) { t.w += f.w; t.m += f.m; } else { t.w += 1 / va; t.m += mean / va; } t.n += f.n;
            }
            op->addInput(pc); cs.push_back(pc); verts.push_back(pc->vertices);
        }
        for (size_t k = 0; k < cs.size(); k++) {} // the order of the inputs does not matter: fusion is commutative
        std::vector<bool> had; for (auto* p : cs) had.push_back(p->hasData(Pointcloud::VERTEX_VARIANCE));
        REQUIRE(op->updateAll(), "project:return", "update failed");
        for (size_t k = 0; k < cs.size(); k++) { REQUIRE(cs[k]->vertices == verts[k] && cs[k]->hasData(Pointcloud::VERTEX_VARIANCE) == had[k] && cs[k]->hasData(Pointcloud::VERTEX_COLOR) == color, "project:input", "the input was changed"); }
        compare(g, G.w, G.h, model, sum, true, color, "project"); if (color && !model.empty()) REQUIRE(g->getHasCellColor(), "project:hascolor", "colors are not enabled"); if (round) mon::seen("project.again");
    }
    mon::seen(sum ? "project.sum" : "project.kalman"); if (r.chance(.05)) { MLSGrid* other = G.make(); env.attachItem(other); env.addInput(op, other); REQUIRE(mon::throws([&] { op->updateAll(); }), "project:wrong-input", "a grid is accepted as point cloud"); mon::seen("project.refused"); }
    mon::distinct(mon::hashStr(mon::currentLog()));
}

SECTION(absence, 2500, 20000)
{
    auto& r = c.rng; Environment env; Geo G(r, 12, true); Frame gf(r, env, false); MLSGrid* g = G.make(); env.attachItem(g); g->setFrameNode(gf.node); g->getConfig().gapSize = .1;
    MLSProjection* op = new MLSProjection; env.attachItem(op); op->addOutput(g); op->useNegativeInformation(true); op->useUncertainty(r.chance(.5));
    Frame f(r, env, true); Pointcloud* pc = new Pointcloud; env.attachItem(pc); pc->setFrameNode(f.node); Affine3d toCloud = f.toRoot.inverse() * gf.toRoot;
    int ox = r.u(G.w), oy = r.u(G.h); Vector3d o; o << G.at(ox, oy, r.real(.01, .99), r.real(.01, .99)), r.real(-2, 4); bool outside = r.chance(.08); if (outside) o.x() = G.ox - r.real(.1, 3); pc->setSensorOrigin(Affine3d(Translation3d(toCloud * o)));
    Model model; int filled = r.chance(.5) ? r.range(1, 20) : 0;
    for (int i = 0; i < filled; i++) { int x = r.u(G.w), y = r.u(G.h); if (model.count({x, y})) continue; double z = r.real(-3, 5); g->insertHead(x, y, P(z, .1)); model[{x, y}][0].add(z, .01); }
    struct M { int x, y; double z; }; std::vector<M> ms; std::set<std::pair<int, int>> used;
    for (int n = r.range(1, 4); n-- > 0;) { M m{int(r.u(G.w)), int(r.u(G.h)), r.real(-3, 5)}; if (model.count({m.x, m.y}) || !used.insert({m.x, m.y}).second) continue; Vector3d p; p << G.at(m.x, m.y, r.real(.01, .99), r.real(.01, .99)), m.z; pc->vertices.push_back(toCloud * p); ms.push_back(m); }
    op->addInput(pc); LOGOP("grid " << G.w << "x" << G.h << " scale " << G.sx << " sensor in " << ox << "," << oy << " height " << o.z() << (outside ? " outside" : "") << ", patches before " << filled); for (auto& m : ms) LOGOP("measured " << m.x << "," << m.y << " at " << m.z);
    if (outside) { REQUIRE(mon::throws([&] { op->updateAll(); }), "absence:outside", "a sensor outside of the grid is accepted"); mon::seen("absence.refused"); return; }
    REQUIRE(op->updateAll(), "absence:return", "update failed"); for (auto& m : ms) model[{m.x, m.y}][0].add(m.z, .01);
    for (int x = 0; x < G.w; x++) for (int y = 0; y < G.h; y++) {
        std::vector<P> pos, neg; for (auto& p : cell(g, x, y)) (p.isNegative() ? neg : pos).push_back(p); auto it = model.find({x, y});
        REQUIRE(pos.size() == (it != model.end()), "absence:patches", "cell " << x << "," << y << " has " << pos.size() << " surface patches");
        if (pos.size()) REQUIRE(pos[0].isHorizontal() && fabs(pos[0].mean - it->second[0].mean()) < 1e-4, "absence:mean", "surface of cell " << x << "," << y << " is at " << pos[0].mean << " expected " << it->second[0].mean());
        bool near = false;
        for (auto& m : ms) {
            int dx = ox - m.x, dy = oy - m.y, n = std::max(abs(dx), abs(dy)); if (!n) continue; bool xd = abs(dx) >= abs(dy);
            double along = xd ? double(x - m.x) / dx : double(y - m.y) / dy; if (along < -1e-9 || along > 1 + 1e-9) continue;
            double off = xd ? y - (m.y + along * dy) : x - (m.x + along * dx); if (fabs(off) < .51 && along > 1e-9) near = true;
            if (fabs(off) > .49 || along < 1e-9) continue;
            double z = m.z + along * (o.z() - m.z); bool ok = false; for (auto& p : neg) ok |= p.mean >= z - 1e-3 && p.mean - p.height <= z + 1e-3;
            REQUIRE(ok, "absence:ray", "the ray from " << m.x << "," << m.y << " passes cell " << x << "," << y << " at height " << z << ", which has " << neg.size() << " negative patches" << (neg.size() ? " from " + std::to_string(neg[0].mean - neg[0].height) + " to " + std::to_string(neg[0].mean) : "")); mon::seen(o.z() > m.z ? "absence.down" : "absence.up");
        }
        if (!near) { REQUIRE(neg.empty(), "absence:stray", "cell " << x << "," << y << " is on no ray, but has a negative patch"); mon::seen("absence.untouched"); }
        else for (auto& p : neg) { double l = 1e9, h = -1e9; for (auto& m : ms) { double a = std::max(fabs(double(ox - m.x)), fabs(double(oy - m.y))), s = a ? fabs(o.z() - m.z) / a : 0; l = std::min(l, std::min(m.z, o.z()) - s); h = std::max(h, std::max(m.z, o.z()) + s); }
            REQUIRE(p.mean <= h + 1e-3 && p.mean - p.height >= l - 1e-3, "absence:extent", "negative patch of cell " << x << "," << y << " from " << p.mean - p.height << " to " << p.mean << " beyond all rays"); }
    }
    mon::distinct(mon::hashStr(mon::currentLog()));
}

SECTION(merge, 3000, 25000)
{
    auto& r = c.rng; Environment env; Geo G(r, 9, false); Frame of(r, env, false); MLSGrid* out = G.make(); env.attachItem(out); out->setFrameNode(of.node);
    bool sum = r.chance(.3), rev = r.chance(.5); double gap = r.one({.1f, .5f, 1.0f}), thick = r.one({.02f, .05f, .2f}); auto conf = [&](MLSGrid* g) { g->getConfig().updateModel = sum ? MLSConfiguration::SUM : MLSConfiguration::KALMAN; g->getConfig().gapSize = gap; g->getConfig().thickness = thick; }; conf(out);
    MergeMLS* op = new MergeMLS; env.attachItem(op); if (rev || r.chance(.2)) op->setReverse(rev);
    if (r.chance(.05)) { REQUIRE(mon::throws([&] { op->updateAll(); }), "merge:no-output", "runs without output"); mon::seen("merge.incomplete"); }
    env.addOutput(op, out); const double smin = .05, smax = .25, spread = .45 * std::min(thick + smin, gap), apart = gap + 4 * smax + 2; double base = r.real(-5, 5); int layers = r.range(1, 3);
    LOGOP("output " << G.w << "x" << G.h << " scale " << G.sx << "," << G.sy << " offset " << G.ox << "," << G.oy << " model " << (sum ? "sum" : "kalman") << (rev ? " reverse" : " forward") << " gap " << gap << " thickness " << thick);
    Model model; auto doubt = [](double u) { return fabs(u - std::round(u)) < 1e-6; };
    struct In { MLSGrid* g; Geo G; Affine3d toOut; Model m; }; std::vector<In> ins; MLSMap* map = NULL; int n = r.range(1, 3);
    for (int k = 0; k < n; k++) {
        Geo H(r, 9, false); Frame f(r, env, false); MLSGrid* g = H.make(); env.attachItem(g); bool same = r.chance(.2); if (same) { H = G; g->detach(); g = G.make(); env.attachItem(g); f = of; mon::seen("merge.same-geometry"); } g->setFrameNode(f.node); conf(g);
        In in{g, H, of.toRoot.inverse() * f.toRoot, Model()}; if (!same && r.chance(.7)) { // put it over the output
            Vector2d mid = G.at(0, 0, r.real(0, G.w), r.real(0, G.h)); Vector3d at = in.toOut.inverse() * Vector3d(mid.x(), mid.y(), 0); in.G.ox = at.x() - r.real(0, H.w) * H.sx; in.G.oy = at.y() - r.real(0, H.h) * H.sy; g->detach(); g = in.G.make(); env.attachItem(g); g->setFrameNode(f.node); conf(g); in.g = g; }
        for (int i = r.range(0, 80); i-- > 0;) {
            int x = r.u(H.w), y = r.u(H.h), l = r.u(layers); double z = base + l * apart + r.real(-.5, .5) * spread, s = r.real(smin, smax); double zi = (in.toOut.inverse() * Vector3d(0, 0, z)).z(); P p(zi, s); if (r.chance(.5)) g->updateCell(x, y, p); else g->update(in.G.at(x, y, r.real(.01, .99), r.real(.01, .99)), p);
            in.m[{x, y}][l].add(z, s * s); }
        LOGOP("input " << H.w << "x" << H.h << " scale " << H.sx << "," << H.sy << " height of frame " << in.toOut.translation().z() << " cells " << in.m.size());
        if (r.chance(.35)) { if (!map) { map = new MLSMap; env.attachItem(map); map->setFrameNode(of.node); env.addInput(op, map); if (r.chance(.3)) { ElevationGrid* e = new ElevationGrid(2, 2, 1, 1, 0, 0); env.attachItem(e); env.addChild(map, e); mon::seen("merge.other-child"); } } map->addGrid(g); mon::seen("merge.map"); } else env.addInput(op, g);
        if (!rev) for (auto& cm : in.m) { Vector3d q; q << in.G.at(cm.first.first, cm.first.second), 0; q = in.toOut * q; double u = (q.x() - G.ox) / G.sx, v = (q.y() - G.oy) / G.sy; if (doubt(u) || doubt(v)) return; if (u < 0 || v < 0 || u >= G.w || v >= G.h) { mon::seen("merge.outside"); continue; }
            for (auto& lm : cm.second) { Fuse& t = model[{int(u), int(v)}][lm.first]; t.w += lm.second.w; t.m += lm.second.m; t.n += lm.second.n; } }
        else for (int x = 0; x < G.w; x++) for (int y = 0; y < G.h; y++) { Vector3d q; q << G.at(x, y), 0; q = in.toOut.inverse() * q; double u = (q.x() - in.G.ox) / in.G.sx, v = (q.y() - in.G.oy) / in.G.sy; if (doubt(u) || doubt(v)) return; if (u < 0 || v < 0 || u >= H.w || v >= H.h) { mon::seen("merge.outside"); continue; }
            auto it = in.m.find({int(u), int(v)}); if (it != in.m.end()) for (auto& lm : it->second) { Fuse& t = model[{x, y}][lm.first]; t.w += lm.second.w; t.m += lm.second.m; t.n += lm.second.n; } }
        ins.push_back(in);
    }
    REQUIRE(op->updateAll(), "merge:return", "update failed"); compare(out, G.w, G.h, model, sum, true, false, "merge"); for (auto& in : ins) if (in.g != out) compare(in.g, in.G.w, in.G.h, [&] { Model m = in.m; for (auto& cm : m) for (auto& lm : cm.second) lm.second.m += (in.toOut.inverse() * Vector3d(0, 0, 0)).z() * lm.second.w; return m; }(), sum, true, false, "merge-input");
    // later measurements join the layers at their new height
    for (auto& cm : model) if (r.chance(.3)) for (auto& lm : cm.second) { double z = base + lm.first * apart, s = r.real(smin, smax); out->updateCell(cm.first.first, cm.first.second, P(z, s)); lm.second.add(z, s * s); }
    compare(out, G.w, G.h, model, sum, true, false, "merge-later"); mon::seen(rev ? "merge.reverse" : "merge.forward"); if (sum) mon::seen("merge.sum");
    if (r.chance(.05)) { ElevationGrid* e = new ElevationGrid(2, 2, 1, 1, 0, 0); env.attachItem(e); env.addInput(op, e); REQUIRE(mon::throws([&] { op->updateAll(); }), "merge:wrong-input", "an elevation grid is accepted"); mon::seen("merge.refused"); }
    mon::distinct(mon::hashStr(mon::currentLog()));
}
