// Operators that classify terrain: growing of classes, simple classification, grassfire.
#include "mon.hpp"
#include <envire/Core.hpp>
#include <envire/core/Serialization.hpp>
#include <envire/maps/Grids.hpp>
#include <envire/maps/MLSGrid.hpp>
#include <envire/maps/TraversabilityGrid.hpp>
#include <envire/operators/SimpleTraversability.hpp>
#include <envire/operators/TraversabilityGrassfire.hpp>
#include <envire/operators/TraversabilityGrowClasses.hpp>
#include <Eigen/Dense>
#include <boost/filesystem.hpp>
using namespace envire;
using namespace Eigen;

namespace {
struct Scratch { std::string d; Scratch() { char b[] = "/tmp/verif.tops.XXXXXX"; if (!mkdtemp(b)) throw std::runtime_error("mkdtemp"); d = b; } ~Scratch() { boost::system::error_code e; boost::filesystem::remove_all(d, e); } };
typedef std::vector<int> Cells;
const std::string& T = TraversabilityGrid::TRAVERSABILITY; const std::string& P = TraversabilityGrid::PROBABILITY;
Cells band(TraversabilityGrid& g, const std::string& b) { Cells c; auto& d = g.getGridData(b); for (size_t y = 0; y < g.getCellSizeY(); y++) for (size_t x = 0; x < g.getCellSizeX(); x++) c.push_back(d[y][x]); return c; }
}

SECTION(grow, 2500, 15000)
{
    auto& r = c.rng; Environment env;
    int w = r.range(1, 16), h = r.range(1, 16); double sx = r.one({0.05, 0.1, 0.3, 1.0}), sy = r.chance(0.5) ? sx : sx * r.one({0.5, 2.0, 0.7});
    TraversabilityGrid *in = new TraversabilityGrid(w, h, sx, sy), *out = new TraversabilityGrid(w, h, sx, sy); env.attachItem(in); env.attachItem(out);
    TraversabilityGrowClasses* op = new TraversabilityGrowClasses; env.attachItem(op);
    if (r.chance(0.2)) { REQUIRE(mon::throws([&] { op->updateAll(); }), "grow:no-input", "runs without input"); op->addInput(in); REQUIRE(mon::throws([&] { op->updateAll(); }), "grow:no-output", "runs without output"); op->removeInput(in); mon::seen("grow.incomplete"); }
    if (r.chance(0.1)) {
        TraversabilityGrid* o2 = new TraversabilityGrid(w + r.range(0, 1), h + r.range(0, 1) , sx, sy); env.attachItem(o2); bool same = o2->getCellSizeX() == in->getCellSizeX() && o2->getCellSizeY() == in->getCellSizeY();
        if (!same) { if (r.chance(0.3)) { env.detachItem(o2); o2 = new TraversabilityGrid(h, w, sx, sy); env.attachItem(o2); if (w == h) return; }
            op->addInput(in); op->setOutput(o2); LOGOP("other output size"); REQUIRE(mon::throws([&] { op->updateAll(); }), "grow:size", "writes to a grid of another size"); mon::seen("grow.refused"); return; }
    }
    op->addInput(in); op->setOutput(out);
    int nc = r.range(1, 8); std::vector<double> dr;
    for (int i = 0; i < nc; i++) { double d = r.chance(0.2) ? 0 : r.range(0, 10) / 10.0; dr.push_back(d); in->setTraversabilityClass(i, TraversabilityClass(d)); }
    for (int round = r.range(1, 3); round-- > 0;) {
        double rad = r.chance(0.1) ? 0 : r.chance(0.2) ? sx * r.range(1, 4) : r.real(0, 4 * std::max(sx, sy)); op->setRadius(rad);
        double pUnknown = r.one({0.0, 0.2, 0.9});
        for (int x = 0; x < w; x++) for (int y = 0; y < h; y++) { bool u = r.chance(pUnknown); in->setTraversabilityAndProbability(u && r.chance(0.2) ? 200 : r.u(nc), u ? 0 : r.chance(0.05) ? 1 / 255.0 : r.real(0.02, 1), x, y); }
        LOGOP("grid " << w << "x" << h << " scale " << sx << "," << sy << " radius " << rad << " classes " << nc << " unknown " << pUnknown);
        Cells it = band(*in, T), ip = band(*in, P);
        REQUIRE(op->updateAll(), "grow:return", "update failed");
        REQUIRE(it == band(*in, T) && ip == band(*in, P), "grow:input", "the input grid was changed");
        Cells ot = band(*out, T), opb = band(*out, P);
        for (int i = 0; i < nc; i++) REQUIRE(out->getTraversabilityClass(i).getDrivability() == dr[i], "grow:classes", "class " << i << " of the output has drivability " << out->getTraversabilityClass(i).getDrivability());
        for (int x = 0; x < w; x++) for (int y = 0; y < h; y++) {
            int i = y * w + x; double sure = 9, poss = 9; std::set<std::pair<int, int>> cand;
            for (int u = 0; u < w; u++) for (int v = 0; v < h; v++) { int j = v * w + u; if (!ip[j]) continue;
                double d2 = (u - x) * sx * (u - x) * sx + (v - y) * sy * (v - y) * sy; bool self = i == j, in1 = self || d2 < rad * rad * (1 - 1e-9), in2 = self || d2 < rad * rad * (1 + 1e-9) + 1e-18;
                if (in1) sure = std::min(sure, dr[it[j]]); if (in2) { poss = std::min(poss, dr[it[j]]); cand.insert({it[j], ip[j]}); } }
            if (cand.empty()) { REQUIRE(ot[i] == it[i] && opb[i] == 0, "grow:unknown", "cell " << x << "," << y << " is far from known cells, but has class " << ot[i] << " with probability " << opb[i]); mon::seen("grow.unknown"); continue; }
            if (sure == 9 && opb[i] == 0) continue;
            REQUIRE(cand.count({ot[i], opb[i]}), "grow:origin", "cell " << x << "," << y << " has class " << ot[i] << " and probability " << opb[i] << ", no cell in reach has these");
            double d = dr[ot[i]];
            REQUIRE(d <= sure && d >= poss, "grow:worst", "cell " << x << "," << y << " has drivability " << d << ", the worst in reach is " << poss << ".." << sure);
            mon::seen("grow.cell"); if (ot[i] != it[i]) mon::seen("grow.grown");
        }
        mon::distinct(mon::hashStr(mon::currentLog()));
    }
}

SECTION(simple, 3500, 20000)
{
    auto& r = c.rng; boost::shared_ptr<Environment> env(new Environment());
    int w = r.range(1, 18), h = r.range(1, 18); double sx = r.one({0.05, 0.1, 0.3, 1.0}), sy = r.chance(0.7) ? sx : sx * r.one({0.5, 2.0});
    typedef Grid<float> FG; FG* slopes = new FG(w, h, sx, sy, 0, 0); env->attachItem(slopes); FG* steps = slopes; if (r.chance(0.5)) { steps = new FG(w, h, sx, sy, 0, 0); env->attachItem(steps); }
    bool useSlope = r.chance(0.9), useStep = !useSlope || r.chance(0.7);
    SimpleTraversabilityConfig cf; cf.maximum_slope = r.chance(0.1) ? 0 : r.real(0.1, 1.0); cf.class_count = r.range(1, 12); cf.ground_clearance = r.chance(0.15) ? 0 : r.real(0.05, 0.5);
    cf.min_width = r.chance(0.4) ? 0 : r.real(0, 5 * sx); cf.obstacle_clearance = r.chance(0.4) ? 0 : r.real(0, 4 * sx);
    double noS = r.one({-1.0, -99.0}), noM = r.one({-2.0, 1000.0}); bool setS = r.chance(0.6), setM = r.chance(0.6);
    const float INF = std::numeric_limits<float>::infinity(); const std::string bs = "slope", bm = "max_step";
    TraversabilityGrid* outs[3]; for (auto& o : outs) { o = new TraversabilityGrid(w, h, sx, sy); env->attachItem(o); }
    LOGOP("grid " << w << "x" << h << " scale " << sx << "," << sy << " slope " << useSlope << " step " << useStep << " max slope " << cf.maximum_slope << " classes " << cf.class_count << " clearance " << cf.ground_clearance << " width " << cf.min_width << " grow " << cf.obstacle_clearance);
    if (setS) slopes->setNoData(bs, noS); if (setM) steps->setNoData(bm, noM);
    // the same classification without post processing, with closed passages, with both
    SimpleTraversability* ops[3]; std::string ob = r.chance(0.8) ? T : "";
    for (int k = 0; k < 3; k++) {
        SimpleTraversabilityConfig q = cf; if (k < 2) q.obstacle_clearance = 0; if (k < 1) q.min_width = 0;
        bool old = k < 2 && r.chance(0.5);
        ops[k] = old ? new SimpleTraversability(q.maximum_slope, q.class_count, q.min_width, q.ground_clearance) : new SimpleTraversability(q); env->attachItem(ops[k]);
        if (r.chance(0.1)) { REQUIRE(mon::throws([&] { ops[k]->updateAll(); }), "simple:no-output", "runs without output"); ops[k]->setOutput(outs[k], ob); REQUIRE(mon::throws([&] { ops[k]->updateAll(); }), "simple:no-input", "runs without input"); mon::seen("simple.incomplete"); }
        if (useSlope) ops[k]->setSlope(slopes, bs); if (useStep) ops[k]->setMaxStep(steps, bm); ops[k]->setOutput(outs[k], ob);
        REQUIRE(!useSlope || (ops[k]->getSlopeLayer() == slopes && ops[k]->getSlopeBand() == bs), "simple:input", "slope layer is not the given one");
        REQUIRE(!useStep || (ops[k]->getMaxStepLayer() == steps && ops[k]->getMaxStepBand() == bm), "simple:input", "step layer is not the given one");
    }
    for (int round = r.range(1, 3); round-- > 0;) {
        double pObst = r.one({0.02, 0.1, 0.5, 1.0, 0.0}), pNo = r.one({0.0, 0.1, 1.0});
        slopes->getGridData(bs); steps->getGridData(bm);
        auto& S = slopes->getGridData(bs); auto& M = steps->getGridData(bm);
        Cells want(w * h), alt(w * h), prob(w * h);
        for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) {
            float s = r.chance(pObst / 2) ? cf.maximum_slope + r.real(0.01, 1) : r.chance(0.1) ? 0 : r.real(-cf.maximum_slope, cf.maximum_slope); if (r.chance(0.1)) s = cf.maximum_slope * r.range(0, 2 * cf.class_count) / (2.0 * cf.class_count);
            float m = r.chance(pObst / 2) ? cf.ground_clearance + r.real(0.01, 1) : r.real(0, cf.ground_clearance * 0.99);
            bool noSlope = r.chance(pNo), noStep = r.chance(pNo);
            if (noSlope) s = setS ? noS : -INF; if (noStep) m = setM ? noM : -INF;
            S[y][x] = s; M[y][x] = m; int i = y * w + x;
            if (useStep && !noStep && cf.ground_clearance && m > cf.ground_clearance) { want[i] = alt[i] = 1; prob[i] = 255; continue; }
            want[i] = alt[i] = 0; prob[i] = 0; if (!useSlope || noSlope || !cf.maximum_slope) continue;
            prob[i] = 255; double a = fabs(double(s)); if (a > cf.maximum_slope) { want[i] = alt[i] = 1; continue; }
            double q = a / cf.maximum_slope * cf.class_count; want[i] = 2 + cf.class_count - (int)floor(q + 0.5 - 1e-6); alt[i] = 2 + cf.class_count - (int)floor(q + 0.5 + 1e-6);
        }
        Cells res[3], pr[3];
        for (int k = 0; k < 3; k++) {
            REQUIRE(ops[k]->updateAll(), "simple:return", "update failed"); res[k] = band(*outs[k], ob.empty() ? outs[k]->getBands().front() : ob); pr[k] = band(*outs[k], P);
            auto nd = ob.empty() ? outs[k]->getNoData() : outs[k]->getNoData(ob); REQUIRE(nd.second && nd.first == 0, "simple:nodata", "unknown class is not the nodata value");
        }
        for (int i = 0; i < w * h; i++) {
            REQUIRE(res[0][i] == want[i] || res[0][i] == alt[i], "simple:class", "cell " << i % w << "," << i / w << " slope " << S[i / w][i % w] << " step " << M[i / w][i % w] << " has class " << res[0][i] << " expected " << want[i]);
            REQUIRE(pr[0][i] == prob[i], "simple:prob", "cell " << i % w << "," << i / w << " of class " << res[0][i] << " has probability " << pr[0][i]);
            if (want[i] > 1) mon::seen("simple.drivable"); else mon::seen(want[i] ? "simple.obstacle" : "simple.unknown");
        }
        // narrow passages
        auto d2 = [&](int i, int j) { double dx = (i % w - j % w) * sx, dy = (i / w - j / w) * sy; return dx * dx + dy * dy; };
        std::vector<int> obst; for (int i = 0; i < w * h; i++) if (res[0][i] == 1) obst.push_back(i);
        std::vector<char> may(w * h, 0); double mw2 = cf.min_width * cf.min_width; int fresh = 0;
        for (int a : obst) for (int b : obst) { if (a >= b || d2(a, b) >= mw2 * (1 + 1e-9)) continue;
            int x0 = std::min(a % w, b % w), x1 = std::max(a % w, b % w), y0 = std::min(a / w, b / w), y1 = std::max(a / w, b / w);
            for (int x = x0; x <= x1; x++) for (int y = y0; y <= y1; y++) may[y * w + x] = 1;
            if (d2(a, b) >= mw2 * (1 - 1e-9)) continue;
            if (obst.size() > 60 && !r.chance(60.0 * 60 / (obst.size() * obst.size()))) continue;
            std::vector<int> todo(1, a); std::set<int> done(todo.begin(), todo.end()); // chain of obstacles between the two
            for (size_t k = 0; k < todo.size(); k++) { int t = todo[k]; for (int u = -1; u <= 1; u++) for (int v = -1; v <= 1; v++) { int x = t % w + u, y = t / w + v; if (x < x0 || x > x1 || y < y0 || y > y1) continue; int j = y * w + x; if (res[1][j] == 1 && done.insert(j).second) todo.push_back(j); } }
            REQUIRE(done.count(b), "simple:passage", "obstacles at " << a % w << "," << a / w << " and " << b % w << "," << b / w << " are " << sqrt(d2(a, b)) << " apart, the passage between them is not closed");
            mon::seen("simple.passage"); }
        for (int i = 0; i < w * h; i++) {
            if (res[1][i] == res[0][i]) { REQUIRE(pr[1][i] == pr[0][i], "simple:close-prob", "cell " << i % w << "," << i / w << " was not closed, but its probability changed"); continue; }
            REQUIRE(res[1][i] == 1 && pr[1][i] == 255, "simple:closed", "cell " << i % w << "," << i / w << " became class " << res[1][i] << " with probability " << pr[1][i]);
            REQUIRE(may[i], "simple:close-stray", "cell " << i % w << "," << i / w << " is not in a narrow passage, but was closed"); fresh++;
        }
        mon::seen("simple.closed", fresh);
        double cl2 = cf.obstacle_clearance * cf.obstacle_clearance; int grown = 0;
        for (int i = 0; i < w * h; i++) {
            bool sure = false, poss = false; for (int j = 0; j < w * h; j++) if (res[1][j] == 1) { if (i == j) sure = poss = true; if (cf.obstacle_clearance > 0) { sure |= d2(i, j) < cl2 * (1 - 1e-9); poss |= d2(i, j) < cl2 * (1 + 1e-9); } }
            if (sure) REQUIRE(res[2][i] == 1, "simple:grow", "cell " << i % w << "," << i / w << " is near an obstacle, but has class " << res[2][i]);
            if (res[2][i] == res[1][i]) { if (res[2][i] != 1) REQUIRE(pr[2][i] == pr[1][i], "simple:grow-prob", "cell " << i % w << "," << i / w << ": probability " << pr[2][i]); else REQUIRE(pr[2][i] == 255, "simple:grow-prob", "obstacle at " << i % w << "," << i / w << ": probability " << pr[2][i]); continue; }
            REQUIRE(poss && res[2][i] == 1 && pr[2][i] == 255, "simple:grow-stray", "cell " << i % w << "," << i / w << " became class " << res[2][i] << " with probability " << pr[2][i]); grown++;
        }
        mon::seen("simple.grown", grown);
        for (int k = 0; k < 3; k++) {
            auto& o = *outs[k]; int n = cf.class_count; REQUIRE(o.getTraversabilityClass(1).isSet() && o.getTraversabilityClass(1).getDrivability() == 0, "simple:obstacle", "obstacles are drivable");
            for (int i = 0; i <= n; i++) { double d = 1.0 / n + (1.0 - 1.0 / n) / n * i; REQUIRE(o.getTraversabilityClass(2 + i).isSet() && fabs(o.getTraversabilityClass(2 + i).getDrivability() - d) < 1e-9, "simple:drivability", "class " << 2 + i << " has drivability " << o.getTraversabilityClass(2 + i).getDrivability() << " expected " << d); }
            double sum = 0, cnt = 0; for (int v : res[k]) if (v) { sum += v; cnt++; }
            double u = o.getTraversabilityClass(0).getDrivability(), mean = (1.0 / n + 1) / 2; bool ok = false;
            for (double e : {-1e-6, 1e-6}) { int m = cnt ? (int)floor(sum / cnt + 0.5 + e) : 0; double d = m <= 1 ? mean : o.getTraversabilityClass(m).getDrivability(); if (fabs(u - d) < 1e-9) ok = true; }
            REQUIRE(ok, "simple:unknown", "unknown terrain has drivability " << u << " with " << cnt << " known cells of mean class " << (cnt ? sum / cnt : 0));
        }
        mon::distinct(mon::hashStr(mon::currentLog() + std::to_string(round)));
    }
    if (r.chance(0.1)) { // operator stored with its inputs
        Scratch d; env->serialize(d.d); LOGOP("scene"); boost::shared_ptr<Environment> e2(Environment::unserialize(d.d));
        for (int k = 0; k < 3; k++) {
            SimpleTraversability::Ptr q = e2->getItem<SimpleTraversability>(ops[k]->getUniqueId()); TraversabilityGrid::Ptr o = e2->getItem<TraversabilityGrid>(outs[k]->getUniqueId()); REQUIRE(q && o, "simple:scene", "operator or output is lost");
            Cells b = band(*outs[k], P); std::string bn = ob.empty() ? outs[k]->getBands().front() : ob; auto& dat = o->getGridData(bn); std::fill(dat.data(), dat.data() + dat.num_elements(), 77);
            REQUIRE(q->updateAll(), "simple:scene-update", "update of the stored operator failed");
            REQUIRE(band(*o, bn) == band(*outs[k], bn) && band(*o, P) == b, "simple:scene-result", "the stored operator gives another result");
        }
        mon::seen("simple.scene");
    }
    if (r.chance(0.2)) {
        TraversabilityGrid* o = new TraversabilityGrid(w + r.range(0, 1), h + r.range(1, 2), sx, sy); env->attachItem(o); ops[0]->setOutput(o, ob); REQUIRE(mon::throws([&] { ops[0]->updateAll(); }), "simple:size", "input and output of different size accepted");
        if (r.chance(0.5)) { ops[1]->getUniqueId(); FG* gone = useSlope ? slopes : steps; ops[1]->removeInput(gone); env->detachItem(gone); REQUIRE(mon::throws([&] { ops[1]->updateAll(); }), "simple:absent", "runs although an input is gone"); mon::seen("simple.absent"); }
        mon::seen("simple.refused");
    }
}

SECTION(grassfire, 3000, 20000)
{
    auto& r = c.rng; Environment env;
    int w = r.range(1, 16), h = r.range(1, 16); double sx = r.one({0.1, 0.25, 0.5}), sy = r.chance(0.6) ? sx : sx * r.one({0.5, 2.0});
    FrameNode* fn = new FrameNode; env.attachItem(fn); env.getRootNode()->addChild(fn);
    double yaw = r.chance(0.3) ? 0 : r.real(-3, 3); Vector3d off = r.chance(0.3) ? Vector3d::Zero() : Vector3d(r.real(-5, 5), r.real(-5, 5), r.real(-5, 5)); fn->setTransform(Affine3d(Translation3d(off)) * AngleAxisd(yaw, Vector3d::UnitZ()));
    MLSGrid* mls = new MLSGrid(w, h, sx, sy); env.attachItem(mls); env.setFrameNode(mls, fn);
    TraversabilityGrid* out = new TraversabilityGrid(w, h, sx, sy); env.attachItem(out); env.setFrameNode(out, fn);
    TraversabilityGrassfire* op = new TraversabilityGrassfire; env.attachItem(op);
    if (r.chance(0.1)) { REQUIRE(mon::throws([&] { op->updateAll(); }), "fire:no-input", "runs without input"); mon::seen("fire.incomplete"); }
    op->addInput(mls);
    if (r.chance(0.1)) REQUIRE(mon::throws([&] { op->updateAll(); }), "fire:no-output", "runs without output");
    if (r.chance(0.1)) { TraversabilityGrid* o = new TraversabilityGrid(w + r.range(0, 2), h + r.range(0, 2), sx, sy); env.attachItem(o); if (o->getCellSizeX() != size_t(w) || o->getCellSizeY() != size_t(h)) { op->setOutput(o); REQUIRE(mon::throws([&] { op->updateAll(); }), "fire:size", "writes to a grid of another size"); mon::seen("fire.refused"); } }
    op->setOutput(out);
    for (int round = r.range(1, 3); round-- > 0;) {
        TraversabilityGrassfire::Config cf; cf.maxStepHeight = r.real(0.1, 0.4); cf.maxSlope = r.real(0.1, 1.2); cf.robotHeight = cf.maxStepHeight * 2 + r.real(0.5, 1.5); cf.numTraversabilityClasses = r.range(1, 12); cf.numNominalMeasurements = r.range(1, 20);
        bool filter = r.chance(0.5); if (filter) { cf.outliertFilterMinMeasurements = 3; cf.outliertFilterMaxStdDev = 0.05; } op->setConfig(cf);
        LOGOP("grid " << w << "x" << h << " scale " << sx << "," << sy << " step " << cf.maxStepHeight << " slope " << cf.maxSlope << " height " << cf.robotHeight << " classes " << cf.numTraversabilityClasses << " nominal " << cf.numNominalMeasurements);
        mls->clear();
        // floor: a plane with bumps, far below the step height between neighbours
        double gmax = r.real(0, 0.35) * cf.maxStepHeight, ga = r.real(0, 2 * M_PI), noise = r.chance(0.5) ? 0 : 0.1 * cf.maxStepHeight, z0 = r.real(-3, 3);
        double pHole = r.one({0.0, 0.1, 0.4}), pWall = r.one({0.0, 0.1, 0.35}), pUpper = r.one({0.0, 0.3});
        enum { HOLE, FLOOR, WALL }; std::vector<int> kind(w * h); std::vector<double> z(w * h), cnt(w * h); // z: mean + stdev of the patch that matters
        auto ins = [&](int x, int y, double mean, double sd, double n) { SurfacePatch p(mean, sd); p.n = n; if (r.chance(0.5)) mls->insertTail(x, y, p); else mls->insertHead(x, y, p); };
        auto place = [&](int x, int y, int k) {
            int i = y * w + x; kind[i] = k; double sd = filter && r.chance(0.3) ? 0.02 : 0.001 + 0.004 * r.real(), f = z0 + gmax * (cos(ga) * x + sin(ga) * y) + (noise ? r.real(-noise, noise) : 0), n = r.range(1, 30);
            if (!filter && r.chance(0.5)) n = r.real(0.5, 30);
            double top = f; z[i] = 0; cnt[i] = n; float fm = f, fs = sd;
            if (k == FLOOR) { ins(x, y, fm, fs, n); z[i] = double(fm) + double(fs); }
            if (k == WALL) {
                double up = cf.maxStepHeight * 1.7 + 0.05 + r.real(0, 1) * (cf.robotHeight - cf.maxStepHeight * 1.7 - 0.15); float wm = f + up; z[i] = double(wm) + double(fs); ins(x, y, wm, fs, n); top = wm;
                if (r.chance(0.4)) { ins(x, y, fm, 0.003, r.range(1, 30)); mon::seen("fire.overhang"); }
            }
            double level = std::max(top, f) + cf.robotHeight + 2 * cf.maxStepHeight + 0.5;
            if (r.chance(pUpper)) { ins(x, y, level + r.real(0, 0.5), 0.003, r.range(1, 30)); mon::seen(k == HOLE ? "fire.upper.only" : "fire.upper"); }
            if (k == FLOOR && r.chance(0.1)) { ins(x, y, f - 5 - r.real(), 0.003, r.range(1, 30)); mon::seen("fire.below"); }
            if (filter && k != WALL && r.chance(0.15)) { ins(x, y, f + r.real(-1, 1) * cf.robotHeight, r.real(0.06, 0.5), r.range(1, 2)); mon::seen("fire.outlier"); }
        };
        for (int x = 0; x < w; x++) for (int y = 0; y < h; y++) place(x, y, r.chance(pHole) ? HOLE : r.chance(pWall) ? WALL : FLOOR);
        int sxi = r.range(0, w - 1), syi = r.range(0, h - 1); bool none = true; for (int k : kind) if (k == FLOOR) none = false;
        auto root = [&](double x, double y, double zz) { return Vector3d(fn->getTransform() * Vector3d(x, y, zz)); };
        auto run = [&](const Vector3d& p) { op->setStartPosition(p); return op->updateAll(); };
        if (r.chance(0.1)) { REQUIRE(!run(root(-r.real(0.01, 5), r.real(0, h * sy), z0)), "fire:outside", "start outside of the grid accepted"); mon::seen("fire.outside"); continue; }
        bool onFloor = kind[syi * w + sxi] == FLOOR;
        if (!onFloor) { // a hole is left for the nearest floor, if that is the only thing around
            if (kind[syi * w + sxi] == WALL) continue; bool ok = false;
            if (none) { for (int k : kind) if (k == WALL) none = false; if (!none || pUpper > 0 || (filter)) continue; REQUIRE(!run(root((sxi + .5) * sx, (syi + .5) * sy, z0)), "fire:nowhere", "found a floor in an empty grid"); mon::seen("fire.nowhere"); continue; }
            for (int u = -1; u <= 1; u++) for (int v = -1; v <= 1; v++) { int x = sxi + u, y = syi + v; if (x < 0 || y < 0 || x >= w || y >= h) continue; int k = kind[y * w + x]; if (k == WALL) { ok = false; u = 2; break; } if (k == FLOOR) ok = true; }
            if (!ok) continue;
        }
        double startZ = z0 + gmax * (cos(ga) * sxi + sin(ga) * syi) + r.real(-0.3, 0.3) * cf.maxStepHeight;
        // reached: floor connected to the start
        std::vector<char> reached(w * h, 0); std::vector<int> todo;
        if (onFloor) todo.push_back(syi * w + sxi); else { // any connected floor around the hole may be chosen; only judge if it is one piece
            for (int u = -1; u <= 1; u++) for (int v = -1; v <= 1; v++) { int x = sxi + u, y = syi + v; if (x < 0 || y < 0 || x >= w || y >= h || kind[y * w + x] != FLOOR) continue; todo.push_back(y * w + x); break; } }
        todo.resize(1); reached[todo[0]] = 1;
        for (size_t k = 0; k < todo.size(); k++) { int t = todo[k]; if (kind[t] != FLOOR) continue; for (int u = -1; u <= 1; u++) for (int v = -1; v <= 1; v++) { int x = t % w + u, y = t / w + v; if (x < 0 || y < 0 || x >= w || y >= h) continue; int j = y * w + x; if (kind[j] != HOLE && !reached[j]) { reached[j] = 1; todo.push_back(j); } } }
        if (!onFloor) { bool split = false; for (int u = -1; u <= 1; u++) for (int v = -1; v <= 1; v++) { int x = sxi + u, y = syi + v; if (x < 0 || y < 0 || x >= w || y >= h) continue; if (kind[y * w + x] == FLOOR && !reached[y * w + x]) split = true; } if (split) continue; mon::seen("fire.start.hole"); }
        Cells* before = nullptr; (void)before;
        REQUIRE(run(root((sxi + r.real(0.05, 0.95)) * sx, (syi + r.real(0.05, 0.95)) * sy, startZ)), "fire:return", "no floor found at " << sxi << "," << syi);
        Cells ot = band(*out, T), opb = band(*out, P); int n = cf.numTraversabilityClasses;
        REQUIRE(out->getTraversabilityClass(1).isSet() && out->getTraversabilityClass(1).getDrivability() == 0, "fire:obstacle", "obstacles are drivable");
        for (int i = 1; i <= n; i++) REQUIRE(fabs(out->getTraversabilityClass(1 + i).getDrivability() - double(i) / n) < 1e-9, "fire:classes", "class " << 1 + i << " has drivability " << out->getTraversabilityClass(1 + i).getDrivability());
        for (int i = 0; i < w * h; i++) {
            int x = i % w, y = i / w;
            if (!reached[i]) { REQUIRE(ot[i] == 0 && opb[i] == 0, "fire:unreached", "cell " << x << "," << y << " cannot be reached, but has class " << ot[i] << " and probability " << opb[i]); mon::seen("fire.unreached"); continue; }
            double p = std::min(1.0, cnt[i] / cf.numNominalMeasurements); REQUIRE(fabs(opb[i] / 255.0 - p) <= 1 / 255.0, "fire:probability", "cell " << x << "," << y << " has probability " << opb[i] / 255.0 << " expected " << p);
            bool step = false; int nb = 0; std::vector<Vector3d> pts(1, Vector3d::Zero());
            for (int u = -1; u <= 1; u++) for (int v = -1; v <= 1; v++) { if (!u && !v) continue; int a = x + u, b = y + v; if (a < 0 || b < 0 || a >= w || b >= h || !reached[b * w + a]) continue; nb++; double d = z[b * w + a] - z[i]; if (fabs(d) > cf.maxStepHeight) step = true; pts.push_back(Vector3d(u * sx, v * sy, d)); }
            if (step) { REQUIRE(ot[i] == 1, "fire:step", "cell " << x << "," << y << " has a step, but class " << ot[i]); mon::seen(kind[i] == WALL ? "fire.wall" : "fire.step"); continue; }
            if (kind[i] == WALL) continue;  // walls next to walls only
            if (nb < 5) { REQUIRE(ot[i] == 0, "fire:rim", "cell " << x << "," << y << " has " << nb << " known neighbours, but class " << ot[i]); mon::seen("fire.rim"); continue; }
            MatrixXd A(pts.size(), 3); VectorXd b(pts.size()); for (size_t k = 0; k < pts.size(); k++) { A.row(k) << pts[k].x(), pts[k].y(), 1; b[k] = pts[k].z(); }
            Vector3d f = A.colPivHouseholderQr().solve(b); double slope = atan(std::hypot(f.x(), f.y()));
            bool ok = false; int w0 = -1; for (double e : {-3e-5, 0.0, 3e-5}) { double sl = std::max(0.0, slope + e), d = 1 - sl / cf.maxSlope; int k = sl > cf.maxSlope ? 1 : 1 + (int)std::max(0.0, ceil((d - 0.00001) * n)); if (!e) w0 = k; if (ot[i] == k) ok = true; }
            REQUIRE(ok, "fire:slope", "cell " << x << "," << y << " with slope " << slope << " has class " << ot[i] << " expected " << w0); mon::seen(ot[i] == 1 ? "fire.steep" : "fire.drivable");
        }
        mon::seen("fire.run"); mon::distinct(mon::hashStr(mon::currentLog()));
    }
}
