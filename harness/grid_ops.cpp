// Operators on the cells of single grids: fold, growth of objects, projection of classes.
#include "mon.hpp"
#include <envire/Core.hpp>
#include <envire/core/Serialization.hpp>
#include <envire/maps/Grids.hpp>
#include <envire/maps/TraversabilityGrid.hpp>
#include <envire/operators/ClassGridProjection.hpp>
#include <envire/operators/Fold.hpp>
#include <envire/operators/ObjectGrowing.hpp>
#include <boost/filesystem.hpp>
using namespace envire;

namespace {
struct Scratch { std::string d; Scratch() { char b[] = "/tmp/verif.gops.XXXXXX"; if (!mkdtemp(b)) throw std::runtime_error("mkdtemp"); d = b; } ~Scratch() { boost::system::error_code e; boost::filesystem::remove_all(d, e); } };
template <class G> auto cells(G& g, const std::string& b) { auto& d = b.empty() ? g.getGridData() : g.getGridData(b); typedef typename G::DataType T; std::vector<T> v; for (size_t y = 0; y < g.getCellSizeY(); y++) for (size_t x = 0; x < g.getCellSizeX(); x++) v.push_back(d[y][x]); return v; }
}

SECTION(fold, 4000, 30000)
{
    auto& r = c.rng; boost::shared_ptr<Environment> env(new Environment());
    typedef Grid<double> G; int w = r.range(1, 14), h = r.range(1, 14), n = r.chance(0.1) ? 0 : r.range(1, 9);
    G *in = new G(w, h, r.one({0.1, 1.0}), 0.5), *out = new G(w, h, 0.5, 0.5); env->attachItem(in); env->attachItem(out);
    bool same = r.chance(0.15); if (same) out = in;
    DoubleFoldOperator* op = new DoubleFoldOperator; env->attachItem(op);
    if (r.chance(0.1)) { REQUIRE(mon::throws([&] { op->updateAll(); }), "fold:no-input", "runs without input"); op->addInput(in); REQUIRE(mon::throws([&] { op->updateAll(); }), "fold:no-output", "runs without output"); op->removeInput(in); mon::seen("fold.incomplete"); }
    if (r.chance(0.1)) { int kind = r.u(3); int w2 = kind == 0 ? w + 1 : kind == 1 ? w : h, h2 = kind == 0 ? h : kind == 1 ? h + 1 : w; if (w2 == w && h2 == h) return;
        G* o2 = new G(w2, h2, 0.5, 0.5); env->attachItem(o2); op->addInput(in); op->addOutput(o2); REQUIRE(mon::throws([&] { op->updateAll(); }), "fold:size", "a grid of " << w << "x" << h << " cells was folded into one of " << w2 << "x" << h2); mon::seen("fold.refused"); return; }
    op->addInput(in); op->addOutput(out); 
    if (n || r.chance(0.5)) op->setNeightbourHoodSize(n);
    for (int round = r.range(1, 3); round-- > 0;) {
        if (round == 0 && r.chance(0.3)) { n = r.range(1, 9); op->setNeightbourHoodSize(n); mon::seen("fold.again"); }
        auto& d = in->getGridData(); double mag = r.one({1.0, 1000.0, 1e-3}); for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) d[y][x] = mag * r.gauss();
        auto iv = cells(*in, ""); LOGOP("grid " << w << "x" << h << " neighbourhood " << n << (same ? " in place" : "") << " first " << iv[0]);
        REQUIRE(op->updateAll(), "fold:return", "update failed");
        REQUIRE(same || iv == cells(*in, ""), "fold:input", "the input was changed");
        auto ov = cells(*out, ""); int half = (n + 1) / 2;
        for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) {
            double s = 0; int k = 0; for (int v = std::max(0, y - half); v < std::min(h, y + half); v++) for (int u = std::max(0, x - half); u < std::min(w, x + half); u++) { s += iv[v * w + u]; k++; }
            double want = k ? s / k : 0; REQUIRE(mon::close(ov[y * w + x], want, 1e-9 * mag), "fold:mean", "cell " << x << "," << y << " is " << ov[y * w + x] << ", the mean of its " << k << " neighbours is " << want);
            mon::seen(k == 4 * half * half ? "fold.inner" : "fold.rim");
        }
        mon::seen(same ? "fold.in-place" : "fold.separate"); if (!n) mon::seen("fold.zero"); mon::distinct(mon::hashStr(mon::currentLog()));
    }
}

SECTION(grow, 2500, 20000)
{
    auto& r = c.rng; Environment env; ObjectGrowingUINT8* op = new ObjectGrowingUINT8; env.attachItem(op);
    int w = r.range(1, 13), h = r.range(1, 13); double sx = r.one({0.05, 0.1, 0.3, 1.0}), sy = r.chance(0.5) ? sx : sx * r.one({0.5, 2.0, 0.7});
    int top = r.chance(0.15) ? 255 : r.range(0, 9); std::vector<int> rank(top + 1); for (auto& k : rank) k = r.u(r.chance(0.5) ? top + 1 : 3);
    GrowthPolicy<uint8_t> policy(top); for (int a = 0; a <= top; a++) for (int b = 0; b <= top; b++) if (rank[a] > rank[b] || r.chance(0.05)) policy.setBigger(a, b, rank[a] > rank[b]);
    for (int k = 0; k < 5; k++) { int a = r.u(top + 1), b = r.u(top + 1); REQUIRE(policy.isBigger(a, b) == (rank[a] > rank[b]), "policy:value", "policy does not return what was set for " << a << "," << b); }
    if (r.chance(0.3)) { int a = r.u(top + 1); policy.setBigger(a, a, true); policy.setBigger(a, a, false); }
    bool banded = r.chance(0.7); std::string b = banded ? r.one({std::string("a"), std::string("objects")}) : std::string();
    typedef Grid<uint8_t> G; auto make = [&](int w2, int h2) -> G* { G* g = r.chance(0.5) || !banded ? (G*)new TraversabilityGrid(w2, h2, sx, sy) : new G(w2, h2, sx, sy); env.attachItem(g); return g; };
    G* in = make(w, h);
    if (r.chance(0.12)) { int kind = r.u(3); int w2 = kind == 0 ? w + 1 : kind == 1 ? w : h, h2 = kind == 0 ? h : kind == 1 ? h + 1 : w; if (w2 == w && h2 == h) return; G* o2 = make(w2, h2); LOGOP("grid " << w << "x" << h << " into " << w2 << "x" << h2);
        REQUIRE(mon::throws([&] { op->growObjects(policy, *in, *o2, b, 0.5); }), "object:size", "a grid of " << w << "x" << h << " cells was grown into one of " << w2 << "x" << h2); mon::seen("object.refused"); return; }
    bool same = r.chance(0.2); G* out = same ? in : make(w, h);
    for (int round = r.range(1, 3); round-- > 0;) {
        double rad = r.chance(0.1) ? 0 : r.chance(0.3) ? sx * r.range(1, 4) : r.real(0, 4 * std::max(sx, sy)); double dense = r.one({0.05, 0.3, 1.0});
        auto& d = banded ? in->getGridData(b) : in->getGridData(); int back = r.u(top + 1); for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) d[y][x] = r.chance(dense) ? r.u(top + 1) : back;
        auto iv = cells(*in, b); std::ostringstream is; for (int v : iv) is << v << ' ';
        LOGOP("grid " << w << "x" << h << " scale " << sx << "," << sy << " classes to " << top << " radius " << rad << (same ? " in place" : "") << " band '" << b << "' cells " << is.str());
        op->growObjects(policy, *in, *out, b, rad);
        REQUIRE(same || iv == cells(*in, b), "object:input", "the input was changed");
        auto ov = cells(*out, b);
        for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) { int i = y * w + x, sure = -1, poss = -1; bool origin = false;
            for (int v = 0; v < h; v++) for (int u = 0; u < w; u++) { double d2 = (u - x) * sx * (u - x) * sx + (v - y) * sy * (v - y) * sy; bool self = u == x && v == y; int q = iv[v * w + u];
                if (self || d2 < rad * rad * (1 - 1e-9)) sure = std::max(sure, rank[q]);
                if (self || d2 < rad * rad * (1 + 1e-9) + 1e-18) { poss = std::max(poss, rank[q]); if (q == ov[i]) origin = true; } }
            REQUIRE(origin, "object:origin", "cell " << x << "," << y << " is " << int(ov[i]) << ", no cell in reach is");
            int q = rank[ov[i]]; REQUIRE(q >= sure && q <= poss, "object:biggest", "cell " << x << "," << y << " is " << int(ov[i]) << " of rank " << q << ", the biggest in reach has rank " << poss);
            if (rank[iv[i]] == q) REQUIRE(ov[i] == iv[i], "object:replaced", "cell " << x << "," << y << " was " << int(iv[i]) << " and is " << int(ov[i]) << ", which is not bigger");
            mon::seen("object.cell"); if (ov[i] != iv[i]) mon::seen("object.grown"); }
        mon::seen(same ? "object.in-place" : "object.separate"); mon::seen(banded ? "object.band" : "object.first-band"); if (top == 255) mon::seen("object.255"); mon::distinct(mon::hashStr(mon::currentLog()));
    }
}

namespace {
template <class I, class O> void classes(mon::Ctx& c, std::function<I(int)> mkI, std::function<O(int)> mkO)
{
    auto& r = c.rng; Environment env; typedef Grid<I> GI; typedef Grid<O> GO; int w = r.range(1, 12), h = r.range(1, 12); double s = r.one({0.1, 0.5, 1.0}), ox = r.real(-5, 5), oy = r.real(-5, 5);
    ClassGridProjection<I, O>* op = new ClassGridProjection<I, O>; env.attachItem(op);
    int kind = r.chance(0.75) ? 0 : r.range(1, 4); double shift = r.chance(0.5) ? 0 : r.real(-0.45, 0.45) * s; int w2 = kind == 1 ? w + 1 : kind == 2 ? std::max(1, h) : w, h2 = kind == 2 ? w : kind == 3 ? h + 1 : h; double far = kind == 4 ? r.one({-1.0, 1.0}) * r.real(0.6, 3) * s : shift;
    FrameNode *f1 = env.getRootNode(), *f2 = f1; double tx = 0; if (r.chance(0.4)) { tx = r.real(-3, 3); f2 = new FrameNode(Transform(Eigen::Translation3d(tx, 0, r.real(-1, 1)))); env.addChild(f1, f2); }
    GI* in = new GI(w, h, s, s, ox, oy); GO* out = new GO(w2, h2, s, s, ox + far - tx, oy); env.setFrameNode(in, f1); env.setFrameNode(out, f2); 
    int n = r.range(1, 9); std::map<I, O> m; for (int i = 0; i < n; i++) if (r.chance(0.95)) m[mkI(i)] = mkO(r.u(7)); op->class_map = m;
    if (r.chance(0.1)) { REQUIRE(mon::throws([&] { op->updateAll(); }), "class:no-input", "runs without input"); env.addInput(op, in); REQUIRE(mon::throws([&] { op->updateAll(); }), "class:no-output", "runs without output"); env.removeInput(op, in); mon::seen("class.incomplete"); }
    env.addInput(op, in); env.addOutput(op, out);
    bool aligned = kind != 4 && w == w2 && h == h2;
    for (int round = r.range(1, 2); round-- > 0;) {
        bool known = true; auto& d = in->getGridData(); auto& o = out->getGridData(); bool all = r.chance(0.7); std::vector<I> keys; for (auto& kv : m) keys.push_back(kv.first);
        for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) { I v = all && !keys.empty() ? keys[r.u(keys.size())] : mkI(r.u(n)); d[y][x] = v; if (!m.count(v)) known = false; }
        for (int y = 0; y < h2; y++) for (int x = 0; x < w2; x++) o[y][x] = mkO(9);
        auto iv = cells(*in, ""); LOGOP("grid " << w << "x" << h << " into " << w2 << "x" << h2 << " scale " << s << " shift " << far << " frame " << tx << " known " << known << " classes " << m.size());
        if (!aligned) { REQUIRE(mon::throws([&] { op->updateAll(); }), "class:aligned", "projected between grids that are not aligned"); for (O v : cells(*out, "")) REQUIRE(v == mkO(9), "class:aligned", "output changed although the grids are not aligned"); mon::seen(kind == 4 ? "class.misaligned" : "class.refused"); continue; }
        if (!known) { REQUIRE(mon::throws([&] { op->updateAll(); }), "class:unknown", "projected a class that has no projection"); mon::seen("class.unknown"); continue; }
        REQUIRE(op->updateAll(), "class:return", "update failed");
        REQUIRE(iv == cells(*in, ""), "class:input", "the input was changed");
        auto ov = cells(*out, ""); for (int i = 0; i < w * h; i++) { REQUIRE(ov[i] == m[iv[i]], "class:value", "cell " << i % w << "," << i / w << " of class " << double(iv[i]) << " became " << double(ov[i]) << " instead of " << double(m[iv[i]])); mon::seen("class.cell"); }
        if (f1 != f2) mon::seen("class.frames"); mon::distinct(mon::hashStr(mon::currentLog()));
    }
}
}

SECTION(classes, 4000, 30000)
{
    switch (c.rng.u(3)) {
    case 0: classes<uint8_t, uint8_t>(c, [](int i) { return uint8_t(i * 31); }, [](int i) { return uint8_t(i * 28); }); mon::seen("class.same-type"); break;
    case 1: classes<uint8_t, double>(c, [](int i) { return uint8_t(255 - i); }, [](int i) { return i * 0.1; }); mon::seen("class.to-double"); break;
    case 2: classes<float, uint8_t>(c, [](int i) { return float(i) - 3.5f; }, [](int i) { return uint8_t(i); }); mon::seen("class.from-float"); break;
    }
}
