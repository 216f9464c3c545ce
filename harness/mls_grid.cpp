// P18: bookkeeping of MLS grids over histories, and their file format.
#include "mon.hpp"
#include <envire/Core.hpp>
#include <envire/core/Serialization.hpp>
#include <envire/maps/MLSGrid.hpp>
#include <memory>
using namespace envire;
typedef MLSGrid::SurfacePatch P;
typedef MLSGrid::Position Pos;

// everything a patch stores, as bits
static std::string bits(const P& p) {
    std::string s;
    auto f = [&](float v) { s.append((const char*)&v, 4); };
    f(p.mean); f(p.stdev); f(p.height); f(p.min); f(p.max); f(p.n); f(p.normsq);
    f(p.plane.x); f(p.plane.y); f(p.plane.z); f(p.plane.xx); f(p.plane.yy); f(p.plane.xy); f(p.plane.xz); f(p.plane.yz); f(p.plane.zz); f(p.plane.n);
    s.append((const char*)&p.update_idx, sizeof p.update_idx);
    s.append((const char*)p.color, 3);
    s += p.isHorizontal() ? 'h' : p.isVertical() ? 'v' : p.isNegative() ? 'n' : '?';
    return s;
}
static P rndPatch(mon::Rng& r) {
    float m = r.real(-20, 20), s = r.real(0.001, 1);
    P p = r.chance(.3) ? P(Eigen::Vector3f(r.real(-1, 1), r.real(-1, 1), m), s)
                       : P(m, s, r.chance(.5) ? 0 : r.real(0, 3), r.one({P::VERTICAL, P::HORIZONTAL, P::NEGATIVE}));
    if (r.chance(.5)) p.setColor(base::Vector3d(r.real(), r.real(), r.real()));
    p.update_idx = r.u(1000);
    if (r.chance(.5)) { p.min = m - r.real(0, 2); p.max = m + r.real(0, 2); p.n = r.range(1, 9); p.normsq = r.real(0, 99); }
    return p;
}
struct Model {
    size_t w, h; double sx, sy, ox, oy;
    std::vector<std::vector<std::string>> cells;   // x * h + y
    bool index = false, exactIndex = true, exactExtents = true;
    double gap = 1.0f, thick = 0.05f; bool color = false; int model = 0;
    std::vector<std::string>& at(size_t x, size_t y) { return cells[x * h + y]; }
    size_t count() const { size_t n = 0; for (auto& c : cells) n += c.size(); return n; }
};
static void compare(MLSGrid& g, Model& m, const std::string& when) {
    REQUIRE(g.getCellSizeX() == m.w && g.getCellSizeY() == m.h, "size", when << ": grid has size " << g.getCellSizeX() << "x" << g.getCellSizeY() << " not " << m.w << "x" << m.h);
    REQUIRE(g.getScaleX() == m.sx && g.getScaleY() == m.sy && g.getOffsetX() == m.ox && g.getOffsetY() == m.oy, "geometry", when << ": scale or offset changed");
    const MLSGrid& cg = g;
    int x0 = 1 << 30, y0 = 1 << 30, x1 = -1, y1 = -1; std::set<std::pair<size_t, size_t>> occ;
    for (size_t x = 0; x < m.w; x++) for (size_t y = 0; y < m.h; y++) {
        auto& want = m.at(x, y); size_t k = 0;
        for (MLSGrid::const_iterator it = cg.beginCell(x, y); it != cg.endCell(); it++, k++) {
            REQUIRE(k < want.size(), "content", when << ": cell " << x << "," << y << " has more than " << want.size() << " patches");
            REQUIRE(bits(*it) == want[k], "content", when << ": patch " << k << " of cell " << x << "," << y << " (mean " << it->mean << ") differs");
        }
        REQUIRE(k == want.size(), "content", when << ": cell " << x << "," << y << " has " << k << " patches, expected " << want.size());
        if (k) { occ.insert({x, y}); x0 = std::min(x0, (int)x); x1 = std::max(x1, (int)x); y0 = std::min(y0, (int)y); y1 = std::max(y1, (int)y); }
    }
    REQUIRE(g.getCellCount() == m.count(), "count", when << ": getCellCount() is " << g.getCellCount() << ", the grid holds " << m.count());
    REQUIRE(g.empty() == (m.count() == 0), "count", when << ": empty() is " << g.empty() << " with " << m.count() << " patches");
    if (x1 >= 0) {
        MLSGrid::CellExtents e = g.getCellExtents();
        REQUIRE(e.min().x() <= x0 && e.min().y() <= y0 && e.max().x() >= x1 && e.max().y() >= y1, "extents",
                when << ": cell extents " << e.min().transpose() << " - " << e.max().transpose() << " miss cells of " << x0 << " " << y0 << " - " << x1 << " " << y1);
        if (m.exactExtents) {
            REQUIRE(e.min().x() == x0 && e.min().y() == y0 && e.max().x() == x1 && e.max().y() == y1, "extents",
                    when << ": cell extents " << e.min().transpose() << " - " << e.max().transpose() << ", occupied is " << x0 << " " << y0 << " - " << x1 << " " << y1);
            mon::seen("extents.exact");
        }
    } else if (m.exactExtents) {
        MLSGrid::CellExtents e = g.getCellExtents(); REQUIRE(e.min() == Eigen::Vector2i(0, 0) && e.max() == Eigen::Vector2i(0, 0), "extents", when << ": cell extents of an empty grid " << e.min().transpose() << " - " << e.max().transpose()); mon::seen("extents.empty");
    }
    const MLSGrid::Index* ix = g.getIndex();
    REQUIRE(!m.index || ix, "index", when << ": the index is gone");
    if (ix) {
        for (auto& o : occ) REQUIRE(ix->cells.count(Pos(o.first, o.second)), "index", when << ": occupied cell " << o.first << "," << o.second << " is not in the index");
        for (auto& p : ix->cells) REQUIRE(p.x < m.w && p.y < m.h, "index", when << ": the index has cell " << p.x << "," << p.y << " which is not in the grid");
        if (m.exactIndex) REQUIRE(ix->cells.size() == occ.size(), "index", when << ": the index has " << ix->cells.size() << " cells, " << occ.size() << " are occupied");
        mon::seen("index.checked");
    }
    boost::shared_ptr<MLSGrid::Index> gi(new MLSGrid::Index); g.generateIndex(gi);
    REQUIRE(gi->cells.size() == occ.size(), "generateIndex", when << ": generateIndex gave " << gi->cells.size() << " cells, " << occ.size() << " are occupied");
    REQUIRE(g.getConfig().gapSize == (float)m.gap && g.getConfig().thickness == (float)m.thick && g.getConfig().updateModel == m.model, "config", when << ": the configuration changed");
    mon::seen("compared");
}
static void config(MLSGrid& g, Model& m, mon::Rng& r) {
    m.gap = (float)r.real(.1, 3); m.thick = (float)r.real(.01, .2); m.color = r.chance(.5); m.model = r.u(3);
    g.getConfig().gapSize = m.gap; g.getConfig().thickness = m.thick; g.getConfig().useColor = m.color;
    g.getConfig().updateModel = (MLSConfiguration::update_model)m.model;
}
struct G { MLSGrid::Ptr g; Model m; };
static G fresh(mon::Rng& r) {
    G x; x.m.w = r.range(1, 9); x.m.h = r.range(1, 9); x.m.sx = r.real(.05, 2); x.m.sy = r.real(.05, 2); x.m.ox = r.real(-5, 5); x.m.oy = r.real(-5, 5);
    x.m.cells.resize(x.m.w * x.m.h);
    x.g = new MLSGrid(x.m.w, x.m.h, x.m.sx, x.m.sy, x.m.ox, x.m.oy);
    LOGOP("new grid " << x.m.w << "x" << x.m.h);
    return x;
}
static void emptied(Model& m) { for (auto& c : m.cells) c.clear(); m.exactExtents = m.exactIndex = true; }

SECTION(history, 20000, 400000) {
    mon::Rng& r = c.rng;
    std::vector<G> gs; gs.push_back(fresh(r)); if (r.chance(.5)) config(*gs[0].g, gs[0].m, r);
    int steps = r.range(5, 40);
    for (int s = 0; s < steps; s++) {
        size_t i = r.u(gs.size()); G& a = gs[i]; Model& m = a.m;
        int op = r.u(22); std::string w;
        if (op < 9) {
            size_t x = r.u(m.w), y = r.u(m.h); P p = rndPatch(r); bool head = r.chance(.5);
            w = std::string(head ? "insertHead" : "insertTail"); LOGOP(w << " grid " << i << " cell " << x << "," << y << " mean " << p.mean);
            if (head) { a.g->insertHead(x, y, p); m.at(x, y).insert(m.at(x, y).begin(), bits(p)); }
            else { a.g->insertTail(x, y, p); m.at(x, y).push_back(bits(p)); }
            mon::seen(w);
        } else if (op < 12) {
            std::vector<std::pair<size_t, size_t>> occ; for (size_t x = 0; x < m.w; x++) for (size_t y = 0; y < m.h; y++) if (m.at(x, y).size()) occ.push_back({x, y});
            if (occ.empty()) continue;
            auto o = r.pick(occ); auto& l = m.at(o.first, o.second); size_t k = r.u(l.size());
            w = "erase"; LOGOP("erase grid " << i << " cell " << o.first << "," << o.second << " patch " << k);
            MLSGrid::iterator it = a.g->beginCell(Pos(o.first, o.second)); for (size_t q = 0; q < k; q++) it++;
            it = a.g->erase(it); l.erase(l.begin() + k);
            REQUIRE((it == a.g->endCell()) == (k == l.size()), "erase", "erase returned the wrong position");
            if (k < l.size()) REQUIRE(bits(*it) == l[k], "erase", "erase did not return the following patch");
            m.exactExtents = false; m.exactIndex = false;
            mon::seen("erase");
        } else if (op == 12) {
            w = "clear"; LOGOP("clear grid " << i); a.g->clear(); emptied(m); m.color = false; mon::seen("clear");
        } else if (op < 16) {
            int dx = r.range(-(int)m.w - 1, m.w + 1), dy = r.range(-(int)m.h - 1, m.h + 1); if (r.chance(.6)) { dx = r.range(-1, 1); dy = r.range(-1, 1); }
            w = "move"; LOGOP("move grid " << i << " by " << dx << "," << dy);
            a.g->move(dx, dy);
            std::vector<std::vector<std::string>> n(m.cells.size());
            for (int x = 0; x < (int)m.w; x++) for (int y = 0; y < (int)m.h; y++) { int X = x + dx, Y = y + dy; if (X >= 0 && Y >= 0 && X < (int)m.w && Y < (int)m.h) n[X * m.h + Y] = m.at(x, y); }
            size_t before = m.count(); m.cells = n; m.exactExtents = m.exactIndex = m.exactExtents && m.exactIndex && true;
            mon::seen(m.count() ? m.count() < before ? "move.lost" : "move.kept" : "move.empty");
            // bounds may be conservative after a move of a grid with erased patches
        } else if (op == 16) {
            w = "initIndex"; LOGOP("initIndex grid " << i); a.g->initIndex(); m.index = true; m.exactIndex = true; mon::seen("initIndex");
        } else if (op == 17) {
            w = "config"; LOGOP("configure grid " << i); config(*a.g, m, r);
        } else if (op == 18 && gs.size() < 4) {
            w = "copy"; int k = r.u(3); LOGOP((k == 0 ? "copy" : k == 1 ? "clone" : "cloneShallow") << " of grid " << i);
            G b; b.m = m; b.m.index = false;
            if (k == 0) b.g = new MLSGrid(*a.g); else if (k == 1) b.g = a.g->clone(); else { b.g = a.g->cloneShallow(); emptied(b.m); }
            gs.push_back(b); mon::seen(k == 2 ? "cloneShallow" : "copy");
        } else if (op == 19) {
            if (r.chance(.4) || gs.size() < 2) { if (gs.size() < 4) { gs.push_back(fresh(r)); } continue; }
            size_t j = r.u(gs.size()); w = "assign"; LOGOP("grid " << i << " = grid " << j);
            bool ix = gs[i].m.index; *gs[i].g = *gs[j].g;
            if (i != j) { gs[i].m = gs[j].m; gs[i].m.index = ix; gs[i].m.exactIndex = ix ? false : true; if (ix) mon::seen("assign.indexed"); }
            mon::seen(i == j ? "assign.self" : "assign");
        } else if (op == 20) {
            w = "binary"; LOGOP("grid " << i << " through a binary event");
            a.g->setUniqueId(r.one({"/g", "/a/b_c"})); EnvireBinaryEvent ev(event::ITEM, event::ADD, a.g->getUniqueId(), ""); BinarySerialization so;
            REQUIRE(so.serializeBinaryEvent(a.g.get(), ev), "binary", "the grid cannot be written");
            BinarySerialization rd; EnvironmentItem::Ptr e(rd.unserializeBinaryEvent(ev));
            MLSGrid* g = dynamic_cast<MLSGrid*>(e.get());
            REQUIRE(g, "class", "the item read is no MLSGrid");
            G b; b.g = g; b.m = m; b.m.index = false; b.m.exactExtents = true;
            compare(*g, b.m, "after a binary event");
            REQUIRE(g->getHasCellColor() == m.color, "config", "hasCellColor was lost in a binary event");
            mon::seen("binary");
        } else {
            w = "write"; LOGOP("grid " << i << " through writeMap/readMap");
            std::stringstream ss; a.g->writeMap(ss);
            std::unique_ptr<MLSGrid> n(new MLSGrid(m.w, m.h, m.sx, m.sy, m.ox, m.oy)); n->getConfig() = a.g->getConfig();
            bool ix = r.chance(.5); if (ix) n->initIndex();
            n->readMap(ss);
            Model b = m; b.index = ix; b.exactExtents = b.exactIndex = true; compare(*n, b, "after readMap");
            mon::seen("writeMap");
        }
        if (!w.empty()) for (G& g : gs) compare(*g.g, g.m, "after " + w);
    }
    size_t t = 0; for (G& g : gs) t += g.m.count();
    if (t > 3) mon::distinct(mon::hashStr(mon::currentLog()));
    mon::sample(mon::currentLog());
}

// ---- queries over whole cells and grids ----
SECTION(query, 10000, 100000) {
    mon::Rng& r = c.rng; size_t w = r.range(1, 4), h = r.range(1, 4); MLSGrid::Ptr g(new MLSGrid(w, h, .5, .25)), o(new MLSGrid(w, h, .5, .25)); std::map<std::pair<size_t, size_t>, std::vector<P>> in, on;
    auto fill = [&](MLSGrid& q, std::map<std::pair<size_t, size_t>, std::vector<P>>& m) { for (size_t x = 0; x < w; x++) for (size_t y = 0; y < h; y++) for (int k = r.range(0, 3); k-- > 0;) { P p((float)r.real(-3, 3), (float)r.real(.05, .4), r.chance(.5) ? 0 : (float)r.real(0, 1), r.one({P::VERTICAL, P::HORIZONTAL, P::HORIZONTAL, P::NEGATIVE})); q.insertTail(x, y, p); m[{x, y}].push_back(p); } };
    fill(*g, in); fill(*o, on); auto dist = [](const P& a, const P& b) { if (!a.isHorizontal() && !b.isHorizontal()) return 0.; double al = a.isHorizontal() ? a.mean : a.mean - a.height, bl = b.isHorizontal() ? b.mean : b.mean - b.height; return std::max(0., std::max<double>(al - b.mean, bl - a.mean)); };
    for (int k = 0; k < 6; k++) { size_t x = r.u(w), y = r.u(h); P q((float)r.real(-3, 3), (float)r.real(.05, .4)); double sigma = r.one({1., 3., 5.}); int how = r.u(4); if (how < 2) sigma = 3; bool neg = how == 3 ? r.chance(.5) : false; if (how == 2 && r.chance(.5)) neg = true, how = 3;
        const P* want = NULL; bool doubt = false; for (auto& p : in[{x, y}]) { double lim = std::sqrt(double(q.stdev) * q.stdev + double(p.stdev) * p.stdev) * sigma, d = dist(p, q); if (std::fabs(d - lim) < 1e-4) doubt = true; if (!want && d < lim && (neg || !p.isNegative())) want = &p; } if (doubt) continue;
        P* got = how == 0 ? g->get(Pos(x, y), q) : how == 1 ? g->get(Pos(x, y), q.mean, q.stdev) : how == 2 ? g->get(Pos(x, y), q, sigma) : r.chance(.5) ? g->get(Pos(x, y), q, sigma, !neg) : g->get(Pos(x, y), q.mean, q.stdev, sigma, !neg);
        REQUIRE(!got == !want && (!got || bits(*got) == bits(*want)), "get", "get() at " << q.mean << "+-" << q.stdev << " sigma " << sigma << (neg ? " with absences" : "") << (got ? " gave the patch at " : " found nothing, expected ") << (got ? got->mean : want ? want->mean : 0)); mon::seen(got ? "get.found" : "get.nothing"); if (got && got->isNegative()) mon::seen("get.negative"); }
    // difference of height of two grids, weighted by the variances
    double d1 = 0, d2 = 0; bool doubt = false; for (auto& c : on) { auto& v = in[c.first]; if (v.empty()) continue; for (auto& p : c.second) { const P* n = NULL; double best = 1e9; for (auto& q : v) { double d = dist(p, q); if (n && std::fabs(d - best) < 1e-6) { doubt = true; continue; } if (d < best) { best = d; n = &q; } } double var = double(n->stdev) * n->stdev + double(p.stdev) * p.stdev; d1 += best / var; d2 += 1 / var; } }
    if (!doubt && d2 > 0) { std::pair<double, double> m = g->matchHeight(*o); REQUIRE(mon::close(m.first, d1 / d2, 1e-4, 1e-5) && mon::close(m.second, 1 / d2, 1e-4, 1e-5), "matchHeight", "difference " << m.first << " variance " << m.second << ", expected " << d1 / d2 << " " << 1 / d2); mon::seen("matchHeight"); }
    // the weight of all patches
    double f = r.one({.5, 2., .1}); g->scalePatchWeights(f); for (auto& c : in) { size_t k = 0; for (auto it = g->beginCell(c.first.first, c.first.second); it != g->endCell(); ++it, ++k) { const P& p = c.second[k]; for (auto q : {std::make_pair(it->plane.n, p.plane.n * f), std::make_pair(it->plane.z, p.plane.z * f), std::make_pair(it->plane.zz, p.plane.zz * f), std::make_pair(it->plane.x, p.plane.x * f), std::make_pair(it->normsq, p.normsq * f * f), std::make_pair(it->mean, double(p.mean)), std::make_pair(it->stdev, double(p.stdev)), std::make_pair(it->n, double(p.n))}) REQUIRE(mon::close(q.first, q.second, 1e-4, 1e-4), "weights", "patch of mean " << p.mean << ": " << q.first << " after scaling with " << f << ", expected " << q.second); mon::seen("weights"); } }
    mon::distinct(mon::hashStr(std::to_string(d1)));
}

// ---- older versions of the file format, and damaged files ----
struct R10 { double mean, stdev, height; bool horizontal; size_t update_idx; size_t xi, yi; };
struct R11 { double mean, stdev, height; bool horizontal; size_t update_idx; base::Vector3d color; size_t xi, yi; };
struct R12 { float mean, stdev, height; bool horizontal; size_t update_idx; uint8_t color[3]; size_t xi, yi; };
template <class R> static void put(std::string& s, const R& r) { s.append((const char*)&r, sizeof r); }

SECTION(legacy, 4000, 60000) {
    mon::Rng& r = c.rng; int v = r.u(3); size_t w = r.range(1, 6), h = r.range(1, 6);
    MLSGrid::Ptr g(new MLSGrid(w, h, .5, .5));
    std::string s; struct W { double m, s, h; bool hor; size_t idx, x, y; int col[3]; }; std::vector<W> want;
    int n = r.range(0, 20);
    for (int i = 0; i < n; i++) {
        W q{(float)r.real(-9, 9), (float)r.real(.01, 1), (float)r.real(0, 2), r.chance(.5), r.u(100), r.u(w), r.u(h), {r.range(0, 255), r.range(0, 255), r.range(0, 255)}};
        want.push_back(q);
        if (v == 0) { R10 d; memset((void*)&d, 0, sizeof d); d.mean = q.m; d.stdev = q.s; d.height = q.h; d.horizontal = q.hor; d.update_idx = q.idx; d.xi = q.x; d.yi = q.y; put(s, d); }
        if (v == 1) { R11 d; memset((void*)&d, 0, sizeof d); d.mean = q.m; d.stdev = q.s; d.height = q.h; d.horizontal = q.hor; d.update_idx = q.idx; d.xi = q.x; d.yi = q.y; d.color = base::Vector3d(q.col[0], q.col[1], q.col[2]) / 255.0; put(s, d); }
        if (v == 2) { R12 d; memset((void*)&d, 0, sizeof d); d.mean = q.m; d.stdev = q.s; d.height = q.h; d.horizontal = q.hor; d.update_idx = q.idx; d.xi = q.x; d.yi = q.y; for (int k = 0; k < 3; k++) d.color[k] = q.col[k]; put(s, d); }
    }
    std::ostringstream hd; hd << "mls\n1." << v << "\n" << (v == 0 ? sizeof(R10) : v == 1 ? sizeof(R11) : sizeof(R12)) << "\nbin\n";
    LOGOP("file of version 1." << v << " with " << n << " patches");
    std::istringstream is(hd.str() + s);
    g->readMap(is);
    REQUIRE(g->getCellCount() == want.size(), "legacy", "version 1." << v << ": " << g->getCellCount() << " patches read, " << want.size() << " in the file");
    std::map<std::pair<size_t, size_t>, size_t> pos;
    for (auto& q : want) {
        size_t k = pos[{q.x, q.y}]++; MLSGrid::iterator it = g->beginCell(q.x, q.y); for (size_t i = 0; i < k && it != g->endCell(); i++) it++;
        REQUIRE(it != g->endCell(), "legacy", "version 1." << v << ": patch missing");
        REQUIRE(it->mean == (float)q.m && it->stdev == (float)q.s && it->height == (float)q.h && it->isHorizontal() == q.hor && it->isVertical() == !q.hor && it->update_idx == q.idx, "legacy", "version 1." << v << ": patch differs: mean " << it->mean << " expected " << q.m);
        if (v) for (int k = 0; k < 3; k++) REQUIRE(it->color[k] == q.col[k], "legacy", "version 1." << v << ": colour " << (int)it->color[k] << " read, " << q.col[k] << " in the file");
    }
    mon::seen("legacy.1." + std::to_string(v)); if (n > 3) mon::distinct(mon::hashStr(s));
}

SECTION(damaged, 10000, 150000) {
    mon::Rng& r = c.rng; size_t w = r.range(2, 6), h = r.range(2, 6);
    MLSGrid::Ptr g(new MLSGrid(w, h, .5, .5)); int n = r.range(1, 12);
    for (int i = 0; i < n; i++) g->insertTail(r.u(w), r.u(h), rndPatch(r));
    std::ostringstream os; g->writeMap(os); std::string s = os.str(), what; bool mustThrow = false, shape = false;
    size_t head = 0; for (int k = 0; k < 4; k++) head = s.find('\n', head) + 1;
    size_t rec = (s.size() - head) / n; size_t tw = w, th = h;
    switch (r.u(6)) {
    case 0: { size_t cut = head + r.u(s.size() - head); mustThrow = (cut - head) % rec != 0; s.resize(cut); what = "cut at " + std::to_string(cut); break; }
    case 1: { s.resize(r.u(head - 1)); mustThrow = true; what = "cut in the header"; break; }
    case 2: { size_t p = r.u(head - 1); char ch = r.u(256); mustThrow = ch != s[p]; s[p] = ch; what = "header byte " + std::to_string(p) + " changed to " + std::to_string((int)ch);
              break; }
    case 3: { int k = r.range(1, 20); for (int i = 0; i < k; i++) s[head + r.u(s.size() - head)] = (char)r.u(256); what = "records corrupted"; break; }
    case 4: { tw = r.range(1, w); th = r.range(1, h); shape = true; what = "read into a smaller grid"; break; }
    case 5: { s += std::string(r.range(1, 10), 'x'); mustThrow = true; what = "bytes appended"; break; }
    }
    LOGOP(what << ", " << n << " patches on " << w << "x" << h);
    MLSGrid::Ptr d(new MLSGrid(tw, th, .5, .5)); std::istringstream is(s); bool threw = false;
    try { d->readMap(is); } catch (const std::exception& e) { threw = true; }
    if (shape) {
        size_t fit = 0; for (size_t x = 0; x < w; x++) for (size_t y = 0; y < h; y++) for (MLSGrid::iterator it = g->beginCell(x, y); it != g->endCell(); it++) fit += x < tw && y < th;
        mustThrow = fit < g->getCellCount();
    }
    if (mustThrow) REQUIRE(threw, "damaged", what << ": the file was accepted");
    mon::seen(threw ? "damaged.refused" : "damaged.read");
    size_t cnt = 0; for (size_t x = 0; x < tw; x++) for (size_t y = 0; y < th; y++) for (MLSGrid::iterator it = d->beginCell(x, y); it != d->endCell(); it++) cnt++;
    REQUIRE(cnt == d->getCellCount(), "damaged.count", "after " << what << " the grid counts " << d->getCellCount() << " patches and holds " << cnt);
    mon::distinct(mon::hashStr(s));
}
