// Traversability grids: classes, cells, probabilities, copies, storage and rectangle statistics.
#include "mon.hpp"
#include <envire/Core.hpp>
#include <envire/core/Serialization.hpp>
#include <envire/maps/TraversabilityGrid.hpp>
#include <boost/filesystem.hpp>
using namespace envire;
using namespace Eigen;

namespace {
struct Model {
    size_t w, h; double sx, sy, ox, oy;
    std::vector<double> classes;      // -1: placeholder
    std::vector<uint8_t> cls, prob;   // row by row
    bool hasT = false, hasP = false;
};
struct G { TraversabilityGrid* g; TraversabilityGrid::Ptr keep; Model m; };
std::string scratch() { char d[] = "/tmp/verif.trav.XXXXXX"; if (!mkdtemp(d)) throw std::runtime_error("mkdtemp"); return d; }
struct Scratch { std::string d; Scratch() : d(scratch()) {} ~Scratch() { boost::system::error_code e; boost::filesystem::remove_all(d, e); } };

void check(TraversabilityGrid& g, const Model& m, const std::string& what) {
    REQUIRE(g.getCellSizeX() == m.w && g.getCellSizeY() == m.h && g.getScaleX() == m.sx && g.getScaleY() == m.sy && g.getOffsetX() == m.ox && g.getOffsetY() == m.oy, "trav:geometry", what << ": geometry changed");
    auto& cl = g.getTraversabilityClasses();
    // classes beyond the last defined one do not matter
    size_t upto = std::max(cl.size(), m.classes.size()); REQUIRE(upto <= 256, "trav:classes", what << ": " << cl.size() << " classes");
    for (size_t i = 0; i < upto; i++) {
        double want = i < m.classes.size() ? m.classes[i] : -1;
        bool set = i < cl.size() && cl[i].isSet();
        REQUIRE(set == (want >= 0), "trav:class-set", what << ": class " << i << " defined " << set << " expected " << (want >= 0));
        if (want < 0) { if (i < cl.size()) REQUIRE(!cl[i].isTraversable() && cl[i].getDrivability() == 0, "trav:placeholder", what << ": placeholder " << i << " is drivable"); continue; }
        REQUIRE(cl[i].getDrivability() == want && cl[i].isTraversable() == (want > 0), "trav:class", what << ": class " << i << " has drivability " << cl[i].getDrivability() << " expected " << want);
        REQUIRE(&g.getTraversabilityClass(i) == &cl[i], "trav:class-lookup", what << ": class " << i);
    }
    if (m.hasT && m.hasP) {
        auto& t = g.getGridData(TraversabilityGrid::TRAVERSABILITY); auto& p = g.getGridData(TraversabilityGrid::PROBABILITY);
        for (size_t y = 0; y < m.h; y++) for (size_t x = 0; x < m.w; x++) {
            REQUIRE(t[y][x] == m.cls[y * m.w + x], "trav:cell", what << ": cell " << x << "," << y << " has class " << int(t[y][x]) << " expected " << int(m.cls[y * m.w + x]));
            REQUIRE(p[y][x] == m.prob[y * m.w + x], "trav:prob", what << ": cell " << x << "," << y << " has probability " << int(p[y][x]) << " expected " << int(m.prob[y * m.w + x]));
        }
    }
    mon::seen("compared");
}
Model rndModel(mon::Rng& r) {
    Model m; m.w = r.range(1, 9); m.h = r.range(1, 9); m.sx = r.one({0.05, 0.1, 0.5, 1.0}); m.sy = r.chance(0.5) ? m.sx : r.one({0.05, 0.1, 0.5, 1.0}); m.ox = r.chance(0.5) ? 0 : r.real(-9, 9); m.oy = r.chance(0.5) ? 0 : r.real(-9, 9);
    m.cls.assign(m.w * m.h, 0); m.prob.assign(m.w * m.h, 0); return m;
}
double drv(mon::Rng& r) { return r.chance(0.2) ? 0.0 : r.chance(0.2) ? 1.0 : r.range(1, 999) / 1000.0; }
}

SECTION(history, 3000, 20000)
{
    auto& r = c.rng;
    boost::shared_ptr<Environment> env(new Environment()); int next = 0;
    std::vector<G> gs;
    auto add = [&](TraversabilityGrid* g, const Model& m) { env->attachItem(g); gs.push_back({g, g, m}); };
    auto fresh = [&]() { Model m = rndModel(r); add(new TraversabilityGrid(m.w, m.h, m.sx, m.sy, m.ox, m.oy, "g" + std::to_string(next++)), m); LOGOP("grid " << gs.size() - 1 << ": " << m.w << "x" << m.h << " scale " << m.sx << "," << m.sy); };
    fresh();
    for (int k = r.range(5, 40); k-- > 0;) {
        size_t i = r.u(gs.size()); auto& G0 = gs[i]; auto& g = *G0.g; auto& m = G0.m;
        switch (r.range(0, 14)) {
        case 0: if (gs.size() < 5) fresh(); break;
        case 1: { int n = r.chance(0.1) ? r.one({254, 255}) : r.range(0, 12); double d = drv(r); LOGOP(i << ".setClass " << n << " " << d);
            g.setTraversabilityClass(n, TraversabilityClass(d)); if ((int)m.classes.size() <= n) m.classes.resize(n + 1, -1); m.classes[n] = d; mon::seen("setClass"); break; }
        case 2: { double d = drv(r); uint8_t id = 77; bool ok = g.registerNewTraversabilityClass(id, TraversabilityClass(d)); LOGOP(i << ".register " << d << " -> " << ok << " " << int(id));
            if (!ok) { REQUIRE(id == 77, "trav:register-id", "refused, but returned an id"); REQUIRE(m.classes.size() >= 255, "trav:register-refused", "refused with " << m.classes.size() << " classes"); mon::seen("register.full"); break; }
            REQUIRE(id >= m.classes.size() || m.classes[id] < 0, "trav:register-taken", "id " << int(id) << " was already in use");
            if (m.classes.size() <= id) m.classes.resize(id + 1, -1); m.classes[id] = d; mon::seen("register"); break; }
        case 3: case 4: { size_t x = r.u(m.w), y = r.u(m.h); int kl = r.range(0, 12); LOGOP(i << ".set " << x << "," << y << " " << kl); g.setTraversability(kl, x, y); m.hasT = true; m.cls[y * m.w + x] = kl; mon::seen("set"); break; }
        case 5: case 6: { size_t x = r.u(m.w), y = r.u(m.h); double p = r.chance(0.15) ? r.one({0.0, 1.0}) : r.chance(0.1) ? r.one({-0.5, 1.5, 1e9, -1e9, 1.0000001, -1e-9}) : r.real();
            LOGOP(i << ".prob " << x << "," << y << " " << p);
            bool both = r.chance(0.3); int kl = r.range(0, 12);
            if (both) { g.setTraversabilityAndProbability(kl, p, x, y); m.hasT = true; m.cls[y * m.w + x] = kl; } else g.setProbability(p, x, y);
            m.hasP = true; double q = std::min(1.0, std::max(0.0, p)); double got = g.getProbability(x, y);
            REQUIRE(fabs(got - q) <= 0.5 / 255 + 1e-9, "trav:probability", "probability " << p << " is read back as " << got);
            m.prob[y * m.w + x] = (uint8_t)lrint(got * 255); mon::seen("probability"); if (p < 0 || p > 1) mon::seen("probability.clamped"); break; }
        case 7: { if (!m.hasT) break; size_t x = r.u(m.w), y = r.u(m.h); int kl = m.cls[y * m.w + x]; LOGOP(i << ".get " << x << "," << y << " class " << kl);
            if (kl < (int)g.getTraversabilityClasses().size()) { auto& t = g.getTraversability(x, y); double want = m.classes.size() > size_t(kl) ? m.classes[kl] : -1; REQUIRE(t.isSet() == (want >= 0) && t.getDrivability() == std::max(0.0, want), "trav:get", "cell of class " << kl << " gives " << t.getDrivability()); mon::seen("get"); }
            else { REQUIRE(mon::throws([&] { g.getTraversability(x, y); }), "trav:get-unknown", "cell of unknown class " << kl << " is answered"); REQUIRE(mon::throws([&] { g.getTraversabilityClass(kl); }), "trav:get-unknown", "unknown class " << kl << " is answered"); mon::seen("get.unknown"); }
            break; }
        case 8: { double d = r.one({-0.1, 1.1, -1.0, 5.0}); REQUIRE(mon::throws([&] { TraversabilityClass t(d); }), "trav:range", "drivability " << d << " accepted"); mon::seen("class.range"); break; }
        case 9: { if (gs.size() >= 5) break; LOGOP("clone of " << i); TraversabilityGrid* n = dynamic_cast<TraversabilityGrid*>(g.clone()); REQUIRE(n, "trav:clone", "clone has another type"); n->setUniqueId("g" + std::to_string(next++)); Model m2 = m; add(n, m2); mon::seen("clone"); break; }
        case 10: { if (gs.size() >= 5) break; LOGOP("copy of " << i); TraversabilityGrid* n = new TraversabilityGrid(g); n->setUniqueId("g" + std::to_string(next++)); Model m2 = m; add(n, m2); mon::seen("copy"); break; }
        case 11: { size_t j = r.u(gs.size()); LOGOP(j << " = " << i); std::string id = gs[j].g->getUniqueId(); *gs[j].g = g; gs[j].m = Model(m); REQUIRE(gs[j].g->getUniqueId() == id && gs[j].g->getEnvironment() == env.get(), "trav:assign-id", "assignment changed the identity"); mon::seen(i == j ? "assign.self" : "assign"); break; }
        case 12: { LOGOP("binary event of " << i);
            BinarySerialization so; EnvireBinaryEvent ev(event::ITEM, event::ADD, g.getUniqueId(), ""); so.serializeBinaryEvent(&g, ev);
            BinarySerialization rd; EnvironmentItem::Ptr it; { EnvironmentItem* p = rd.unserializeBinaryEvent(ev); it = p; }
            TraversabilityGrid* t = dynamic_cast<TraversabilityGrid*>(it.get()); REQUIRE(t, "trav:binary", "event was not read"); check(*t, m, "read from event"); mon::seen("binary"); break; }
        case 13: { if (!r.chance(0.3)) break; Scratch d; LOGOP("scene of all");
            env->serialize(d.d); boost::shared_ptr<Environment> e2(Environment::unserialize(d.d));
            for (auto& q : gs) { TraversabilityGrid::Ptr t = e2->getItem<TraversabilityGrid>(q.g->getUniqueId()); REQUIRE(t, "trav:scene", "grid " << q.g->getUniqueId() << " is lost"); check(*t, q.m, "read from scene"); }
            mon::seen("scene"); break; }
        case 14: { if (gs.size() < 2) break; LOGOP("remove " << i); env->detachItem(G0.g, false); gs.erase(gs.begin() + i); break; }
        }
        for (size_t j = 0; j < gs.size(); j++) check(*gs[j].g, gs[j].m, "grid " + std::to_string(j));
    }
    mon::distinct(mon::hashStr(mon::currentLog()));
}

SECTION(statistics, 800, 5000)
{
    auto& r = c.rng;
    size_t w = r.range(4, 30), h = r.range(4, 30); double s = r.chance(0.5) ? r.one({0.05, 0.1, 0.5, 1.0}) : r.real(0.03, 1.2), ox = r.chance(0.5) ? 0 : r.real(-20, 20), oy = r.chance(0.5) ? 0 : r.real(-20, 20);
    double sy = r.chance(0.6) ? s : s * r.one({0.5, 2.0, 0.7});
    TraversabilityGrid g(w, h, s, sy, ox, oy);
    int nc = r.range(1, 7); bool high = r.chance(0.2); std::vector<int> ids; std::vector<double> dr;
    for (int i = 0; i < nc; i++) { int id = high && i == nc - 1 ? 255 : i; double d = drv(r); g.setTraversabilityClass(id, TraversabilityClass(d)); ids.push_back(id); dr.push_back(d); }
    int style = r.range(0, 2);
    for (size_t x = 0; x < w; x++) for (size_t y = 0; y < h; y++) { int k = style == 0 ? r.u(nc) : style == 1 ? (x / 4 + y / 3) % nc : (r.chance(0.95) ? 0 : r.u(nc)); g.setTraversabilityAndProbability(ids[k], r.chance(0.5) ? 1.0 : r.real(), x, y); }
    auto& T = g.getGridData(TraversabilityGrid::TRAVERSABILITY);
    double W = w * s, H = h * sy, big = std::max(s, sy);
    LOGOP("grid " << w << "x" << h << " scale " << s << "," << sy << " offset " << ox << "," << oy << " classes " << nc);
    for (int k = 0; k < 6; k++) {
        double a = r.chance(0.3) ? r.range(-4, 4) * M_PI / 2 : r.real(-M_PI, M_PI), m = std::min(W, H) * 0.8;
        double lx = r.chance(0.1) ? r.real(0, s) : r.real(0, m), ly = r.chance(0.1) ? r.real(0, s) : r.real(0, m);
        double border = r.chance(0.15) ? 0 : r.chance(0.2) ? r.real(0, s) : r.real(0, 6 * s);
        Vector2d pc(ox + r.real(0.3, 0.7) * W, oy + r.real(0.3, 0.7) * H); if (r.chance(0.1)) pc = Vector2d(ox + r.real() * W, oy + r.real() * H);
        LOGOP("rect " << pc.transpose() << " angle " << a << " size " << lx << "," << ly << " border " << border);
        auto local = [&](size_t x, size_t y) { return Vector2d(Rotation2Dd(-a) * (Vector2d(ox + (x + .5) * s, oy + (y + .5) * sy) - pc)); };
        auto depth = [&](size_t x, size_t y, double e) { Vector2d q = local(x, y); return std::max(fabs(q.x()) - (lx + e) / 2, fabs(q.y()) - (ly + e) / 2); };
        auto dist = [&](size_t x, size_t y, double e) { Vector2d q = local(x, y); return Vector2d(std::max(0.0, fabs(q.x()) - (lx + e) / 2), std::max(0.0, fabs(q.y()) - (ly + e) / 2)).norm(); };
        auto fits = [&](double e, bool& near) { bool in = true; near = false; for (int q = 0; q < 4; q++) { Vector2d p = pc + Rotation2Dd(a) * Vector2d((q & 1 ? .5 : -.5) * (lx + e), (q & 2 ? .5 : -.5) * (ly + e)); double u = (p.x() - ox) / s, v = (p.y() - oy) / sy; if (u < 0 || v < 0 || u >= w || v >= h) in = false; for (double t : {u, v, w - u, h - v}) if (fabs(t) < 1e-6) near = true; } return in; };
        // "sure" cells must be counted, "possible" ones may be
        auto judge = [&](const TraversabilityStatistic& st, const char* what, std::function<bool(size_t, size_t)> sure, std::function<bool(size_t, size_t)> possible, std::function<double(size_t, size_t)> d, double tol) {
            std::map<int, std::pair<size_t, size_t>> n; std::map<int, std::pair<double, double>> dm;
            for (int i : ids) dm[i] = {1e300, 1e300};
            for (size_t x = 0; x < w; x++) for (size_t y = 0; y < h; y++) { int kl = T[y][x];
                if (sure(x, y)) { n[kl].first++; dm[kl].first = std::min(dm[kl].first, d(x, y)); }
                if (possible(x, y)) { n[kl].second++; dm[kl].second = std::min(dm[kl].second, d(x, y)); } }
            size_t total = 0; int highest = 0;
            for (int i = 0; i < 256; i++) {
                double md; size_t cnt; st.getStatisticForClass(i, md, cnt); total += cnt;
                REQUIRE(cnt == st.getClassCount(i), "stat:count-forms", what << ": class " << i << ": " << cnt << " and " << st.getClassCount(i));
                if (cnt) highest = i;
                REQUIRE(cnt >= n[i].first && cnt <= n[i].second, "stat:count", what << ": class " << i << " counted " << cnt << " times, " << n[i].first << ".." << n[i].second << " lie there");
                if (!cnt) { REQUIRE(md > 1e100, "stat:distance-none", what << ": absent class " << i << " has distance " << md); continue; }
                REQUIRE(md <= dm[i].first + tol && md >= dm[i].second - tol, "stat:distance", what << ": class " << i << " at distance " << md << ", lies between " << dm[i].second << " and " << dm[i].first);
                mon::seen("distance"); if (n[i].first == n[i].second) mon::seen("exact");
            }
            REQUIRE(total == st.getTotalCount(), "stat:total", what << ": " << st.getTotalCount() << " cells, classes add up to " << total);
            REQUIRE(highest == st.getHighestTraversabilityClass(), "stat:highest", what << ": highest class " << int(st.getHighestTraversabilityClass()) << " expected " << highest);
            return total;
        };
        bool near; bool in = fits(0, near);
        auto sure0 = [&](size_t x, size_t y) { return depth(x, y, 0) < -0.12 * big; };
        auto poss0 = [&](size_t x, size_t y) { return dist(x, y, 0) <= 0.86 * big; };
        size_t ccx = 0, ccy = 0; bool has = g.toGrid(pc.x(), pc.y(), ccx, ccy);
        auto cdist = [&](size_t x, size_t y) { return std::hypot((double(x) - double(ccx)) * s, (double(y) - double(ccy)) * sy); };
        if (!near) {
            TraversabilityStatistic st; g.computeStatistic(base::Pose2D(pc, a), lx, ly, st);
            double wp = g.getWorstProbabilityInRectangle(base::Pose2D(pc, a), lx, ly);
            double worstSure = 2, worstPoss = 2, pSure = 1, pPoss = 1;
            for (size_t x = 0; x < w; x++) for (size_t y = 0; y < h; y++) { double d = g.getTraversability(x, y).getDrivability(), p = g.getProbability(x, y); if (sure0(x, y)) { worstSure = std::min(worstSure, d); pSure = std::min(pSure, p); } if (poss0(x, y)) { worstPoss = std::min(worstPoss, d); pPoss = std::min(pPoss, p); } }
            if (!in) { REQUIRE(st.getTotalCount() == 0, "stat:outside", "rectangle is not in the grid, but cells are counted"); REQUIRE(wp == 1.0, "stat:outside-prob", "rectangle is not in the grid, probability " << wp); REQUIRE(mon::throws([&] { g.getWorstTraversabilityClassInRectangle(base::Pose2D(pc, a), lx, ly); }), "stat:outside-worst", "rectangle is not in the grid, but has a class"); mon::seen("outside"); }
            else if (has) {
                size_t n = judge(st, "rectangle", sure0, poss0, cdist, 1e-6 * big);
                REQUIRE(wp <= pSure + 1e-12 && wp >= pPoss - 1e-12, "stat:probability", "worst probability " << wp << ", cells have between " << pPoss << " and " << pSure);
                if (n) { double d = g.getWorstTraversabilityClassInRectangle(base::Pose2D(pc, a), lx, ly).getDrivability(); REQUIRE(d <= worstSure && d >= worstPoss, "stat:worst", "worst drivability " << d << ", cells have between " << worstPoss << " and " << worstSure); mon::seen("worst"); }
                mon::seen("statistic"); mon::seen("cells", n);
            }
        }
        bool near2; bool in2 = fits(border, near2);
        if (!near && !near2) {
            TraversabilityStatistic si, so; g.computeStatistic(base::Pose2D(pc, a), lx, ly, border, si, so);
            if (!in2) { REQUIRE(si.getTotalCount() == 0 && so.getTotalCount() == 0, "stat:outside", "rectangle is not in the grid, but cells are counted"); mon::seen("outside.border"); continue; }
            judge(si, "inner rectangle", sure0, poss0, cdist, 1e-6 * big);
            auto sure1 = [&](size_t x, size_t y) { return depth(x, y, border) < -0.12 * big && dist(x, y, 0) > 0.86 * big; };
            auto poss1 = [&](size_t x, size_t y) { return dist(x, y, border) <= 0.86 * big && depth(x, y, 0) > -0.12 * big; };
            size_t n = judge(so, "border", sure1, poss1, [&](size_t x, size_t y) { return dist(x, y, 0); }, 0.25 * s);
            mon::seen("border"); if (n) mon::seen("border.cells", n);
        }
    }
    mon::distinct(mon::hashStr(mon::currentLog()));
}
