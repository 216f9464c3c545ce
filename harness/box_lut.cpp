// Box distance look-up table: bracket oracle against the analytic distance.
#include "mon.hpp"
#include <envire/tools/BoxLookUpTable.hpp>
using namespace envire;

static double trueDist(double x, double y, double sx, double sy) {
    double dx = std::max(0.0, std::fabs(x) - sx / 2), dy = std::max(0.0, std::fabs(y) - sy / 2);
    return std::sqrt(dx * dx + dy * dy);
}

struct Geo { double scale, sx, sy, md; };

static Geo genGeo(mon::Rng& r) {
    Geo g;
    static const double scales[] = {0.05, 0.1, 0.2, 0.25, 0.3, 0.5, 1.0, 0.07, 0.13, 2.0};
    g.scale = r.chance(0.7) ? scales[r.u(10)] : r.real(0.03, 3.0);
    // keep the table small: at most ~40 cells a side
    auto len = [&](double maxCells) {
        double v = r.chance(0.5) ? g.scale * r.range(0, (int)maxCells) : r.real(0, maxCells) * g.scale;
        if (r.chance(0.15)) v += g.scale * r.one({0.05, 0.5, 0.55, 0.501, 0.51, 0.499, 0.95, 0.999});
        return v;
    };
    g.sx = len(14); g.sy = len(14); g.md = len(10);
    if (r.chance(0.05)) g.sx = 0;
    if (r.chance(0.05)) g.sy = 0;
    if (r.chance(0.05)) g.md = 0;
    return g;
}

static void query(BoxLookUpTable& t, const Geo& g, double throwMd, double throwSx, double throwSy, double maxScale, double x, double y) {
    LOGOP("query " << x << " " << y);
    double d = 0; bool threw = false;
    try { d = t.getDistanceToBox(x, y); } catch (const std::runtime_error&) { threw = true; }
    const double hx = g.sx / 2 + g.md, hy = g.sy / 2 + g.md;
    const double slack = 1e-4 + 1e-9 * (hx + hy);
    const bool inside = std::fabs(x) <= hx - 1e-4 * (1 + g.scale) && std::fabs(y) <= hy - 1e-4 * (1 + g.scale);
    const double out = std::max(std::fabs(x) - (throwSx / 2 + throwMd), std::fabs(y) - (throwSy / 2 + throwMd));
    if (inside) {
        const double td = trueDist(x, y, g.sx, g.sy);
        REQUIRE(!threw, "box:covered-query-throws", "query " << x << "," << y << " lies within the covered area but threw");
        REQUIRE(d >= td - 0.16 * g.scale - slack, "box:underestimates", "d=" << d << " true=" << td << " scale=" << g.scale << " at " << x << "," << y);
        REQUIRE(d <= td + 1.4143 * g.scale + slack, "box:overestimates", "d=" << d << " true=" << td << " scale=" << g.scale << " at " << x << "," << y);
        if (std::fabs(x) < g.sx / 2 - 1.01 * g.scale && std::fabs(y) < g.sy / 2 - 1.01 * g.scale) {
            REQUIRE(d == 0, "box:inside-nonzero", "deep inside the box but d=" << d);
            mon::seen("deep_inside");
        }
        mon::seen("query.covered");
        if (td > 0 && std::fabs(x) > g.sx / 2 && std::fabs(y) > g.sy / 2) mon::seen("query.corner");
    } else if (out > 2.01 * maxScale) {
        REQUIRE(threw, "box:uncovered-query-accepted", "query " << x << "," << y << " is " << out << " outside the covered area, returned " << d);
        mon::seen("query.rejected");
    } else {
        // not promised: only that it is rejected or some distance (and touches no foreign memory)
        REQUIRE(threw || d >= 0, "box:garbage", "negative distance " << d);
        mon::seen("query.rim");
    }
}

SECTION(history, 8000, 120000) {
    BoxLookUpTable t;
    LOGOP("fresh table");
    REQUIRE(mon::throws([&] { t.getDistanceToBox(0, 0); }), "box:uncomputed-query", "query before recompute did not throw");
    int steps = c.rng.range(1, 4);
    Geo g = genGeo(c.rng);
    double tMd = g.md, tSx = g.sx, tSy = g.sy, tSc = g.scale;
    for (int s = 0; s < steps; s++) {
        Geo prev = g;
        if (s > 0) {
            int k = c.rng.range(0, 5);
            if (k == 0) { g.md = prev.md * c.rng.real(0, 1); }                    // smaller margin, same box
            else if (k == 1) { g.md = prev.md + g.scale * c.rng.range(1, 4); }   // larger margin
            else if (k == 2) { g.scale = prev.scale * c.rng.one({0.5, 2.0, 0.9}); }
            else if (k == 3) { std::swap(g.sx, g.sy); }
            else if (k == 4) { (c.rng.chance(0.5) ? g.sx : g.sy) += g.scale * c.rng.one({0.3, 1.0, 1.5}); }
            else g = genGeo(c.rng);
            if (g.scale < 0.02) g.scale = 0.02;
        }
        LOGOP("recompute scale=" << g.scale << " sx=" << g.sx << " sy=" << g.sy << " md=" << g.md);
        t.recompute(g.scale, g.sx, g.sy, g.md);
        mon::seen("recompute");
        if (s > 0 && g.scale == prev.scale && g.sx == prev.sx && g.sy == prev.sy) mon::seen("recompute.same_box");
        tMd = std::max(tMd, g.md); tSx = std::max(tSx, g.sx); tSy = std::max(tSy, g.sy); tSc = std::max(tSc, g.scale);
        const double hx = g.sx / 2 + g.md, hy = g.sy / 2 + g.md;
        int n = c.rng.range(20, 60);
        for (int i = 0; i < n; i++) {
            double x, y;
            auto coord = [&](double h, double half) {
                switch (c.rng.range(0, 6)) {
                case 0: return c.rng.one({-1.0, 1.0}) * h * (1 - 1e-3 * c.rng.real());
                case 1: return c.rng.one({-1.0, 1.0}) * half;
                case 2: return c.rng.one({-1.0, 1.0}) * (h - g.scale * c.rng.real(0, 1.2));
                case 3: return c.rng.range(-10, 10) * g.scale * 0.5;
                case 4: return h + g.scale * c.rng.real(-0.2, 1.0);
                default: return c.rng.real(-h, h);
                }
            };
            x = coord(hx, g.sx / 2); y = coord(hy, g.sy / 2);
            if (c.rng.chance(0.08)) { (c.rng.chance(0.5) ? x : y) = c.rng.one({-1.0, 1.0}) * (std::max(tSx, tSy) / 2 + tMd + tSc * c.rng.real(2.05, 30)); }
            if (c.rng.chance(0.01)) x = c.rng.one({1e7, -1e7, 1e5});
            query(t, g, tMd, tSx, tSy, tSc, x, y);
        }
        if (c.rng.chance(0.2)) { // a copy keeps its own table
            BoxLookUpTable u(t); u.recompute(g.scale * 2, g.sx + g.scale, g.sy, g.md + g.scale); query(t, g, tMd, tSx, tSy, tSc, g.sx / 2 + 0.5 * g.md, c.rng.real(-hy, hy) * 0.99);
            BoxLookUpTable v; if (c.rng.chance(0.5)) v.recompute(0.5, 1, 1, 1); v = t; { BoxLookUpTable w(t); } query(v, g, tMd, tSx, tSy, tSc, c.rng.real(-hx, hx) * 0.99, c.rng.real(-hy, hy) * 0.99); mon::seen("copy"); }
        if (s == 0 && g.sx > 0 && g.md > 0) mon::distinct(mon::hashStr(std::to_string(g.scale) + "/" + std::to_string(g.sx) + "/" + std::to_string(g.sy) + "/" + std::to_string(g.md)));
    }
    mon::sample(mon::currentLog());
}

// every cell of a table, at its borders and centre
SECTION(sweep, 300, 6000) {
    BoxLookUpTable t;
    Geo g = genGeo(c.rng);
    LOGOP("recompute scale=" << g.scale << " sx=" << g.sx << " sy=" << g.sy << " md=" << g.md);
    t.recompute(g.scale, g.sx, g.sy, g.md);
    const double hx = g.sx / 2 + g.md, hy = g.sy / 2 + g.md;
    const double st = g.scale / 2.0;
    for (double x = -hx - g.scale; x <= hx + g.scale; x += st)
        for (double y = -hy - g.scale; y <= hy + g.scale; y += st) {
            mon::st().sh->loglen = 0;
            LOGOP("recompute scale=" << g.scale << " sx=" << g.sx << " sy=" << g.sy << " md=" << g.md);
            query(t, g, g.md, g.sx, g.sy, g.scale, x + 1e-4 * g.scale * c.rng.gauss(), y);
        }
}
