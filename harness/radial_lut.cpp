// Radial look-up table: every cell offset within the radius, for any recompute history.
#include "mon.hpp"
#include <envire/tools/RadialLookUpTable.hpp>
using namespace envire;

static void checkAll(const RadialLookUpTable& t, double scale, double radius, mon::Rng& r) {
    // all offsets whose (axis) distance does not exceed the radius
    const int half = (int)std::floor(radius / scale + 1e-9);
    for (int y = -half; y <= half; y++)
        for (int x = -half; x <= half; x++) {
            const double d = t.getDistance(x, y), a = t.getAngle(x, y);
            const double ed = scale * std::hypot((double)x, (double)y), ea = std::atan2((double)y, (double)x);
            REQUIRE(mon::close(d, ed, 1e-9 * (1 + scale), 1e-9), "radial:distance", "scale=" << scale << " radius=" << radius << " distance(" << x << "," << y << ")=" << d << " expected " << ed);
            double da = std::fabs(a - ea); if (da > M_PI) da = std::fabs(da - 2 * M_PI);
            if (x || y)
                REQUIRE(da < 1e-9, "radial:angle", "scale=" << scale << " radius=" << radius << " angle(" << x << "," << y << ")=" << a << " expected " << ea);
            else
                REQUIRE(a == 0, "radial:angle-origin", "angle at the origin is " << a);
        }
    mon::seen("offsets", (uint64_t)(2 * half + 1) * (2 * half + 1));
}

SECTION(history, 20000, 400000) {
    RadialLookUpTable t;
    int steps = c.rng.range(1, 5);
    double scale = 0, radius = 0;
    for (int s = 0; s < steps; s++) {
        double ns, nr;
        ns = c.rng.chance(0.7) ? c.rng.one({0.05, 0.1, 0.2, 0.25, 0.3, 0.5, 1.0, 0.07}) : c.rng.real(0.01, 4);
        nr = c.rng.chance(0.6) ? ns * c.rng.range(0, 16) : c.rng.real(0, 16) * ns;
        if (s > 0 && c.rng.chance(0.35)) ns = scale;
        if (s > 0 && c.rng.chance(0.35)) nr = radius;
        if (nr / ns > 40) nr = ns * 40;
        if (nr <= 0) nr = ns * 0.5;
        LOGOP("recompute scale=" << ns << " radius=" << nr);
        t.recompute(ns, nr);
        mon::seen("recompute");
        if (s > 0 && (ns == scale) != (nr == radius)) mon::seen("recompute.one_changed");
        scale = ns; radius = nr;
        checkAll(t, scale, radius, c.rng);
        mon::distinct(mon::hashStr(std::to_string(scale) + "/" + std::to_string(radius)));
        if (c.rng.chance(0.3)) { // a copy keeps its own tables
            RadialLookUpTable u(t); t.recompute(scale * 1.5, radius * c.rng.one({0.4, 1.0, 2.0})); checkAll(u, scale, radius, c.rng);
            { RadialLookUpTable v; v.recompute(0.3, 1.0); v = u; u.recompute(0.7, 2.0); t = v; } checkAll(t, scale, radius, c.rng); mon::seen("copy"); }
    }
    mon::sample(mon::currentLog());
}
