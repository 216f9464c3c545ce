#include "envworld.hpp"
EW_REGISTER()
using namespace ew;

SECTION_CPU(history, 700, 6000, 60)
{
    World w(c);
    int n = c.rng.range(1, 3);
    for (int i = 0; i < n; i++) w.newEnv();
    int steps = c.rng.range(10, c.thorough ? 150 : 80);
    for (int i = 0; i < steps; i++) {
        if (c.rng.chance(0.02)) { size_t k; if (w.anyEnv(&k)) { w.destroyEnv(k); mon::seen("env.destroyed"); } }
        w.step();
        for (EnvM& e : w.envs) if (e.env) { w.checkItems(e); if (c.rng.chance(0.1)) w.checkContent(e); }
    }
    for (EnvM& e : w.envs) if (e.env) w.checkContent(e);
    mon::distinct(mon::hashStr(mon::currentLog()));
    if (c.idx < 2) mon::sample(mon::currentLog());
    w.finish();
}
