#include "envworld.hpp"
EW_REGISTER()
using namespace ew;

SECTION_CPU(history, 600, 5000, 60)
{
    World w(c);
    int n = c.rng.range(1, 2);
    for (int i = 0; i < n; i++) w.newEnv();
    int steps = c.rng.range(10, c.thorough ? 150 : 80);
    for (int i = 0; i < steps; i++) {
        w.step();
        for (EnvM& e : w.envs) if (e.env) w.checkFrames(e);
    }
    mon::distinct(mon::hashStr(mon::currentLog()));
    if (c.idx < 2) mon::sample(mon::currentLog());
    w.finish();
}

// a chain of frames is cloned with the map
SECTION(cloneTo, 150, 2000)
{
    World w(c);
    w.newEnv(); w.newEnv();
    int steps = c.rng.range(5, 60);
    w.allowMove = c.rng.chance(0.5);
    for (int i = 0; i < steps; i++) w.step();
    for (int k = 0; k < 2; k++) {   // make sure some map sits on a chain
        EnvM& e = w.envs[k]; IP at = w.anyItem(e, 1 << F);
        for (int d = c.rng.range(1, 4); d > 0; d--) {
            IP f = w.create(F);
            if (w.attachBy(e, k, f, [&]() { e.env->addChild(at->f(), f->f()); }, "addChild-new")) { e.parent[f.get()] = at.get(); at = f; }
        }
        IP m = w.create(M);
        if (w.attachBy(e, k, m, [&]() { e.env->setFrameNode(m->m(), at->f()); }, "setFrame-newmap")) e.frameOf[m.get()] = at.get();
    }
    for (int k = 0; k < 4; k++) {
        EnvM& e = w.envs[c.rng.u(2)]; EnvM& o = w.envs[c.rng.u(2)];
        std::vector<Item*> ok;
        for (auto& kv : e.frameOf) { Item* t = kv.second; while (t != e.root.get() && e.parent.count(t)) t = e.parent[t]; if (t == e.root.get()) ok.push_back(kv.first); }
        if (ok.empty()) continue;
        Item* m = c.rng.pick(ok);
        LOGOP("cloneTo '" << m->id << "'");
        std::vector<Item*> chain;   // frame of the map up to below the root
        for (Item* t = e.frameOf[m]; t != e.root.get(); t = e.parent[t]) chain.push_back(t);
        std::set<EnvironmentItem*> before; for (EnvironmentItem* p : o.env->getItems<EnvironmentItem>()) before.insert(p);
        m->m()->cloneTo(*o.env);
        std::vector<EnvironmentItem*> added; for (EnvironmentItem* p : o.env->getItems<EnvironmentItem>()) if (!before.count(p)) added.push_back(p);
        REQUIRE(added.size() == chain.size() + 1, "cloneTo:items", added.size() << " new items for a chain of " << chain.size() << " frames and a map");
        TMap* nm = nullptr; for (EnvironmentItem* p : added) if (dynamic_cast<TMap*>(p)) nm = dynamic_cast<TMap*>(p);
        REQUIRE(nm && w.sameContent(m, nm), "cloneTo:map", "cloned map differs: " << w.diff);
        FrameNode* t = nm->getFrameNode();
        for (Item* f : chain) {
            REQUIRE(t && !before.count(t) && w.sameContent(f, t), "cloneTo:chain", "cloned frame chain differs: " << w.diff);
            t = t->getParent();
        }
        REQUIRE(t == o.env->getRootNode(), "cloneTo:root", "cloned chain does not end at the root");
        // take it into the model
        auto adopt = [&](EnvironmentItem* p, Item* src) {
            IP it = std::make_shared<Item>(*src); it->p = p; it->held.reset(); it->env = (int)(&o - &w.envs[0]); it->id = p->getUniqueId(); it->root = false;
            it->live = src->kind == F ? (void*)&static_cast<TFrame*>(p)->live : (void*)&static_cast<TMap*>(p)->live;
            o.items[it->id] = it; return it; };
        IP im = adopt(nm, m); FrameNode* ft = nm->getFrameNode(); IP below;
        for (Item* f : chain) {
            IP ifr = adopt(ft, f);
            if (below) o.parent[below.get()] = ifr.get(); else o.frameOf[im.get()] = ifr.get();
            below = ifr; ft = ft->getParent();
        }
        if (below) o.parent[below.get()] = o.root.get(); else o.frameOf[im.get()] = o.root.get();
        w.checkItems(o); w.checkFrames(o); w.checkItems(e); w.checkFrames(e);
        mon::seen("cloneTo"); if (chain.size() > 1) mon::seen("cloneTo.chain");
    }
    mon::distinct(mon::hashStr(mon::currentLog()));
    w.finish();
}
