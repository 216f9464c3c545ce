#include "envworld.hpp"
EW_REGISTER()
using namespace ew;

namespace {
typedef std::set<std::pair<EnvironmentItem*, EnvironmentItem*> > PRel;
// rebuilds the structure of the environment from the events alone
struct View {
    std::set<EnvironmentItem*> items; PRel frames, layers, maps; EnvironmentItem* root = nullptr;
    std::map<EnvironmentItem*, int> updates;
    std::string error; std::vector<std::string> log; long n = 0;
    void err(const std::string& e) { if (error.empty()) error = e; }
    void rel(PRel& r, event::Operation op, EnvironmentItem* a, EnvironmentItem* b, const char* name) {
        if (!items.count(a) || !items.count(b)) err(std::string(name) + " event about an item that is not in the environment");
        if (op == event::ADD) { if (!r.insert({a, b}).second) err(std::string(name) + " reported twice"); }
        else if (op == event::REMOVE) { if (!r.erase({a, b})) err(std::string(name) + " removed that was never reported"); }
        else err("update of a relation");
    }
    void apply(event::Type t, event::Operation op, EnvironmentItem* a, EnvironmentItem* b) {
        n++;
        std::ostringstream o; o << op << " " << t << " " << a << " " << b; log.push_back(o.str());
        if (!a) { err("event without subject"); return; }
        switch (t) {
        case event::ITEM:
            if (op == event::ADD) { if (!items.insert(a).second) err("item added twice"); if (!a->isAttached()) err("added item not attached"); }
            else if (op == event::REMOVE) {
                if (!items.erase(a)) err("unknown item removed");
                for (PRel* r : {&frames, &layers, &maps}) for (auto& q : *r) if (q.first == a || q.second == a) err("item removed before its relations");
            } else { if (!items.count(a)) err("unknown item updated"); updates[a]++; }
            break;
        case event::FRAMENODE_TREE: rel(frames, op, a, b, "frame relation"); break;
        case event::LAYER_TREE: rel(layers, op, a, b, "layer relation"); break;
        case event::FRAMENODE: rel(maps, op, a, b, "map frame"); break;
        case event::ROOT: root = op == event::ADD ? a : nullptr; break;
        }
    }
};
struct Raw : public EventHandler { View v; void handle(const Event& e) { v.apply(e.type, e.operation, e.a.get(), e.b.get()); } };
struct Listen : public EventListener {
    View v;
    void itemAttached(EnvironmentItem* i) { v.apply(event::ITEM, event::ADD, i, 0); }
    void itemDetached(EnvironmentItem* i) { v.apply(event::ITEM, event::REMOVE, i, 0); }
    void itemModified(EnvironmentItem* i) { v.apply(event::ITEM, event::UPDATE, i, 0); }
    void childAdded(FrameNode* p, FrameNode* ch) { v.apply(event::FRAMENODE_TREE, event::ADD, p, ch); }
    void childRemoved(FrameNode* p, FrameNode* ch) { v.apply(event::FRAMENODE_TREE, event::REMOVE, p, ch); }
    void childAdded(Layer* p, Layer* ch) { v.apply(event::LAYER_TREE, event::ADD, p, ch); }
    void childRemoved(Layer* p, Layer* ch) { v.apply(event::LAYER_TREE, event::REMOVE, p, ch); }
    void frameNodeSet(CartesianMap* m, FrameNode* f) { v.apply(event::FRAMENODE, event::ADD, m, f); }
    void frameNodeDetached(CartesianMap* m, FrameNode* f) { v.apply(event::FRAMENODE, event::REMOVE, m, f); }
    void setRootNode(FrameNode* r) { v.apply(event::ROOT, event::ADD, r, 0); }
    void removeRootNode(FrameNode* r) { v.apply(event::ROOT, event::REMOVE, r, 0); }
};
struct OnlyItems : public EventFilter { long asked = 0, passed = 0; bool filter(const Event& e) { asked++; bool p = e.type == event::ITEM; passed += p; return p; } };

void compare(const char* who, View& v, EnvM& e) {
    REQUIRE(v.error.empty(), "events:" + v.error, who << ": " << v.error);
    std::set<EnvironmentItem*> items; for (auto& kv : e.items) items.insert(kv.second->p);
    REQUIRE(v.items == items, "events:items", who << " knows " << v.items.size() << " items, there are " << items.size());
    PRel f, l, m;
    for (auto& q : e.parent) f.insert({q.second->p, q.first->p});
    for (auto& q : e.layer) l.insert({q.second->p, q.first->p});
    for (auto& q : e.frameOf) m.insert({q.first->p, q.second->p});
    REQUIRE(v.frames == f, "events:frames", who << " knows " << v.frames.size() << " frame relations, there are " << f.size());
    REQUIRE(v.layers == l, "events:layers", who << " knows " << v.layers.size() << " layer relations, there are " << l.size());
    REQUIRE(v.maps == m, "events:maps", who << " knows " << v.maps.size() << " map frames, there are " << m.size());
    REQUIRE(v.root == e.env->getRootNode(), "events:root", who << " knows another root node");
}
void gone(const char* who, View& v, bool root) {
    REQUIRE(v.error.empty(), "events:" + v.error, who << ": " << v.error);
    REQUIRE(v.items.empty() && v.frames.empty() && v.layers.empty() && v.maps.empty(), "events:leftover",
            who << " is left with " << v.items.size() << " items, " << v.frames.size() << " frame, " << v.layers.size() << " layer and " << v.maps.size() << " map relations");
    if (root) REQUIRE(!v.root, "events:leftover", who << " is left with a root node");
}
}

SECTION_CPU(stream, 800, 6000, 60)
{
    World w(c);
    w.newEnv(); if (c.rng.chance(0.4)) w.newEnv();
    EnvM* e = &w.envs[0];
    std::unique_ptr<Raw> a; std::unique_ptr<Listen> b; Raw filtered; OnlyItems filt; bool hasFiltered = false; long fromB = 0;
    int steps = c.rng.range(10, c.thorough ? 150 : 90), pos = 0;
    for (int i = 0; i < steps; i++) {
        e = &w.envs[0];
        if (c.rng.chance(0.08)) {
            if (!a) { LOGOP("add handler A"); a.reset(new Raw); e->env->addEventHandler(a.get()); compare("a handler added late", a->v, *e); mon::seen("handler.added"); if (w.opcount > 10) mon::seen("handler.added.late"); }
            else { LOGOP("remove handler A"); e->env->removeEventHandler(a.get()); gone("a removed handler", a->v, true); long n = a->v.n; w.step(); e = &w.envs[0]; REQUIRE(a->v.n == n, "events:after", "a removed handler is still called"); a.reset(); mon::seen("handler.removed"); }
            if (b) REQUIRE(b->v.error.empty(), "events:other", "another handler saw: " << b->v.error);
        }
        if (!b && c.rng.chance(0.1)) { LOGOP("add listener B"); b.reset(new Listen); e->env->addEventHandler(b.get()); compare("a listener", b->v, *e); mon::seen("listener.added"); }
        if (!hasFiltered && c.rng.chance(0.05)) { LOGOP("add filtered"); filtered.setFilter(&filt); e->env->addEventHandler(&filtered); hasFiltered = true; mon::seen("filter.added"); fromB = 0; }
        size_t la = a ? a->v.log.size() : 0, lb = b ? b->v.log.size() : 0; long fa = filt.asked; long fl = filtered.v.n, fp = filt.passed;
        if (b) b->v.updates.clear();
        w.step(); e = &w.envs[0];
        if (a) { compare("a handler", a->v, *e); pos++; }
        if (b) compare("a listener", b->v, *e);
        if (a && b) {
            std::vector<std::string> x(a->v.log.begin() + la, a->v.log.end()), y(b->v.log.begin() + lb, b->v.log.end());
            REQUIRE(x == y, "events:same", "two handlers saw different events"); if (!x.empty()) mon::seen("handlers.same");
        }
        if (hasFiltered) {
            REQUIRE(filtered.v.n - fl == filt.passed - fp, "events:filter", "a filtered handler got " << filtered.v.n - fl << " events, the filter passed " << filt.passed - fp);
            if (b) REQUIRE(filt.asked - fa == (long)(b->v.log.size() - lb), "events:filter", "the filter was asked for " << filt.asked - fa << " of " << b->v.log.size() - lb << " events");
            if (filt.asked > filt.passed && filt.passed) mon::seen("filter.both");
        }
        // content changes are reported for that item
        if (b && c.rng.chance(0.2)) {
            IP it = w.anyItem(*e, World::ALL); b->v.updates.clear();
            LOGOP("touch '" << it->id << "'");
            if (it->kind == F) w.setTf(it, c.rng.chance(0.5)); else if (c.rng.chance(0.5)) it->p->itemModified(); else e->env->itemModified(it->p);
            REQUIRE(b->v.updates.size() == 1 && b->v.updates[it->p] == 1, "events:update", "a change of '" << it->id << "' was not reported exactly once");
            mon::seen("update");
        }
    }
    mon::distinct(mon::hashStr(mon::currentLog()));
    if (c.idx < 2) mon::sample(mon::currentLog());
    w.destroyEnv(0);
    if (a) { gone("a handler that outlived the environment", a->v, false); mon::seen("env.destroyed"); }
    if (b) gone("a listener that outlived the environment", b->v, false);
    w.finish();
}
