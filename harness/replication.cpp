#include "replica.hpp"
EW_REGISTER()
using namespace ew;

namespace {
struct Sink : public SynchronizationEventHandler {
    Environment* to; long n = 0, bytes = 0; bool drop = false; Environment* late = 0;
    explicit Sink(Environment* to) : to(to) {}
    void handle(std::vector<BinaryEvent>& msgs) { n += msgs.size(); if (late) { std::vector<BinaryEvent> m(msgs); late->applyEvents(m); } if (!drop) to->applyEvents(msgs); }
    using SynchronizationEventHandler::handle;
};
}

// a queue that replays copies of the items, and a replica of the replica
SECTION_CPU(processor, 700, 5000, 60)
{
    World w(c); w.newEnv(); if (c.rng.chance(0.3)) w.newEnv();
    if (c.rng.chance(0.3)) for (int i = c.rng.u(30); i > 0; i--) w.step();
    {
        std::unique_ptr<EventProcessor> p, p2;
        Environment rep, rep2;
        p.reset(new EventProcessor(&rep)); p2.reset(new EventProcessor(&rep2));
        p->allowMultithreading(true); p2->allowMultithreading(true);
        bool chain = c.rng.chance(0.5);
        if (chain) rep.addEventHandler(p2.get());
        w.envs[0].env->addEventHandler(p.get());
        LOGOP("processor added" << (chain ? " with chain" : ""));
        int steps = c.rng.range(10, c.thorough ? 150 : 80); double fl = c.rng.one<double>({0.05, 0.15, 0.5});
        for (int i = 0; i < steps; i++) {
            w.step();
            if (c.rng.chance(fl)) {
                LOGOP("flush"); p->flush(); same(w, "after flush", w.envs[0], &rep); mon::seen("flush");
                if (c.rng.chance(0.1)) { LOGOP("flush again"); p->flush(); same(w, "after a second flush", w.envs[0], &rep); }
                if (chain) { p2->flush(); same(w, "replica of the replica", w.envs[0], &rep2); mon::seen("chain"); }
            }
        }
        p->flush(); same(w, "at the end", w.envs[0], &rep);
        if (chain) { p2->flush(); same(w, "replica of the replica", w.envs[0], &rep2); rep.removeEventHandler(p2.get()); }
        // leaving: the replica is emptied on the next flush
        if (c.rng.chance(0.3)) {
            LOGOP("remove handler"); w.envs[0].env->removeEventHandler(p.get()); p->flush();
            REQUIRE(rep.getItems<EnvironmentItem>().size() == 1, "replica:leftover", "the replica keeps " << rep.getItems<EnvironmentItem>().size() << " items after its source left");
            mon::seen("left");
        } else {
            w.destroyEnv(0);
            p->flush();
            REQUIRE(rep.getItems<EnvironmentItem>().size() == 1, "replica:leftover", "the replica keeps " << rep.getItems<EnvironmentItem>().size() << " items of a deleted source");
            mon::seen("source.deleted");
        }
    }
    mon::distinct(mon::hashStr(mon::currentLog()));
    if (c.idx < 2) mon::sample(mon::currentLog());
    w.finish();
}
// the pull interface: everything goes through the binary form
SECTION_CPU(pull, 700, 5000, 60)
{
    World w(c); w.newEnv(); if (c.rng.chance(0.3)) w.newEnv();
    if (c.rng.chance(0.5)) for (int i = c.rng.u(30); i > 0; i--) w.step();
    {
        Environment rep, rep2; bool late = c.rng.chance(0.4);
        std::vector<BinaryEvent> ev;
        bool first = true;
        int steps = c.rng.range(10, c.thorough ? 120 : 60); double fl = c.rng.one<double>({0.05, 0.15, 0.4});
        auto pull = [&](bool all) {
            LOGOP("pull" << (all ? " all" : ""));
            ev.clear(); w.envs[0].env->pullEvents(ev, all);
            bool again = all && c.rng.chance(0.1);
            rep.applyEvents(ev); same(w, all ? "after pulling everything" : "after pulling", w.envs[0], &rep);
            mon::seen(all ? "pull.all" : "pull"); if (!first && !all && ev.size()) mon::seen("pull.delta");
            if (all && !first) mon::seen("pull.all.again");
            if (again) { rep.applyEvents(ev); same(w, "after applying everything twice", w.envs[0], &rep); mon::seen("apply.twice"); }
            first = false;
        };
        for (int i = 0; i < steps; i++) {
            w.step();
            if (c.rng.chance(fl)) pull(c.rng.chance(0.25));
        }
        pull(false);
        if (late) { // somebody who joins now
            ev.clear(); w.envs[0].env->pullEvents(ev, true); rep2.applyEvents(ev); same(w, "late joiner", w.envs[0], &rep2); mon::seen("late");
        }
        ev.clear(); if (c.rng.chance(0.5)) w.envs[0].env->pullEvents(ev, false); else w.envs[0].env->pullEvents(ev);
        if (!ev.empty()) REQUIRE(false, "pull:residue", "pulling twice without a change gives " << ev.size() << " events");
    }
    mon::distinct(mon::hashStr(mon::currentLog()));
    w.finish();
}
// binary handler: direct, queued, with context updates
SECTION_CPU(handler, 700, 5000, 60)
{
    World w(c); w.newEnv(); if (c.rng.chance(0.3)) w.newEnv();
    if (c.rng.chance(0.3)) for (int i = c.rng.u(30); i > 0; i--) w.step();
    {
        std::unique_ptr<Sink> s; std::unique_ptr<EventProcessor> p2;
        Environment rep, rep2; bool chain = c.rng.chance(0.4);
        s.reset(new Sink(&rep)); p2.reset(new EventProcessor(&rep2)); p2->allowMultithreading(true);
        if (chain) { LOGOP("chained"); rep.addEventHandler(p2.get()); }
        bool queue = c.rng.chance(0.5), context = c.rng.chance(0.4), async = queue && !context && c.rng.chance(0.5);
        LOGOP("sink queue=" << queue << " context=" << context << " async=" << async);
        s->useEventQueue(queue); s->allowMultithreading(async);
        if (context) s->useContextUpdates(w.envs[0].env);
        w.envs[0].env->addEventHandler(s.get());
        int steps = c.rng.range(10, c.thorough ? 120 : 60);
        for (int i = 0; i < steps; i++) {
            w.step();
            if (!queue && context && c.rng.chance(0.1)) { // who joins late can place a map from its next update alone
                IP m = w.anyItem(w.envs[0], 1 << M); CartesianMap* cm = m ? dynamic_cast<CartesianMap*>(m->p) : 0;
                if (cm && cm->getFrameNode()) {
                    Environment late; s->late = &late; LOGOP("update for a late replica '" << m->id << "'"); w.envs[0].env->itemModified(cm); s->late = 0;
                    auto chain = [](CartesianMap* q) { std::vector<Eigen::Matrix4d> v; for (FrameNode* f = q->getFrameNode(); f; f = const_cast<FrameNode*>(f->getParent())) v.push_back(f->getTransform().matrix()); return v; };
                    CartesianMap* got = dynamic_cast<CartesianMap*>(late.getItem(m->id).get()); REQUIRE(got, "context:map", "the update of map '" << m->id << "' does not bring the map");
                    auto x = chain(cm), y = chain(got); REQUIRE(x.size() == y.size(), "context:frames", "map '" << m->id << "' is below " << y.size() << " frames, expected " << x.size()); for (size_t k = 0; k < x.size(); k++) REQUIRE((x[k] - y[k]).norm() < 1e-6, "context:transform", "frame " << k << " above map '" << m->id << "' is elsewhere"); mon::seen("context.late");
                }
            }
            if (!queue) { same(w, "direct", w.envs[0], &rep); mon::seen(context ? "direct.context" : "direct"); }
            else if (c.rng.chance(0.2)) { LOGOP("flush"); s->flush(); same(w, "queued", w.envs[0], &rep); mon::seen(context ? "queued.context" : async ? "queued.async" : "queued"); }
            if (c.rng.chance(0.02)) { queue = !queue; LOGOP("queue " << queue); s->useEventQueue(queue); mon::seen("queue.switched");
                if (!queue) { IP f = w.anyItem(w.envs[0], 1 << F); w.setTf(f, false); same(w, "switched to direct", w.envs[0], &rep); } }
        }
        if (queue) s->flush();
        same(w, "end", w.envs[0], &rep);
        if (chain) { p2->flush(); same(w, "replica of the binary replica", w.envs[0], &rep2); rep.removeEventHandler(p2.get()); mon::seen("binary.chain"); }
        w.envs[0].env->removeEventHandler(s.get());
    }
    mon::distinct(mon::hashStr(mon::currentLog()));
    w.finish();
}
// lost, repeated and reordered events: the replica stays an environment, and
// what it is told afterwards still arrives
SECTION_CPU(lossy, 600, 5000, 60)
{
    World w(c); w.newEnv();
    {
        Environment rep;
        double lose = c.rng.one<double>({0.05, 0.3}), twice = c.rng.one<double>({0, 0.2}), shuffle = c.rng.one<double>({0, 0.2});
        LOGOP("lose " << lose << " twice " << twice << " swap " << shuffle);
        int steps = c.rng.range(10, 60);
        for (int i = 0; i < steps; i++) {
            w.step();
            if (!c.rng.chance(0.3)) continue;
            std::vector<BinaryEvent> ev, got; if (c.rng.chance(0.5)) w.envs[0].env->pullEvents(ev); else w.envs[0].env->pullEvents(ev, false);
            for (auto& e : ev) { if (c.rng.chance(lose)) { mon::seen("lost"); continue; } got.push_back(e); if (c.rng.chance(twice)) { got.push_back(e); mon::seen("repeated"); } }
            for (size_t k = 1; k < got.size(); k++) if (c.rng.chance(shuffle)) { std::swap(got[k], got[k - 1]); mon::seen("swapped"); }
            rep.applyEvents(got);
            for (EnvironmentItem* x : rep.getItems<EnvironmentItem>()) {
                REQUIRE(rep.getItem(x->getUniqueId()).get() == x && x->getEnvironment() == &rep, "lossy:items", "item '" << x->getUniqueId() << "' is not registered right");
                auto inside = [&](EnvironmentItem* y, const char* what) { REQUIRE(y && y->getEnvironment() == &rep && rep.getItem(y->getUniqueId()).get() == y, "lossy:relation", what << " of '" << x->getUniqueId() << "' is not in the replica"); };
                if (FrameNode* f = dynamic_cast<FrameNode*>(x)) {
                    for (FrameNode* ch : rep.getChildren(f)) { inside(ch, "child frame"); REQUIRE(dynamic_cast<FrameNode*>(static_cast<EnvironmentItem*>(ch)), "lossy:class", "a child of frame '" << x->getUniqueId() << "' is no frame"); }
                    for (CartesianMap* m : rep.getMaps(f)) { inside(m, "map"); REQUIRE(dynamic_cast<CartesianMap*>(static_cast<EnvironmentItem*>(m)), "lossy:class", "a map on frame '" << x->getUniqueId() << "' is no map"); }
                } else if (Layer* l = dynamic_cast<Layer*>(x)) {
                    for (Layer* ch : rep.getChildren(l)) { inside(ch, "child layer"); REQUIRE(dynamic_cast<Layer*>(static_cast<EnvironmentItem*>(ch)), "lossy:class", "a child of layer '" << x->getUniqueId() << "' is no layer"); }
                    REQUIRE(!rep.getParent(static_cast<FrameNode*>(x)), "lossy:class", "layer '" << x->getUniqueId() << "' has a parent frame");
                }
            }
            mon::seen("lossy");
        }
        // everything present is told again: content and relations of items of the same class are right afterwards
        std::vector<BinaryEvent> ev; w.envs[0].env->pullEvents(ev, true); rep.applyEvents(ev);
        for (auto& kv : w.envs[0].items) {
            EnvironmentItem* x = rep.getItem(kv.first).get(); REQUIRE(x, "lossy:missing", "'" << kv.first << "' is missing after everything was sent again");
            REQUIRE(x->getClassName() == kv.second->p->getClassName(), "lossy:stale", "'" << kv.first << "' is still a " << x->getClassName() << " after a " << kv.second->p->getClassName() << " was sent");
            REQUIRE(w.sameContent(kv.second.get(), x), "lossy:content", "'" << kv.first << "' differs after everything was sent again: " << w.diff);
        }
        mon::seen("recovered");
    }
    mon::distinct(mon::hashStr(mon::currentLog()));
    w.finish();
}
