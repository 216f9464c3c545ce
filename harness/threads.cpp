// One thread changes the source environment, another one takes the queued
// events into its own replica.  ThreadSanitizer watches; the consumer checks
// what it sees, and when both are done the replica must equal the source.
#define EW_NOLIVE
#include "replica.hpp"
#include <random>
#include <thread>
#include <atomic>
#include <unistd.h>
EW_REGISTER()
using namespace ew;

namespace {
// what the consumer checks after every flush, with no knowledge of the source
struct Watch {
    std::string error; long flushes = 0, changed = 0; std::set<size_t> states;
    void look(Environment& r) {
        flushes++;
        size_t h = 1469598103934665603ull; auto mix = [&](size_t v) { h = (h ^ v) * 1099511628211ull; };
        for (EnvironmentItem* i : r.getItems<EnvironmentItem>()) {
            for (char ch : i->getUniqueId()) mix((unsigned char)ch);
            if (i->getEnvironment() != &r) error = "an item of the replica belongs elsewhere";
            if (r.getItem(i->getUniqueId()).get() != i) error = "an item of the replica is not found under its id";
            if (TLayer* l = dynamic_cast<TLayer*>(i)) { mix(l->payload); mix(l->blob.size()); for (Layer* p : r.getParents(l)) { mix(p->getUniqueId().size()); if (p->getEnvironment() != &r) error = "layer parent outside the replica"; } }
            if (TMap* m = dynamic_cast<TMap*>(i)) { mix(m->payload); FrameNode* f = r.getFrameNode(m); if (f && f->getEnvironment() != &r) error = "map frame outside the replica"; }
            if (FrameNode* f = dynamic_cast<FrameNode*>(i)) { mix((size_t)(f->getTransform().matrix()(0, 3) * 1e6)); FrameNode* p = r.getParent(f); if (p && p->getEnvironment() != &r) error = "frame parent outside the replica"; int d = 0; while (p && ++d < 10000) p = r.getParent(p); if (p) error = "cycle in the replica"; }
        }
        states.insert(h);
    }
};
void nap(std::mt19937_64& g, int scale) { unsigned k = g() % 8; if (k < 3) return; if (k < 6) std::this_thread::yield(); else usleep(g() % (scale + 1)); }
}

SECTION_CPU(processor, 300, 2500, 200)
{
    World w(c); w.newEnv(); w.allowMove = false;
    for (int i = c.rng.u(15); i > 0; i--) w.step();
    std::unique_ptr<EventProcessor> p;
    {
        Environment rep; Watch watch;
        p.reset(new EventProcessor(&rep)); p->allowMultithreading(true);
        std::atomic<bool> done(false);
        unsigned long long seed = c.rng.u(1u << 30); int pace = c.rng.one<int>({0, 20, 200});
        bool early = c.rng.chance(0.5);
        if (!early) w.envs[0].env->addEventHandler(p.get());
        LOGOP("consumer starts, pace " << pace);
        std::thread consumer([&]() {
            std::mt19937_64 g(seed);
            try { while (!done.load(std::memory_order_relaxed)) { p->flush(); watch.look(rep); nap(g, pace); } } catch (const std::exception& e) { watch.error = std::string("exception: ") + e.what(); }
        });
        std::mt19937_64 g(seed + 1);
        try {
            if (early) w.envs[0].env->addEventHandler(p.get());
            int steps = c.rng.range(40, c.thorough ? 500 : 250);
            for (int i = 0; i < steps; i++) { w.step(); nap(g, pace); }
        } catch (...) { done = true; consumer.join(); throw; }
        done = true; consumer.join();
        REQUIRE(watch.error.empty(), "threads:consumer", watch.error);
        p->flush(); same(w, "after both threads are done", w.envs[0], &rep);
        mon::seen("processor.flushes", watch.flushes); mon::seen("processor.states", watch.states.size());
        if (watch.states.size() > 3) mon::seen("processor.interleaved");
        size_t h = 0; for (size_t s : watch.states) h ^= s; mon::distinct(h);
        w.envs[0].env->removeEventHandler(p.get());
    }
    if (c.idx < 1) mon::sample(mon::currentLog());
    w.finish();
}
SECTION_CPU(binary, 150, 1200, 200)
{
    World w(c); w.newEnv(); w.allowMove = false;
    std::unique_ptr<SynchronizationEventQueue> q;
    {
        Environment rep; Watch watch;
        q.reset(new SynchronizationEventQueue); q->allowMultithreading(true);
        std::atomic<bool> done(false);
        unsigned long long seed = c.rng.u(1u << 30); int pace = c.rng.one<int>({0, 20, 200});
        w.envs[0].env->addEventHandler(q.get());
        std::thread consumer([&]() {
            std::mt19937_64 g(seed);
            try { while (!done.load(std::memory_order_relaxed)) { std::vector<BinaryEvent> ev; q->popEvents(ev); rep.applyEvents(ev); watch.look(rep); nap(g, pace); } } catch (const std::exception& e) { watch.error = std::string("exception: ") + e.what(); }
        });
        std::mt19937_64 g(seed + 1);
        try {
            int steps = c.rng.range(40, c.thorough ? 400 : 150);
            for (int i = 0; i < steps; i++) { w.step(); nap(g, pace); }
        } catch (...) { done = true; consumer.join(); throw; }
        done = true; consumer.join();
        REQUIRE(watch.error.empty(), "threads:consumer", watch.error);
        std::vector<BinaryEvent> ev; q->popEvents(ev); rep.applyEvents(ev);
        same(w, "after both threads are done", w.envs[0], &rep);
        mon::seen("binary.flushes", watch.flushes); mon::seen("binary.states", watch.states.size());
        if (watch.states.size() > 3) mon::seen("binary.interleaved");
        size_t h = 0; for (size_t s : watch.states) h ^= s; mon::distinct(h);
        w.envs[0].env->removeEventHandler(q.get());
    }
    if (c.idx < 1) mon::sample(mon::currentLog());
    w.finish();
}
