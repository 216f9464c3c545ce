#include "envworld.hpp"
EW_REGISTER()
using namespace ew;

SECTION_CPU(history, 600, 5000, 60)
{
    World w(c);
    int n = c.rng.range(1, 2);
    for (int i = 0; i < n; i++) w.newEnv();
    int steps = c.rng.range(10, c.thorough ? 150 : 80);
    for (int i = 0; i < steps; i++) {
        if (c.rng.chance(0.4)) { size_t k; EnvM* e = w.anyEnv(&k); w.operatorOp(*e, (int)k); }
        else w.step();
        for (EnvM& e : w.envs) if (e.env) w.checkGraph(e);
    }
    mon::distinct(mon::hashStr(mon::currentLog()));
    if (c.idx < 2) mon::sample(mon::currentLog());
    w.finish();
}

struct ModRec : public EventListener {
    std::map<EnvironmentItem*, int> mods;
    void itemModified(EnvironmentItem* i) { mods[i]++; }
};

// updates run the operators and report the outputs; layers leave their operator
SECTION(update, 300, 3000)
{
    World w(c);
    w.newEnv();
    int steps = c.rng.range(10, 60);
    for (int i = 0; i < steps; i++) {
        if (c.rng.chance(0.5)) w.operatorOp(w.envs[0], 0); else w.step();
    }
    EnvM& e = w.envs[0];
    ModRec rec; e.env->addEventHandler(&rec);
    for (int round = 0; round < 6; round++) {
        std::map<Item*, int> ups; for (auto& kv : e.items) if (kv.second->kind == O) ups[kv.second.get()] = static_cast<TOp*>(kv.second->p)->updates;
        rec.mods.clear();
        if (c.rng.chance(0.4)) {
            LOGOP("updateOperators");
            e.env->updateOperators();
            for (auto& kv : ups) REQUIRE(static_cast<TOp*>(kv.first->p)->updates == kv.second + 1, "update:operators", "operator '" << kv.first->id << "' ran " << static_cast<TOp*>(kv.first->p)->updates - kv.second << " times");
            for (auto& kv : e.items) {
                int want = 0; for (auto& q : e.out) if (q.second == kv.second.get()) want++;
                REQUIRE(rec.mods[kv.second->p] == want, "update:modified", "'" << kv.first << "' reported modified " << rec.mods[kv.second->p] << " times, expected " << want);
            }
            mon::seen("updateOperators");
        } else {
            IP ly = w.anyItem(e, World::LAY); if (!ly) break;
            std::set<Item*> gens; for (auto& q : e.out) if (q.second == ly.get()) gens.insert(q.first);
            if (gens.size() > 1) continue;      // a layer is the output of a single operator
            bool dirty = c.rng.chance(0.6);
            if (dirty) ly->l()->setDirty(); else ly->l()->resetDirty();
            REQUIRE(ly->l()->isDirty() == dirty, "layer:dirty", "dirty flag");
            if (c.rng.chance(0.6)) {
                LOGOP("updateFromOperator '" << ly->id << "' dirty=" << dirty << " generated=" << gens.size());
                ly->l()->updateFromOperator();
                for (auto& kv : ups) {
                    int want = dirty && gens.count(kv.first) ? 1 : 0;
                    REQUIRE(static_cast<TOp*>(kv.first->p)->updates - kv.second == want, "layer:update", "operator '" << kv.first->id << "' ran " << static_cast<TOp*>(kv.first->p)->updates - kv.second << " times, expected " << want);
                }
                if (!gens.empty()) REQUIRE(!ly->l()->isDirty(), "layer:clean", "generated layer still dirty after its update");
                mon::seen(gens.empty() ? "layer.update.none" : (dirty ? "layer.update" : "layer.update.clean"));
            } else {
                LOGOP("detachFromOperator '" << ly->id << "' generated=" << gens.size());
                bool r = ly->l()->detachFromOperator();
                REQUIRE(r && !ly->l()->isGenerated() && !ly->l()->getGenerator(), "layer:detach", "layer still generated after leaving its operator");
                for (Item* g : gens) e.out.erase({g, ly.get()});
                w.checkGraph(e);
                mon::seen(gens.empty() ? "layer.detach.none" : "layer.detach");
            }
        }
    }
    e.env->removeEventHandler(&rec);
    mon::distinct(mon::hashStr(mon::currentLog()));
    w.finish();
}

// metadata of layers: keyed, typed, copied with the layer
SECTION(metadata, 400, 4000)
{
    typedef std::vector<double> VD;
    struct M { int type; long l; std::string s; VD v; };
    std::vector<std::pair<TLayer*, std::map<std::string, M> > > ls;
    liveSet().clear();
    ls.push_back({new TLayer, {}});
    static const char* keys[] = {"a", "b", "colors", "", "a b"};
    for (int step = 0; step < 60; step++) {
        auto& L = ls[c.rng.u(ls.size())]; std::string k = keys[c.rng.u(5)];
        auto it = L.second.find(k);
        switch (c.rng.u(7)) {
        case 0: case 1: { int t = it == L.second.end() ? c.rng.range(0, 2) : it->second.type; M& m = L.second[k]; m.type = t;
            LOGOP("write '" << k << "' type " << t);
            if (t == 0) { m.l = c.rng.u(100000); L.first->getData<long>(k) = m.l; }
            if (t == 1) { m.s = "s" + std::to_string(c.rng.u(100000)); L.first->getData<std::string>(k) = m.s; }
            if (t == 2) { m.v.push_back(c.rng.real()); L.first->getData<VD>(k) = m.v; }
            mon::seen("meta.write"); break; }
        case 2: LOGOP("remove '" << k << "'"); L.first->removeData(k); L.second.erase(k); mon::seen("meta.remove"); break;
        case 3: if (c.rng.chance(0.3)) { LOGOP("remove all"); L.first->removeData(); L.second.clear(); mon::seen("meta.clear"); } break;
        case 4: if (ls.size() < 6) { LOGOP("clone"); ls.push_back({L.first->clone(), L.second}); mon::seen("meta.clone"); } break;
        case 5: { auto& S = ls[c.rng.u(ls.size())]; LOGOP("assign"); if (c.rng.chance(0.5)) *L.first = *S.first; else L.first->set(S.first); L.second = S.second; mon::seen("meta.assign"); break; }
        case 6: if (it != L.second.end()) { // wrong type
            bool t = mon::throws([&]() { if (it->second.type == 0) L.first->getData<VD>(k); else L.first->getData<long>(k); });
            REQUIRE(t, "meta:type", "metadata read as another type"); mon::seen("meta.wrongtype"); } break;
        }
        for (auto& Q : ls) for (int i = 0; i < 5; i++) {
            std::string q = keys[i]; auto m = Q.second.find(q); const TLayer* cl = Q.first;
            REQUIRE(cl->hasData(q) == (m != Q.second.end()), "meta:has", "presence of '" << q << "'");
            REQUIRE(cl->hasData<long>(q) == (m != Q.second.end() && m->second.type == 0), "meta:hastype", "type of '" << q << "'");
            REQUIRE(cl->hasData<VD>(q) == (m != Q.second.end() && m->second.type == 2), "meta:hastype", "type of '" << q << "'");
            if (m == Q.second.end()) REQUIRE(mon::throws([&]() { cl->getData<long>(q); }), "meta:missing", "missing metadata could be read");
            else if (m->second.type == 0) REQUIRE(cl->getData<long>(q) == m->second.l, "meta:value", "'" << q << "'");
            else if (m->second.type == 1) REQUIRE(cl->getData<std::string>(q) == m->second.s, "meta:value", "'" << q << "'");
            else REQUIRE(cl->getData<VD>(q) == m->second.v, "meta:value", "'" << q << "'");
        }
    }
    for (auto& Q : ls) delete Q.first;
    mon::distinct(mon::hashStr(mon::currentLog()));
}
