#ifndef VERIF_REPLICA_HPP
#define VERIF_REPLICA_HPP
#include "envworld.hpp"
namespace {
using namespace ew;
// the replica must hold the same items, content and structure as the model of the source
void same(World& w, const std::string& who, EnvM& e, Environment* r) {
    std::vector<EnvironmentItem*> all = r->getItems<EnvironmentItem>();
    std::set<std::string> have, want;
    for (auto* i : all) have.insert(i->getUniqueId());
    for (auto& kv : e.items) want.insert(kv.first);
    for (auto& id : want) REQUIRE(have.count(id), "replica:missing", who << ": item '" << id << "' of the source is not in the replica");
    for (auto& id : have) REQUIRE(want.count(id), "replica:extra", who << ": item '" << id << "' is in the replica only");
    auto at = [&](const std::string& id) { return r->getItem(id).get(); };
    auto idOf = [&](EnvironmentItem* i) { return i ? i->getUniqueId() : std::string("-"); };
    for (auto& kv : e.items) {
        Item* m = kv.second.get(); EnvironmentItem* x = at(kv.first);
        REQUIRE(x->getClassName() == m->p->getClassName(), "replica:class", who << ": '" << kv.first << "' is a " << x->getClassName() << ", the source has a " << m->p->getClassName());
        REQUIRE(x != m->p && x->getEnvironment() == r, "replica:shared", who << ": the replica does not hold its own copy of '" << kv.first << "'");
        REQUIRE(w.sameContent(m, x), "replica:content", who << ": '" << kv.first << "' differs: " << w.diff);
        if (m->kind == F) {
            auto i = e.parent.find(m);
            FrameNode* p = r->getParent(static_cast<FrameNode*>(x));
            REQUIRE(idOf(p) == (i == e.parent.end() ? "-" : i->second->id), "replica:frame", who << ": parent of '" << kv.first << "' is " << idOf(p));
        }
        if (m->kind == M) {
            auto i = e.frameOf.find(m);
            FrameNode* p = r->getFrameNode(static_cast<CartesianMap*>(static_cast<Layer*>(x)));
            REQUIRE(idOf(p) == (i == e.frameOf.end() ? "-" : i->second->id), "replica:map", who << ": frame of map '" << kv.first << "' is " << idOf(p));
        }
        if (m->kind == L || m->kind == M) {
            std::multiset<std::string> got, exp;
            for (Layer* p : r->getParents(static_cast<Layer*>(x))) got.insert(p->getUniqueId());
            for (auto& q : e.layer) if (q.first == m) exp.insert(q.second->id);
            REQUIRE(got == exp, "replica:layer", who << ": layer parents of '" << kv.first << "': " << got.size() << ", source has " << exp.size());
        }
    }
    mon::seen("compared");
}
}
#endif
