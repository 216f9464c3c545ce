// Random histories on real Environments next to a plain model of what they
// should contain.  Items report their construction and destruction, so the
// model also knows which objects may be alive.
#ifndef VERIF_ENVWORLD_HPP
#define VERIF_ENVWORLD_HPP
#include "mon.hpp"
#include <envire/Core.hpp>
#include <envire/core/Event.hpp>
#include <envire/core/EventHandler.hpp>
#include <envire/core/Operator.hpp>
#include <envire/core/Serialization.hpp>
#include <Eigen/Geometry>
#include <algorithm>
#include <memory>

namespace ew {
using namespace envire;

inline std::set<const void*>& liveSet() { static std::set<const void*> s; return s; }
#ifdef EW_NOLIVE   // for threads: no shared register, whose lock would order the threads
struct Live { };
inline bool isAlive(const void*) { return true; }
inline bool isFreed(const void*) { return true; }
#else
inline bool isAlive(const void* p) { return liveSet().count(p); }
inline bool isFreed(const void* p) { return !liveSet().count(p); }
struct Live {   // member: its address identifies the object that contains it
    Live() { liveSet().insert(this); }
    Live(const Live&) { liveSet().insert(this); }
    Live& operator=(const Live&) { return *this; }
    ~Live() { liveSet().erase(this); }
};

#endif
inline std::string hexOf(const std::string& s) {
    std::string r; char b[4];
    for (unsigned char c : s) { snprintf(b, 4, "%02x", c); r += b; }
    return "x" + r;
}

class TFrame : public FrameNode {
    ENVIRONMENT_ITEM(TFrame)
public:
    Live live; long payload = 0;
    TFrame() {}
    void serialize(Serialization& so) { FrameNode::serialize(so); so.write("payload", payload); }
    void unserialize(Serialization& so) { FrameNode::unserialize(so); so.read("payload", payload); }
};
class TLayer : public Layer {
    ENVIRONMENT_ITEM(TLayer)
public:
    Live live; long payload = 0; std::string blob;
    TLayer() : Layer(Environment::ITEM_NOT_ATTACHED) {}
    void serialize(Serialization& so) {
        Layer::serialize(so); so.write("payload", payload);
        std::ostream& os = so.getBinaryOutputStream(getMapFileName() + ".blob");
        os.write(blob.data(), blob.size());
    }
    void unserialize(Serialization& so) {
        Layer::unserialize(so); so.read("payload", payload);
        std::istream& is = so.getBinaryInputStream(getMapFileName() + ".blob");
        blob.assign(std::istreambuf_iterator<char>(is), std::istreambuf_iterator<char>());
    }
};
class TMap : public Map<2> {
    ENVIRONMENT_ITEM(TMap)
public:
    Live live; long payload = 0; std::string blob;
    TMap() : Map<2>(Environment::ITEM_NOT_ATTACHED) {}
    Extents getExtents() const { return Extents(Eigen::Vector2d(-1, -2), Eigen::Vector2d(3, 4)); }
    void serialize(Serialization& so) {
        Layer::serialize(so); so.write("payload", payload);
        std::ostream& os = so.getBinaryOutputStream(getMapFileName() + ".a");
        os.write(blob.data(), blob.size());
        std::ostream& os2 = so.getBinaryOutputStream(getMapFileName() + ".b");
        os2 << blob.size();
    }
    void unserialize(Serialization& so) {
        Layer::unserialize(so); so.read("payload", payload);
        std::istream& is = so.getBinaryInputStream(getMapFileName() + ".a");
        blob.assign(std::istreambuf_iterator<char>(is), std::istreambuf_iterator<char>());
        size_t n = 0; so.getBinaryInputStream(getMapFileName() + ".b") >> n;
        if (n != blob.size()) throw std::runtime_error("blob size");
    }
};
class TOp : public Operator {
    ENVIRONMENT_ITEM(TOp)
public:
    Live live; long payload = 0; int updates = 0;
    TOp() {}
    TOp(int in, int out) : Operator(in, out) {}
    bool updateAll() { updates++; return true; }
    void serialize(Serialization& so) { EnvironmentItem::serialize(so); so.write("payload", payload); }
    void unserialize(Serialization& so) { EnvironmentItem::unserialize(so); so.read("payload", payload); }
};

enum Kind { F, L, M, O };
struct Item {
    EnvironmentItem* p = nullptr;
    const void* live = nullptr;
    Kind kind = F;
    std::string id, label;
    long payload = 0;
    std::string blob;
    TransformWithUncertainty tf{Transform(Transform::Identity())};
    int env = -1;               // index of the environment, -1 when detached
    EnvironmentItem::Ptr held;  // a user reference, if one is kept
    bool ownedRaw = false;      // not attached, no reference: the user's to delete
    int inArity = 0, outArity = 0;
    bool root = false;
    FrameNode* f() const { return static_cast<FrameNode*>(p); }
    Layer* l() const { return static_cast<Layer*>(p); }
    CartesianMap* m() const { return static_cast<CartesianMap*>(p); }
    Operator* o() const { return static_cast<Operator*>(p); }
};
typedef std::shared_ptr<Item> IP;
typedef std::set<std::pair<Item*, Item*> > Rel;

struct EnvM {
    Environment* env = nullptr;
    std::string prefix = "/";
    IP root;
    std::map<std::string, IP> items;
    std::map<Item*, Item*> parent;     // frame -> parent
    Rel layer;                         // child, parent
    Rel in, out;                       // operator, layer
    std::map<Item*, Item*> frameOf;    // map -> frame
};

struct World {
    mon::Ctx& c;
    std::vector<EnvM> envs;
    std::vector<IP> loose;             // detached or never attached items
    int serial = 0;
    bool allowMove = true;             // moving items between environments
    bool strictDelete = true;
    long opcount = 0;
    explicit World(mon::Ctx& c) : c(c) { liveSet().clear(); }
    ~World() { }

    // ---- set up / tear down
    void newEnv() {
        EnvM e; e.env = new Environment();
        e.root = std::make_shared<Item>();
        e.root->p = e.env->getRootNode(); e.root->kind = F; e.root->id = e.root->p->getUniqueId(); e.root->root = true;
        e.root->env = (int)envs.size();
        e.items[e.root->id] = e.root;
        envs.push_back(e);
    }
    void destroyEnv(size_t i) {
        LOGOP("delete env" << i);
        EnvM& e = envs[i];
        std::vector<IP> gone;
        for (auto& kv : e.items) { kv.second->env = -1; gone.push_back(kv.second); }
        delete e.env; e.env = nullptr;
        for (IP& it : gone) if (!it->root) released(it);
        e = EnvM();
    }
    // the environment gave up the item: it lives on only if a reference exists
    void released(IP it) {
        if (it->held) { loose.push_back(it); return; }
        REQUIRE(isFreed(it->live), "leak:item", "item " << it->id << " was not freed although nothing refers to it");
        mon::seen("item.freed");
    }
    void finish() {
        for (size_t i = 0; i < envs.size(); i++) if (envs[i].env) destroyEnv(i);
        for (IP& it : loose) dropLoose(it);
        loose.clear();
        REQUIRE(liveSet().empty(), "leak:end", liveSet().size() << " items alive after every owner is gone");
    }
    void dropLoose(IP it) {
        checkAlive(it);
        if (it->held) { it->held.reset(); }
        else delete it->p;
        it->p = nullptr;
        REQUIRE(isFreed(it->live), "leak:item", "item " << it->id << " alive after its last reference is gone");
    }
    void checkAlive(IP it) {
        if (it->root) return;
        REQUIRE(isAlive(it->live), "lifetime:early", "item " << it->id << " was destroyed while still owned");
    }
    void forget() {  // after a violation: nothing to clean
    }

    // ---- choosing
    EnvM* anyEnv(size_t* idx = nullptr) {
        std::vector<size_t> v; for (size_t i = 0; i < envs.size(); i++) if (envs[i].env) v.push_back(i);
        if (v.empty()) return nullptr;
        size_t i = c.rng.pick(v); if (idx) *idx = i; return &envs[i];
    }
    IP anyItem(EnvM& e, int kindMask, bool noRoot = false) {
        std::vector<IP> v;
        for (auto& kv : e.items) if ((kindMask >> kv.second->kind) & 1) if (!(noRoot && kv.second->root)) v.push_back(kv.second);
        return v.empty() ? IP() : c.rng.pick(v);
    }
    IP anyLoose(int kindMask) {
        std::vector<IP> v; for (IP& it : loose) if ((kindMask >> it->kind) & 1) v.push_back(it);
        return v.empty() ? IP() : c.rng.pick(v);
    }
    void unloose(IP it) { loose.erase(std::remove(loose.begin(), loose.end(), it), loose.end()); it->ownedRaw = false; }
    static const int ALL = 15, LAY = (1 << L) | (1 << M);

    std::string randomBlob() {
        std::string s; int n = c.rng.chance(0.1) ? c.rng.range(200, 3000) : c.rng.range(0, 40);
        for (int i = 0; i < n; i++) s += (char)c.rng.u(256);
        return s;
    }
    std::string randomLabel() {
        static const char* ls[] = {"", "a", "start", "with space", "it's", "line\nbreak", "key: value", "# no comment", "- x", "0", "null", "\xc3\xa4", "'", "\"q\"", "/1", " lead", "tail ", "{a}", "~"};
        return ls[c.rng.u(sizeof ls / sizeof *ls)];
    }
    Eigen::Affine3d randomTf() {
        Eigen::Affine3d t(Eigen::Affine3d::Identity());
        if (c.rng.chance(0.8)) t.translation() = Eigen::Vector3d(c.rng.real(-5, 5), c.rng.real(-5, 5), c.rng.real(-5, 5));
        if (c.rng.chance(0.8)) {
            Eigen::Quaterniond q(c.rng.gauss(), c.rng.gauss(), c.rng.gauss(), c.rng.gauss()); q.normalize();
            t.linear() = q.toRotationMatrix();
        }
        return t;
    }
    Eigen::Matrix<double, 6, 6> randomCov() {
        Eigen::Matrix<double, 6, 6> a;
        for (int i = 0; i < 36; i++) a(i / 6, i % 6) = c.rng.gauss() * 0.1;
        return Eigen::Matrix<double, 6, 6>(a * a.transpose());
    }
    std::string randomId() {
        static const char* names[] = {"a", "b", "map", "x_1", "7", "0", "left/cam", "UPPER"};
        switch (c.rng.u(6)) {
            case 0: case 1: case 2: return "";
            case 3: return names[c.rng.u(8)];
            case 4: return std::string(names[c.rng.u(8)]) + "/";
            default: return std::string("/") + names[c.rng.u(8)] + (c.rng.chance(0.5) ? "/" : "");
        }
    }
    void randomContent(IP it) {
        it->payload = (long)c.rng.u(1000000) - 500000;
        switch (it->kind) {
            case F: {
                if (!it->root) static_cast<TFrame*>(it->p)->payload = it->payload;
                break; }
            case L: static_cast<TLayer*>(it->p)->payload = it->payload; it->blob = randomBlob(); static_cast<TLayer*>(it->p)->blob = it->blob; break;
            case M: static_cast<TMap*>(it->p)->payload = it->payload; it->blob = randomBlob(); static_cast<TMap*>(it->p)->blob = it->blob; break;
            case O: static_cast<TOp*>(it->p)->payload = it->payload; break;
        }
    }
    void setTf(IP it, bool uncertain) {
        TransformWithUncertainty t{Transform(randomTf())};
        if (uncertain) t.setCovariance(randomCov());
        it->tf = t;
        if (uncertain) it->f()->setTransform(t); else it->f()->setTransform(t.getTransform());
    }

    IP create(Kind k) {
        IP it = std::make_shared<Item>(); it->kind = k; serial++;
        switch (k) {
            case F: { TFrame* p = new TFrame; it->p = p; it->live = &p->live; break; }
            case L: { TLayer* p = new TLayer; it->p = p; it->live = &p->live; break; }
            case M: { TMap* p = new TMap; it->p = p; it->live = &p->live; break; }
            case O: { it->inArity = c.rng.chance(0.7) ? 0 : c.rng.range(1, 2); it->outArity = c.rng.chance(0.7) ? 0 : 1;
                      TOp* p = new TOp(it->inArity, it->outArity); it->p = p; it->live = &p->live; break; }
        }
        REQUIRE(!it->p->isAttached() && !it->p->getEnvironment(), "create:attached", "a new item is attached to nothing");
        randomContent(it);
        if (k == F && c.rng.chance(0.7)) setTf(it, c.rng.chance(0.3));
        it->label = randomLabel(); it->p->setLabel(it->label);
        it->id = randomId(); it->p->setUniqueId(it->id);
        if (c.rng.chance(0.3)) it->held = it->p; else it->ownedRaw = true;
        loose.push_back(it);
        LOGOP("create #" << serial << " kind " << k << " id '" << it->id << "'" << (it->held ? " held" : ""));
        return it;
    }

    // ---- id rule of the documentation
    void expectAttached(EnvM& e, int ei, IP it, const std::string& spec, bool wasInOther) {
        std::string got = it->p->getUniqueId();
        std::string want = spec;
        if (!wasInOther) {
            if (want.empty()) want = e.prefix;
            if (want[0] != '/') want = e.prefix + want;
        }
        if (!wasInOther && want[want.size() - 1] == '/') {
            REQUIRE(got.compare(0, want.size(), want) == 0 && got.size() > want.size()
                    && got.find_first_not_of("0123456789", want.size()) == std::string::npos,
                    "id:generated", "id '" << got << "' for requested '" << spec << "' under prefix '" << e.prefix << "'");
            mon::seen("id.generated");
        } else {
            REQUIRE(got == want, "id:given", "id '" << got << "' for requested '" << spec << "' under prefix '" << e.prefix << "'");
            mon::seen("id.given");
        }
        REQUIRE(!e.items.count(got), "id:duplicate", "id '" << got << "' was in use");
        it->id = got; it->env = ei; e.items[got] = it;
        REQUIRE(it->p->isAttached() && it->p->getEnvironment() == e.env, "attach:env", "attached item does not point to its environment");
    }
    bool wouldClash(EnvM& e, IP it) {
        std::string want = it->p->getUniqueId();
        if (it->env < 0) {
            if (want.empty()) want = e.prefix;
            if (want[0] != '/') want = e.prefix + want;
            if (want[want.size() - 1] == '/') return false;
        }
        return e.items.count(want) > 0;
    }
    // implicit or explicit attachment of a loose item by calling `act`
    template <class A> bool attachBy(EnvM& e, int ei, IP it, A act, const char* how) {
        std::string spec = it->p->getUniqueId();
        bool clash = wouldClash(e, it);
        LOGOP(how << " env" << ei << " item '" << spec << "' kind " << it->kind << (clash ? " (clash)" : ""));
        bool threw = false;
        try { act(); } catch (const std::runtime_error&) { threw = true; }
        REQUIRE(threw == clash, "id:clash", (clash ? "an id already in use was accepted: " : "a free id was refused: ") << spec);
        if (clash) {
            checkAlive(it);
            REQUIRE(!it->p->isAttached(), "attach:failed", "item counts as attached after its id was refused");
            it->id = it->p->getUniqueId();
            mon::seen("attach.clash");
            return false;
        }
        unloose(it);
        expectAttached(e, ei, it, spec, false);
        mon::seen("attach");
        return true;
    }
    void unlinkAll(EnvM& e, Item* x) {
        for (auto i = e.parent.begin(); i != e.parent.end();) if (i->first == x || i->second == x) e.parent.erase(i++); else ++i;
        for (auto i = e.frameOf.begin(); i != e.frameOf.end();) if (i->first == x || i->second == x) e.frameOf.erase(i++); else ++i;
        for (Rel* r : {&e.layer, &e.in, &e.out})
            for (auto i = r->begin(); i != r->end();) if (i->first == x || i->second == x) r->erase(i++); else ++i;
    }
    // what a deep detach takes along (children and maps of frames), self last
    void deepSet(EnvM& e, Item* x, std::vector<Item*>& v) {
        if (x->kind == F) {
            std::vector<Item*> sub;
            for (auto& kv : e.parent) if (kv.second == x) sub.push_back(kv.first);
            for (auto& kv : e.frameOf) if (kv.second == x) sub.push_back(kv.first);
            for (Item* s : sub) deepSet(e, s, v);
        }
        v.push_back(x);
    }
    IP find(EnvM& e, Item* x) { for (auto& kv : e.items) if (kv.second.get() == x) return kv.second; return IP(); }

    void detach(EnvM& e, IP it, bool deep, bool keep) {
        LOGOP("detach '" << it->id << "'" << (deep ? " deep" : "") << (keep ? " keep" : ""));
        std::vector<Item*> v; if (deep) deepSet(e, it.get(), v); else v.push_back(it.get());
        std::vector<IP> vs; for (Item* x : v) vs.push_back(find(e, x));
        {
            EnvironmentItem::Ptr r = (!deep && c.rng.chance(0.3)) ? it->p->detach() : e.env->detachItem(it->p, deep);
            REQUIRE(r.get() == it->p, "detach:result", "detach returned another item");
            for (IP& x : vs) { unlinkAll(e, x.get()); e.items.erase(x->id); x->env = -1; }
            checkAlive(it);
            REQUIRE(!it->p->isAttached() && it->p->getEnvironment() == nullptr, "detach:attached", "detached item still points to an environment");
            if (keep) it->held = r;
        }
        for (IP& x : vs) released(x);
        mon::seen(deep ? "detach.deep" : "detach");
        if (vs.size() > 1) mon::seen("detach.deep.many");
    }
    bool wouldCycle(EnvM& e, Item* parent, Item* child) {
        for (Item* x = parent; x; ) { if (x == child) return true; auto i = e.parent.find(x); x = i == e.parent.end() ? nullptr : i->second; }
        return false;
    }
    bool layerCycle(EnvM& e, Item* parent, Item* child) {
        if (parent == child) return true;
        for (auto& kv : e.layer) if (kv.first == parent && layerCycle(e, kv.second, child)) return true;
        return false;
    }

    // one random operation
    void step() {
        opcount++;
        size_t ei; EnvM* ep = anyEnv(&ei);
        if (!ep) { newEnv(); return; }
        EnvM& e = *ep;
        auto& r = c.rng;
        switch (r.u(24)) {
        case 0: case 1: create((Kind)r.u(4)); break;
        case 2: case 3: { // explicit attach
            IP it = anyLoose(ALL); if (!it) { it = create((Kind)r.u(4)); }
            if (it->kind == M && r.chance(0.5)) {
                IP fn = r.chance(0.5) ? anyItem(e, 1 << F) : IP();
                if (attachBy(e, (int)ei, it, [&]() { if (fn) e.env->attachItem(it->m(), fn->f()); else e.env->attachItem(it->m()); }, "attach-map"))
                    e.frameOf[it.get()] = fn ? fn.get() : e.root.get();
            } else attachBy(e, (int)ei, it, [&]() { e.env->attachItem(it->p); }, "attach");
            break; }
        case 4: { // attach twice
            IP it = anyItem(e, ALL);
            LOGOP("attach again '" << it->id << "'");
            REQUIRE(mon::throws([&]() { e.env->attachItem(it->p); }), "attach:twice", "attaching an attached item again was accepted");
            REQUIRE(it->p->isAttached() && it->p->getEnvironment() == e.env, "attach:twice", "refused attachment changed the item");
            mon::seen("attach.twice");
            break; }
        case 5: { // move to another environment
            size_t oi; EnvM* o = anyEnv(&oi);
            if (!allowMove || oi == ei) break;
            IP it = anyItem(e, ALL, true); if (!it) break;
            bool clash = o->items.count(it->id);
            LOGOP("move '" << it->id << "' env" << ei << "->env" << oi << (clash ? " (clash)" : ""));
            bool threw = false;
            try { o->env->attachItem(it->p); } catch (const std::runtime_error&) { threw = true; }
            checkAlive(it);
            REQUIRE(threw == clash, "id:clash", "moving '" << it->id << "' between environments: threw=" << threw << " clash=" << clash);
            if (clash) { mon::seen("move.clash"); break; }
            unlinkAll(e, it.get()); e.items.erase(it->id);
            expectAttached(*o, (int)oi, it, it->id, true);
            mon::seen("move");
            break; }
        case 6: { IP it = anyItem(e, ALL, true); if (it) detach(e, it, r.chance(0.3), r.chance(0.4)); break; }
        case 7: case 8: { // frame tree
            IP p = anyItem(e, 1 << F), ch;
            if (r.chance(0.4)) {
                ch = anyLoose(1 << F); if (!ch) ch = create(F);
                if (attachBy(e, (int)ei, ch, [&]() { if (r.chance(0.5)) e.env->addChild(p->f(), ch->f()); else p->f()->addChild(ch->f()); }, "addChild-new"))
                    e.parent[ch.get()] = p.get();
            } else {
                ch = anyItem(e, 1 << F);
                if (ch->root || wouldCycle(e, p.get(), ch.get())) break;
                LOGOP("addChild '" << p->id << "' '" << ch->id << "'");
                mon::seen(e.parent.count(ch.get()) ? (e.parent[ch.get()] == p.get() ? "frame.same" : "frame.reparent") : "frame.add");
                e.env->addChild(p->f(), ch->f());
                e.parent[ch.get()] = p.get();
            }
            break; }
        case 9: { // remove frame relation
            IP p = anyItem(e, 1 << F), ch = anyItem(e, 1 << F);
            if (r.chance(0.6) && !e.parent.empty()) { auto i = e.parent.begin(); std::advance(i, r.u(e.parent.size())); ch = find(e, i->first); p = find(e, i->second); }
            LOGOP("removeChild '" << p->id << "' '" << ch->id << "'");
            e.env->removeChild(p->f(), ch->f());
            auto i = e.parent.find(ch.get());
            if (i != e.parent.end() && i->second == p.get()) { e.parent.erase(i); mon::seen("frame.remove"); } else mon::seen("frame.remove.absent");
            break; }
        case 10: case 11: { // layer tree
            IP p = anyItem(e, LAY), ch; if (!p) break;
            if (r.chance(0.3)) {
                ch = anyLoose(LAY); if (!ch) ch = create(r.chance(0.5) ? L : M);
                if (attachBy(e, (int)ei, ch, [&]() { if (r.chance(0.5)) e.env->addChild(p->l(), ch->l()); else p->l()->addChild(ch->l()); }, "addLayer-new"))
                    e.layer.insert({ch.get(), p.get()});
            } else {
                ch = anyItem(e, LAY);
                if (r.chance(0.3) && !e.layer.empty()) { auto i = e.layer.begin(); std::advance(i, r.u(e.layer.size())); ch = find(e, i->first); p = find(e, i->second); }
                if (!e.layer.count({ch.get(), p.get()}) && layerCycle(e, p.get(), ch.get())) break;
                LOGOP("addLayer '" << p->id << "' '" << ch->id << "'");
                e.env->addChild(p->l(), ch->l());
                mon::seen(e.layer.insert({ch.get(), p.get()}).second ? "layer.add" : "layer.same");
            }
            break; }
        case 12: { // remove layer relation
            IP p = anyItem(e, LAY), ch = anyItem(e, LAY); if (!p) break;
            if (r.chance(0.6) && !e.layer.empty()) { auto i = e.layer.begin(); std::advance(i, r.u(e.layer.size())); ch = find(e, i->first); p = find(e, i->second); }
            LOGOP("removeLayer '" << p->id << "' '" << ch->id << "'");
            e.env->removeChild(p->l(), ch->l());
            mon::seen(e.layer.erase({ch.get(), p.get()}) ? "layer.remove" : "layer.remove.absent");
            break; }
        case 13: case 14: { // map to frame
            IP m = anyItem(e, 1 << M), fn = anyItem(e, 1 << F);
            if (!m || r.chance(0.2)) {
                m = anyLoose(1 << M); if (!m) m = create(M);
                if (attachBy(e, (int)ei, m, [&]() { e.env->setFrameNode(m->m(), fn->f()); }, "setFrame-newmap")) e.frameOf[m.get()] = fn.get();
            } else if (r.chance(0.2)) {
                fn = anyLoose(1 << F); if (!fn) fn = create(F);
                if (attachBy(e, (int)ei, fn, [&]() { if (r.chance(0.5)) m->m()->setFrameNode(fn->f()); else e.env->setFrameNode(m->m(), fn->f()); }, "setFrame-newframe")) e.frameOf[m.get()] = fn.get();
            } else {
                LOGOP("setFrame '" << m->id << "' '" << fn->id << "'");
                mon::seen(e.frameOf.count(m.get()) ? (e.frameOf[m.get()] == fn.get() ? "map.same" : "map.reframe") : "map.frame");
                if (r.chance(0.5)) m->m()->setFrameNode(fn->f()); else e.env->setFrameNode(m->m(), fn->f());
                e.frameOf[m.get()] = fn.get();
            }
            break; }
        case 15: { IP m = anyItem(e, 1 << M), fn = anyItem(e, 1 << F); if (!m) break;
            if (r.chance(0.7) && e.frameOf.count(m.get())) fn = find(e, e.frameOf[m.get()]);
            LOGOP("detachFrame '" << m->id << "' '" << fn->id << "'");
            e.env->detachFrameNode(m->m(), fn->f());
            auto i = e.frameOf.find(m.get());
            if (i != e.frameOf.end() && i->second == fn.get()) { e.frameOf.erase(i); mon::seen("map.unframe"); } else mon::seen("map.unframe.absent");
            break; }
        case 16: case 17: operatorOp(e, (int)ei); break;
        case 18: { // transforms
            IP f = anyItem(e, 1 << F); LOGOP("setTransform '" << f->id << "'"); setTf(f, r.chance(0.4)); mon::seen("transform"); break; }
        case 19: case 20: { // content
            IP it = anyItem(e, ALL); if (it->root) break;
            LOGOP("modify '" << it->id << "'");
            randomContent(it);
            if (r.chance(0.3)) { it->label = randomLabel(); it->p->setLabel(it->label); }
            if (r.chance(0.5)) it->p->itemModified(); else e.env->itemModified(it->p);
            mon::seen("modified");
            break; }
        case 21: { // prefix
            static const char* ps[] = {"/", "robot", "/robot", "robot/", "/a/b", "/robot/"};
            std::string p = ps[r.u(6)];
            LOGOP("prefix '" << p << "'");
            e.env->setEnvironmentPrefix(p);
            if (p[0] != '/') p = "/" + p;
            if (p[p.size() - 1] != '/') p += "/";
            REQUIRE(e.env->getEnvironmentPrefix() == p, "prefix", "prefix is '" << e.env->getEnvironmentPrefix() << "', expected '" << p << "'");
            e.prefix = p; mon::seen("prefix");
            break; }
        case 22: { // ids of attached items are fixed
            IP it = anyItem(e, ALL); bool ok = false;
            LOGOP("setUniqueId on attached '" << it->id << "'");
            try { it->p->setUniqueId("other"); } catch (const std::logic_error&) { ok = true; }
            REQUIRE(ok && it->p->getUniqueId() == it->id, "id:fixed", "the id of an attached item could be changed");
            mon::seen("id.fixed");
            break; }
        case 23: { // clone
            IP it = anyItem(e, ALL, true); if (!it) break;
            LOGOP("clone '" << it->id << "'");
            IP n = std::make_shared<Item>(*it);
            n->held.reset(); n->env = -1; n->ownedRaw = true;
            n->p = it->p->clone();
            switch (it->kind) { case F: n->live = &static_cast<TFrame*>(n->p)->live; break; case L: n->live = &static_cast<TLayer*>(n->p)->live; break;
                                case M: n->live = &static_cast<TMap*>(n->p)->live; break; case O: n->live = &static_cast<TOp*>(n->p)->live; break; }
            n->id = n->p->getUniqueId();
            REQUIRE(n->p != it->p && !n->p->isAttached() && n->id.empty(), "clone:env", "a copy carries over the id or environment of its original");
            REQUIRE(sameContent(n.get(), n->p), "clone:content", "a copy differs from its original: " << diff);
            loose.push_back(n); mon::seen("clone");
            break; }
        }
    }
    void operatorOp(EnvM& e, int ei) {
        auto& r = c.rng;
        IP op = anyItem(e, 1 << O); if (!op) { op = create(O); if (!attachBy(e, ei, op, [&]() { e.env->attachItem(op->p); }, "attach")) return; }
        bool input = r.chance(0.5); Rel& rel = input ? e.in : e.out;
        int arity = input ? op->inArity : op->outArity;
        IP ly = anyItem(e, LAY);
        auto count = [&]() { int n = 0; for (auto& kv : rel) if (kv.first == op.get()) n++; return n; };
        switch (r.u(7)) {
        case 0: case 1: { // Environment interface
            if (!ly) return;
            LOGOP("env " << (input ? "addInput '" : "addOutput '") << op->id << "' '" << ly->id << "'");
            bool had = rel.count({op.get(), ly.get()});
            bool res = input ? e.env->addInput(op->o(), ly->l()) : e.env->addOutput(op->o(), ly->l());
            REQUIRE(res == !had, "operator:add", "adding a " << (had ? "present" : "new") << " relation returned " << res);
            rel.insert({op.get(), ly.get()}); mon::seen(had ? "op.same" : "op.add");
            break; }
        case 2: { // implicit attachment
            ly = anyLoose(LAY); if (!ly) ly = create(r.chance(0.5) ? L : M);
            if (arity && count() >= arity) return;
            if (attachBy(e, ei, ly, [&]() { if (input) { if (r.chance(0.5)) e.env->addInput(op->o(), ly->l()); else op->o()->addInput(ly->l()); }
                                            else { if (r.chance(0.5)) e.env->addOutput(op->o(), ly->l()); else op->o()->addOutput(ly->l()); } }, "op-new")) rel.insert({op.get(), ly.get()});
            break; }
        case 3: { // Operator interface with arity
            if (!ly) return;
            bool had = rel.count({op.get(), ly.get()}); bool full = arity && count() >= arity;
            if (had && full) return;
            LOGOP("op " << (input ? "addInput '" : "addOutput '") << op->id << "' '" << ly->id << "'");
            bool threw = mon::throws([&]() { if (input) op->o()->addInput(ly->l()); else op->o()->addOutput(ly->l()); });
            REQUIRE(threw == full, "operator:arity", "arity " << arity << " with " << count() << " present: " << (threw ? "refused" : "accepted"));
            if (!full) rel.insert({op.get(), ly.get()}); else mon::seen("op.full");
            mon::seen("op.add");
            break; }
        case 4: { // set replaces
            if (!ly) return;
            LOGOP("op " << (input ? "setInput '" : "setOutput '") << op->id << "' '" << ly->id << "'");
            if (input) op->o()->setInput(ly->l()); else op->o()->setOutput(ly->l());
            for (auto i = rel.begin(); i != rel.end();) if (i->first == op.get()) rel.erase(i++); else ++i;
            rel.insert({op.get(), ly.get()}); mon::seen("op.set");
            break; }
        case 5: { // remove one
            if (!ly) return;
            if (r.chance(0.7) && !rel.empty()) { auto i = rel.begin(); std::advance(i, r.u(rel.size())); op = find(e, i->first); ly = find(e, i->second); }
            LOGOP("op remove '" << op->id << "' '" << ly->id << "'");
            if (r.chance(0.5)) { if (input) e.env->removeInput(op->o(), ly->l()); else e.env->removeOutput(op->o(), ly->l()); }
            else { if (input) op->o()->removeInput(ly->l()); else op->o()->removeOutput(ly->l()); }
            mon::seen(rel.erase({op.get(), ly.get()}) ? "op.remove" : "op.remove.absent");
            break; }
        case 6: { // remove all
            LOGOP("op removeAll '" << op->id << "'");
            if (input) op->o()->removeInputs(); else op->o()->removeOutputs();
            for (auto i = rel.begin(); i != rel.end();) if (i->first == op.get()) rel.erase(i++); else ++i;
            mon::seen("op.clear");
            break; }
        }
    }

    // ---- comparisons
    std::string diff;
    bool sameTf(const TransformWithUncertainty& a, const TransformWithUncertainty& b) {
        if (a.getTransform().matrix() != b.getTransform().matrix()) { diff = "transform"; return false; }
        if (a.hasUncertainty() != b.hasUncertainty()) { diff = "uncertainty flag"; return false; }
        if (a.hasUncertainty() && a.getCovariance() != b.getCovariance()) { diff = "covariance"; return false; }
        return true;
    }
    bool sameContent(const Item* m, EnvironmentItem* p) {
        diff = "";
        if (p->getLabel() != m->label) { diff = "label '" + p->getLabel() + "' vs '" + m->label + "'"; return false; }
        switch (m->kind) {
            case F: { FrameNode* f = dynamic_cast<FrameNode*>(p); if (!f) { diff = "class"; return false; }
                      if (!m->root) { TFrame* t = dynamic_cast<TFrame*>(p); if (!t || t->payload != m->payload) { diff = "payload"; return false; } }
                      return sameTf(f->getTransformWithUncertainty(), m->tf); }
            case L: { TLayer* t = dynamic_cast<TLayer*>(p); if (!t) { diff = "class"; return false; } if (t->payload != m->payload) { diff = "payload"; return false; } if (t->blob != m->blob) { diff = "blob"; return false; } return true; }
            case M: { TMap* t = dynamic_cast<TMap*>(p); if (!t) { diff = "class"; return false; } if (t->payload != m->payload) { diff = "payload"; return false; } if (t->blob != m->blob) { diff = "blob"; return false; } return true; }
            case O: { TOp* t = dynamic_cast<TOp*>(p); if (!t) { diff = "class"; return false; } if (t->payload != m->payload) { diff = "payload"; return false; } return true; }
        }
        return false;
    }
    // items: exactly the expected ones under their ids
    void checkItems(EnvM& e) {
        std::vector<EnvironmentItem*> all = e.env->getItems<EnvironmentItem>();
        REQUIRE(all.size() == e.items.size(), "items:count", all.size() << " items, expected " << e.items.size());
        std::set<EnvironmentItem*> s(all.begin(), all.end());
        size_t nk[4] = {0, 0, 0, 0};
        for (auto& kv : e.items) {
            IP it = kv.second; nk[it->kind]++;
            checkAlive(it);
            REQUIRE(s.count(it->p), "items:missing", "item '" << kv.first << "' not in the environment");
            EnvironmentItem::Ptr g = e.env->getItem(kv.first);
            REQUIRE(g.get() == it->p, "items:lookup", "looking up '" << kv.first << "' gives another item");
            REQUIRE(it->p->getUniqueId() == kv.first && it->p->getEnvironment() == e.env, "items:id", "item '" << kv.first << "' reports id '" << it->p->getUniqueId() << "'");
            REQUIRE((e.env->getItem<FrameNode>(kv.first).get() != nullptr) == (it->kind == F), "items:type", "typed look-up of '" << kv.first << "'");
            long refs = it->p->getRefCount() - 1;   // g
            REQUIRE(refs == (it->held ? 2 : 1), "items:refs", "item '" << kv.first << "' has " << refs << " owners");
            std::string pre = it->p->getUniqueIdPrefix(), suf = it->p->getUniqueIdSuffix();
            REQUIRE(pre + "/" + suf == kv.first, "id:parts", "id '" << kv.first << "' splits into '" << pre << "' and '" << suf << "'");
        }
        REQUIRE(e.env->getItems<FrameNode>().size() == nk[F] && e.env->getItems<Layer>().size() == nk[L] + nk[M]
                && e.env->getItems<CartesianMap>().size() == nk[M] && e.env->getItems<Operator>().size() == nk[O], "items:bytype", "typed item lists");
        REQUIRE(!e.env->getItem("/no/such/item"), "items:absent", "an unknown id was found");
        bool one = nk[O] == 1, threw = false; EnvironmentItem* got = nullptr;
        try { got = e.env->getItem<Operator>().get(); } catch (const std::runtime_error&) { threw = true; }
        REQUIRE(threw == !one, "items:only", "looking up the only operator among " << nk[O]);
        REQUIRE(e.env->getRootNode() == e.root->p, "root", "root node changed");
        (void)got;
        for (IP& it : loose) { checkAlive(it); REQUIRE(!it->p->isAttached(), "loose:attached", "detached item '" << it->id << "' counts as attached");
            REQUIRE(it->p->getRefCount() == (it->held ? 1 : 0), "loose:refs", "detached item '" << it->id << "' has " << it->p->getRefCount() << " owners"); }
    }
    template <class P> std::multiset<const void*> ms(const std::list<P>& l) { std::multiset<const void*> s; for (P p : l) s.insert((const void*)static_cast<const EnvironmentItem*>(p)); return s; }
    void checkFrames(EnvM& e) {
        for (auto& kv : e.items) {
            Item* it = kv.second.get();
            if (it->kind == F) {
                auto i = e.parent.find(it);
                FrameNode* want = i == e.parent.end() ? nullptr : i->second->f();
                REQUIRE(e.env->getParent(it->f()) == want, "frame:parent", "parent of '" << it->id << "'");
                REQUIRE(it->f()->getParent() == want && it->f()->isRoot() == !want, "frame:parent", "parent reported by '" << it->id << "'");
                std::multiset<const void*> w, wm;
                for (auto& q : e.parent) if (q.second == it) w.insert((const void*)static_cast<const EnvironmentItem*>(q.first->p));
                for (auto& q : e.frameOf) if (q.second == it) wm.insert((const void*)static_cast<const EnvironmentItem*>(q.first->p));
                REQUIRE(ms(e.env->getChildren(it->f())) == w && ms(it->f()->getChildren()) == w, "frame:children", "children of '" << it->id << "'");
                REQUIRE(ms(e.env->getMaps(it->f())) == wm && ms(it->f()->getMaps()) == wm, "frame:maps", "maps of '" << it->id << "'");
                Item* top = it; for (;;) { auto j = e.parent.find(top); if (j == e.parent.end()) break; top = j->second; }
                REQUIRE(it->f()->getRoot() == top->f(), "frame:root", "root above '" << it->id << "'");
            } else if (it->kind == M) {
                auto i = e.frameOf.find(it);
                FrameNode* want = i == e.frameOf.end() ? nullptr : i->second->f();
                REQUIRE(e.env->getFrameNode(it->m()) == want && it->m()->getFrameNode() == want, "map:frame", "frame of map '" << it->id << "'");
            }
        }
    }
    void checkGraph(EnvM& e) {
        for (auto& kv : e.items) {
            Item* it = kv.second.get();
            auto set = [&](const Rel& r, bool second) { std::multiset<const void*> w; for (auto& q : r) if ((second ? q.second : q.first) == it) w.insert((const void*)static_cast<const EnvironmentItem*>((second ? q.first : q.second)->p)); return w; };
            if (it->kind == L || it->kind == M) {
                REQUIRE(ms(e.env->getParents(it->l())) == set(e.layer, false) && ms(it->l()->getParents()) == set(e.layer, false), "layer:parents", "parents of layer '" << it->id << "'");
                REQUIRE(ms(e.env->getChildren(it->l())) == set(e.layer, true), "layer:children", "children of layer '" << it->id << "'");
                REQUIRE(ms(e.env->getChildren(const_cast<const Layer*>(it->l()))) == set(e.layer, true), "layer:children", "children (const) of layer '" << it->id << "'");
                std::multiset<const void*> gens = set(e.out, true);
                Operator* g = e.env->getGenerator(it->l());
                REQUIRE(g ? gens.count(static_cast<EnvironmentItem*>(g)) > 0 : gens.empty(), "operator:generator", "generator of '" << it->id << "'");
                REQUIRE(it->l()->isGenerated() == !gens.empty(), "operator:generated", "isGenerated of '" << it->id << "'");
                std::multiset<const void*> want;
                for (auto& q : e.in) if (q.second == it) for (auto& o : e.out) if (o.first == q.first) want.insert(static_cast<const EnvironmentItem*>(o.second->p));
                REQUIRE(ms(e.env->getLayersGeneratedFrom(it->l())) == want, "operator:generatedFrom", "layers generated from '" << it->id << "'");
            } else if (it->kind == O) {
                REQUIRE(ms(e.env->getInputs(it->o())) == set(e.in, false), "operator:inputs", "inputs of '" << it->id << "'");
                REQUIRE(ms(e.env->getOutputs(it->o())) == set(e.out, false), "operator:outputs", "outputs of '" << it->id << "'");
                size_t nmaps = 0; for (auto& q : e.in) if (q.first == it && q.second->kind == M) nmaps++;
                bool threw = false; TMap* tm = nullptr;
                try { tm = it->o()->getInput<TMap*>(); } catch (const std::runtime_error&) { threw = true; }
                REQUIRE(threw == (nmaps != 1), "operator:onlyinput", "the only map input among " << nmaps);
            }
        }
    }
    void checkContent(EnvM& e) { for (auto& kv : e.items) REQUIRE(sameContent(kv.second.get(), kv.second->p), "item:content", "'" << kv.first << "' lost its content: " << diff); }
};
} // namespace ew
// registration, once per program
#define EW_REGISTER() \
    namespace ew { using namespace envire; \
    const std::string TFrame::className = "envire::TFrame"; static SerializationPlugin<TFrame> pTFrame; \
    const std::string TLayer::className = "envire::TLayer"; static SerializationPlugin<TLayer> pTLayer; \
    const std::string TMap::className = "envire::TMap"; static SerializationPlugin<TMap> pTMap; \
    const std::string TOp::className = "envire::TOp"; static SerializationPlugin<TOp> pTOp; }
#endif
