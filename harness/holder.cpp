// Holder: ownership (every payload destroyed exactly once), type identity, independent clones.
#include "mon.hpp"
#include <memory>
#include <typeinfo>
#include <envire/core/Holder.hpp>
using namespace envire;

static std::map<const void*, int> live; static long born, died, dtwice;
struct Tracked {
    int v; std::string text;
    Tracked() : v(0), text("default") { reg(); }
    explicit Tracked(int v) : v(v), text("value " + std::to_string(v)) { reg(); }
    Tracked(const Tracked& o) : v(o.v), text(o.text) { reg(); }
    virtual ~Tracked() { auto it = live.find(this); if (it == live.end()) dtwice++; else live.erase(it); died++; v = -777; }
    void reg() { live[this]++; born++; }
};
struct Derived : Tracked { int extra; Derived() : extra(7) {} explicit Derived(int v) : Tracked(v), extra(v * 3) {} };
struct Other { double d; std::vector<int> big; Other() : d(0.5), big(3, 1) {} };

SECTION(lifetime, 20000, 400000) {
    live.clear(); born = died = dtwice = 0;
    { struct Slot { HolderBase* h; int type; int v; int extra; };
    std::vector<Slot> s; int n = c.rng.range(3, 40);
    for (int i = 0; i < n; i++) {
        int k = c.rng.range(0, 9);
        if (k < 3 || s.empty()) {
            int t = c.rng.range(0, 3); int v = c.rng.range(1, 1000); bool def = c.rng.chance(0.3);
            HolderBase* h = 0;
            if (t == 0) { h = def ? new Holder<Tracked>() : new Holder<Tracked>(new Tracked(v)); if (def) v = 0; }
            if (t == 1) { h = def ? new Holder<Derived>() : new Holder<Derived>(new Derived(v)); if (def) v = 0; }
            if (t == 2) { h = def ? new Holder<int>() : new Holder<int>(new int(v)); if (def) v = 0; }
            if (t == 3) { h = new Holder<Other>(); v = 0; }
            LOGOP("new holder type " << t << " value " << v << " default=" << def);
            s.push_back(Slot{h, t, v, t == 1 ? (def ? 7 : v * 3) : 0}); mon::seen("create");
        } else if (k < 5) {
            Slot& o = s[c.rng.u(s.size())]; LOGOP("clone of type " << o.type << " value " << o.v);
            HolderBase* h = o.h->clone();
            REQUIRE(h && h != o.h, "holder:clone-identity", "clone returned the original");
            REQUIRE(typeid(*h) == typeid(*o.h), "holder:clone-type", "clone changed its type");
            Slot q = o; q.h = h; s.push_back(q); mon::seen("clone");
        } else if (k < 7) {
            Slot& o = s[c.rng.u(s.size())]; int v = c.rng.range(1, 1000); LOGOP("write " << v << " to type " << o.type);
            if (o.type == 0) o.h->get<Tracked>().v = v; else if (o.type == 1) o.h->get<Derived>().v = v; else if (o.type == 2) o.h->get<int>() = v; else o.h->get<Other>().big[0] = v;
            o.v = v; mon::seen("write");
        } else {
            size_t i = c.rng.u(s.size()); LOGOP("delete " << i); delete s[i].h; s.erase(s.begin() + i); mon::seen("destroy");
        }
        size_t expectLive = 0;
        for (Slot& o : s) {
            REQUIRE(o.h->isOfType<Tracked>() == (o.type == 0) && o.h->isOfType<Derived>() == (o.type == 1) && o.h->isOfType<int>() == (o.type == 2) && o.h->isOfType<Other>() == (o.type == 3) && !o.h->isOfType<float>(), "holder:type", "isOfType wrong for type " << o.type);
            if (o.type == 0) REQUIRE(o.h->get<Tracked>().v == o.v, "holder:value", "value " << o.h->get<Tracked>().v << " expected " << o.v);
            if (o.type == 1) REQUIRE(o.h->get<Derived>().v == o.v && o.h->get<Derived>().extra == o.extra, "holder:value", "value " << o.h->get<Derived>().v << " expected " << o.v);
            if (o.type == 2) REQUIRE(o.h->get<int>() == o.v, "holder:value", "value " << o.h->get<int>() << " expected " << o.v);
            if (o.type == 3 && o.v) REQUIRE(o.h->get<Other>().big[0] == o.v, "holder:value", "clone shares its data");
            const HolderBase* ch = o.h;
            if (o.type == 0) REQUIRE(&ch->get<Tracked>() == &o.h->get<Tracked>(), "holder:const", "const access gives another object");
            expectLive += o.type < 2;
            if (c.rng.chance(0.1)) {
                bool th = false; try { if (o.type != 2) { volatile int x = o.h->get<int>(); (void)x; } else { volatile double x = o.h->get<Other>().d; (void)x; } } catch (const std::exception&) { th = true; }
                REQUIRE(th, "holder:wrong-type", "access as a wrong type did not throw"); mon::seen("wrong_type");
            }
        }
        REQUIRE(live.size() == expectLive, "holder:lifetime", live.size() << " payloads alive, " << expectLive << " holders exist");
        REQUIRE(dtwice == 0, "holder:double-destroy", "a payload was destroyed twice");
    }
    mon::distinct(mon::hashStr(mon::currentLog())); mon::sample(mon::currentLog());
    for (auto& o : s) delete o.h; }
    REQUIRE(live.empty() && born == died && dtwice == 0, "holder:lifetime", born << " payloads created, " << died << " destroyed");
}

// payloads of many sizes and alignments: each counted by its own register, and the heap returned in full
template <int N> struct Sized {
    static long alive, made, destroyed; unsigned char b[N];
    Sized() { alive++; made++; for (int i = 0; i < N; i++) b[i] = (unsigned char)(i + 1); }
    explicit Sized(int v) { alive++; made++; for (int i = 0; i < N; i++) b[i] = (unsigned char)(v + i); }
    Sized(const Sized& o) { alive++; made++; for (int i = 0; i < N; i++) b[i] = o.b[i]; }
    ~Sized() { alive--; destroyed++; for (int i = 0; i < N; i++) b[i] = 0xEE; }
    bool is(int v) const { for (int i = 0; i < N; i++) if (b[i] != (unsigned char)(v + i)) return false; return true; }
};
template <int N> long Sized<N>::alive = 0; template <int N> long Sized<N>::made = 0; template <int N> long Sized<N>::destroyed = 0;
struct Choosy { // copying may fail
    static bool fail; std::string s; Choosy() : s("a text long enough to be on the heap, surely") {}
    Choosy(const Choosy& o) : s(o.s) { if (fail) throw std::runtime_error("no copy"); }
};
bool Choosy::fail = false;

template <int N> static void sized(mon::Ctx& c) {
    typedef Sized<N> S; long a0 = S::alive;
    std::vector<std::pair<HolderBase*, int>> h; int n = c.rng.range(1, 8);
    for (int i = 0; i < n; i++) {
        int k = h.empty() ? 0 : c.rng.range(0, 4); long m0 = S::made, d0 = S::destroyed;
        if (k == 0) { bool def = c.rng.chance(0.4); int v = def ? 1 : c.rng.range(0, 200); LOGOP("size " << N << " new " << v << " default=" << def);
            HolderBase* x = def ? new Holder<S>() : new Holder<S>(new S(v)); REQUIRE(S::made == m0 + 1 && S::destroyed == d0, "holder:lifetime", "creating a holder made " << S::made - m0 << " payloads of size " << N); h.push_back({x, v}); }
        else if (k == 1) { auto o = h[c.rng.u(h.size())]; LOGOP("size " << N << " clone"); HolderBase* x = o.first->clone();
            REQUIRE(S::made == m0 + 1 && S::destroyed == d0, "holder:lifetime", "cloning made " << S::made - m0 << " and destroyed " << S::destroyed - d0 << " payloads of size " << N);
            REQUIRE(&x->get<S>() != &o.first->get<S>(), "holder:value", "clone shares its payload of size " << N); h.push_back({x, o.second}); }
        else if (k == 2) { auto& o = h[c.rng.u(h.size())]; int v = c.rng.range(0, 200); LOGOP("size " << N << " write"); for (int j = 0; j < N; j++) o.first->get<S>().b[j] = (unsigned char)(v + j); o.second = v; }
        else { size_t j = c.rng.u(h.size()); LOGOP("size " << N << " delete"); delete h[j].first; h.erase(h.begin() + j);
            REQUIRE(S::destroyed == d0 + 1 && S::made == m0, "holder:lifetime", "deleting a holder destroyed " << S::destroyed - d0 << " payloads of size " << N); }
        for (auto& o : h) { REQUIRE(o.first->get<S>().is(o.second), "holder:value", "payload of size " << N << " changed"); const HolderBase& cb = *o.first; REQUIRE(&cb.get<S>() == &o.first->get<S>(), "holder:const", "const access gives another object");
            REQUIRE(o.first->isOfType<S>() && !o.first->isOfType<Sized<N + 1>>(), "holder:type", "type query for size " << N); }
        REQUIRE(S::alive - a0 == (long)h.size(), "holder:lifetime", S::alive - a0 << " payloads of size " << N << " alive, " << h.size() << " holders");
    }
    for (auto& o : h) delete o.first;
    REQUIRE(S::alive == a0, "holder:lifetime", S::alive - a0 << " payloads of size " << N << " alive after the last holder");
    mon::seen("sized");
}
template <class T> static void plain(mon::Ctx& c, T v, const char* name) {
    LOGOP("payload " << name);
    HolderBase* a = new Holder<T>(new T(v)); HolderBase* b = a->clone(); HolderBase* d = new Holder<T>();
    REQUIRE(a->get<T>() == v && b->get<T>() == v && d->get<T>() == T(), "holder:value", name);
    REQUIRE(&a->get<T>() != &b->get<T>(), "holder:value", name << ": clone shares its payload");
    b->get<T>() = T(); REQUIRE(a->get<T>() == v, "holder:value", name);
    if (c.rng.chance(0.5)) { delete a; REQUIRE(b->get<T>() == T(), "holder:value", name); delete b; } else { delete b; REQUIRE(a->get<T>() == v, "holder:value", name); delete a; }
    delete d; mon::seen("plain");
}
static void payloads(mon::Ctx& c) {
    sized<1>(c); sized<2>(c); sized<4>(c); sized<8>(c); sized<9>(c); sized<16>(c); sized<24>(c); sized<64>(c); sized<129>(c); sized<5000>(c);
    plain<char>(c, 'x', "char"); plain<double>(c, 2.25, "double"); plain<bool>(c, true, "bool"); plain<std::string>(c, std::string(c.rng.range(0, 60), 'q'), "string");
    plain<std::vector<int>>(c, std::vector<int>(c.rng.range(0, 9), 4), "vector"); int x = 3; plain<int*>(c, &x, "pointer"); REQUIRE(x == 3, "holder:value", "a held pointer was followed");
    { Holder<Choosy> a; Choosy::fail = true; bool th = false; try { delete a.clone(); } catch (const std::runtime_error&) { th = true; } Choosy::fail = false;
      REQUIRE(th && a.get<Choosy>().s.size() == 44, "holder:value", "a failing copy was not reported or damaged the original"); HolderBase* b = a.clone(); REQUIRE(b->get<Choosy>().s == a.get<Choosy>().s, "holder:value", "copy after a failed one"); delete b; mon::seen("copy_throws"); }
}
SECTION(sizes, 4000, 100000) {
    payloads(c); mon::distinct(mon::hashStr(mon::currentLog())); mon::sample(mon::currentLog());
}
SECTION(heap, 400, 10000) {
    // the same history several times: the last run must leave the heap as it found it
    uint64_t seed = c.rng.next(); long before = 0, after = 0;
    for (int r = 0; r < 3; r++) { mon::Ctx k = c; k.rng = mon::Rng(seed); before = mon::heapBytes(); payloads(k); after = mon::heapBytes(); }
    REQUIRE(after == before, "holder:heap", after - before << " bytes of heap lost after every holder was deleted");
    mon::seen("heap");
}
