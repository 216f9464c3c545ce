#include "envworld.hpp"
EW_REGISTER()
using namespace ew;

// an item with any number of keys and binary streams
namespace ew {
class TBig : public Layer {
    ENVIRONMENT_ITEM(TBig)
public:
    std::vector<std::pair<std::string, std::string> > keys; std::vector<std::pair<std::string, std::string> > streams;
    bool withKey = true; int fail = -1; static bool failRead;
    TBig() : Layer(Environment::ITEM_NOT_ATTACHED) {}
    void serialize(Serialization& so) {
        Layer::serialize(so);
        so.write("nkeys", keys.size()); so.write("nstreams", streams.size());
        for (size_t i = 0; i < keys.size(); i++) { so.write("n" + std::to_string(i), keys[i].first); so.write("k_" + keys[i].first, keys[i].second); }
        for (size_t i = 0; i < streams.size(); i++) { so.write("s" + std::to_string(i), streams[i].first); std::ostream& o = so.getBinaryOutputStream(streams[i].first); o << streams[i].second; if (fail == (int)i) throw std::runtime_error("item refuses"); }
        if (fail >= (int)streams.size()) throw std::runtime_error("item refuses");
    }
    void unserialize(Serialization& so) {
        Layer::unserialize(so);
        size_t n = 0, m = 0; so.read("nkeys", n); so.read("nstreams", m);
        for (size_t i = 0; i < n; i++) { std::string k, v; so.read("n" + std::to_string(i), k); so.read("k_" + k, v); keys.push_back({k, v}); }
        for (size_t i = 0; i < m; i++) { std::string k; so.read("s" + std::to_string(i), k); std::istream& is = so.getBinaryInputStream(k); streams.push_back({k, std::string(std::istreambuf_iterator<char>(is), std::istreambuf_iterator<char>())}); if (failRead && i == m / 2) throw std::runtime_error("item refuses"); }
    }
};
bool TBig::failRead = false;
const std::string TBig::className = "envire::TBig"; static SerializationPlugin<TBig> pTBig;
}
namespace {
std::string blob(mon::Rng& r, int max) { std::string s; int n = r.u(max + 1); for (int i = 0; i < n; i++) s += (char)r.u(256); return s; }
TBig* randomBig(mon::Rng& r, bool big) {
    TBig* t = new TBig; t->setUniqueId(r.chance(0.5) ? "/big" : "/a/b"); t->setLabel(r.chance(0.5) ? "label" : "");
    int n = big ? r.range(0, 500) : r.range(0, 5), m = r.range(0, 4);
    for (int i = 0; i < n; i++) { std::string v; int len = big && r.chance(0.05) ? r.range(1000, 30000) : r.range(0, 60); for (int j = 0; j < len; j++) v += "abc 01\n:'#"[r.u(10)]; t->keys.push_back({"key" + std::to_string(i), v}); }
    for (int i = 0; i < m; i++) t->streams.push_back({"stream" + std::to_string(i) + (r.chance(0.3) ? ".x" : ""), blob(r, big ? 5000 : 40)});
    return t;
}
bool equal(const TBig* a, const TBig* b) { return a->keys == b->keys && a->streams == b->streams && a->getUniqueId() == b->getUniqueId() && a->getLabel() == b->getLabel(); }
size_t hashEvent(const BinaryEvent& e) { size_t h = mon::hashStr(e.className); h = h * 31 + mon::hashStr(std::string(e.yamlProperties.begin(), e.yamlProperties.end())); for (auto& s : e.binaryStreams) h = h * 31 + mon::hashStr(std::string(s.begin(), s.end())); return h; }
}

// one serialization object is used for a whole history of events, good and broken
SECTION_CPU(roundtrip, 1200, 10000, 60)
{
    std::unique_ptr<BinarySerialization> bs(new BinarySerialization), bs2(new BinarySerialization);
    int n = c.rng.range(2, 12);
    size_t h = 0;
    for (int i = 0; i < n; i++) {
        TBig::Ptr t(randomBig(c.rng, c.rng.chance(0.2)));
        if (c.rng.chance(0.3)) t->setImmutable();
        std::string other = c.rng.chance(0.5) ? "" : "/other"; BinaryEvent e(event::ITEM, event::ADD, t->getUniqueId(), other); base::Time made = e.time;
        if (c.rng.chance(0.3)) { e.className = "old"; e.yamlProperties.assign(20000, 'x'); e.binaryStreamNames.push_back("old"); e.binaryStreams.resize(3); }
        LOGOP("serialize " << t->keys.size() << " keys " << t->streams.size() << " streams");
        if (c.rng.chance(0.2)) { // an item that can not be written, then the same again
            t->fail = c.rng.u(5); BinaryEvent f; bool thrown = mon::throws([&] { bs->serializeBinaryEvent(t.get(), f); }); t->fail = -1;
            REQUIRE(thrown, "binary:refusing", "an item that could not be written was written"); mon::seen("write.refused"); }
        bool ok = bs->serializeBinaryEvent(t.get(), e);
        REQUIRE(ok, "binary:write", "an item with " << t->keys.size() << " keys could not be written");
        REQUIRE(e.className == "envire::TBig" && e.binaryStreams.size() == t->streams.size() && e.binaryStreamNames.size() == t->streams.size(), "binary:shape", "event with " << e.binaryStreams.size() << " streams, the item has " << t->streams.size());
        for (size_t k = 0; k < e.binaryStreams.size(); k++) {
            bool found = false;
            for (auto& s : t->streams) if (s.first == e.binaryStreamNames[k]) { found = true; REQUIRE(std::string(e.binaryStreams[k].begin(), e.binaryStreams[k].end()) == s.second, "binary:stream", "stream '" << s.first << "' has other bytes"); }
            REQUIRE(found, "binary:stream", "stream '" << e.binaryStreamNames[k] << "' is not of this item");
        }
        if (e.yamlProperties.size() > 10000) mon::seen("large"); mon::seen("serialize"); if (!t->streams.empty()) mon::seen("streams");
        h ^= hashEvent(e);
        BinaryEvent sent; bool moved = c.rng.chance(0.3); size_t eh = hashEvent(e);
        if (moved) { sent.move(e); mon::seen("moved"); } else sent = e;
        REQUIRE(hashEvent(sent) == eh && sent.id_a == t->getUniqueId() && sent.id_b == other && sent.time == made && sent.type == event::ITEM && sent.operation == event::ADD, "binary:move", "an event changed when it was passed on");
        BinarySerialization& rd = c.rng.chance(0.5) ? *bs : *bs2;
        if (c.rng.chance(0.5)) { // a broken event first
            BinaryEvent b = sent; int how = c.rng.u(11); bool mustThrow = true; bool applied = false;
            switch (how) {
                case 0: b.yamlProperties.clear(); break;
                case 1: b.className = "envire::TMap"; break;
                case 2: b.className = "no::Such"; break;
                case 3: if (!b.binaryStreams.empty()) b.binaryStreams.pop_back(); else mustThrow = false; break;
                case 4: if (!b.binaryStreamNames.empty()) b.binaryStreamNames[0] = "other"; else mustThrow = false; break;
                case 5: b.yamlProperties.resize(c.rng.u(b.yamlProperties.size())); mustThrow = false; break;
                case 6: { std::string y = c.rng.one<std::string>({"- a\n", "a: b\n", "scalar", "- [1, 2]\n", "- {x: y}\n", "- class: [a]\n", "[", "- class: 'envire::TBig'\n"}); b.yamlProperties.assign(y.begin(), y.end()); mustThrow = y.size() < 20; break; }
                case 7: for (int k = c.rng.range(1, 5); k > 0; k--) b.yamlProperties[c.rng.u(b.yamlProperties.size())] = (uint8_t)c.rng.u(128); mustThrow = false; break;
                case 8: { std::string y(b.yamlProperties.begin(), b.yamlProperties.end()); size_t p = y.find("nstreams: '"); if (p != std::string::npos) y[p + 11] = '7'; b.yamlProperties.assign(y.begin(), y.end()); mustThrow = p != std::string::npos && t->streams.size() != 7; break; }
                case 9: if (!b.binaryStreamNames.empty()) { for (int k = c.rng.range(1, 3); k > 0; k--) { b.binaryStreamNames.push_back(b.binaryStreamNames[0]); b.binaryStreams.push_back(std::vector<uint8_t>(c.rng.u(50), 'z')); } } mustThrow = false; break;
                case 10: TBig::failRead = true; mustThrow = !t->streams.empty(); break;
            }
            LOGOP("broken " << how);
            EnvironmentItem::Ptr x;
            try { x = rd.unserializeBinaryEvent(b); applied = true; } catch (const std::exception&) { }
            TBig::failRead = false;
            REQUIRE(!(applied && mustThrow), "binary:broken", "a broken event (" << how << ") was accepted");
            REQUIRE(std::cerr.good(), "binary:cerr", "a broken event left the error stream unusable");
            mon::seen(applied ? "broken.accepted" : "broken.refused");
        }
        EnvironmentItem::Ptr back(rd.unserializeBinaryEvent(sent));
        TBig* tb = dynamic_cast<TBig*>(back.get());
        REQUIRE(tb, "binary:class", "read back as " << back->getClassName());
        REQUIRE(equal(t.get(), tb) && tb->isImmutable() == t->isImmutable(), "binary:content", "the item was not read back as written");
        REQUIRE(!tb->isAttached(), "binary:attached", "a fresh item is attached");
        // a stream that is gone must not come from an earlier event
        if (!t->streams.empty() && c.rng.chance(0.2)) {
            BinaryEvent b = sent; b.binaryStreamNames.clear(); b.binaryStreams.clear(); bool threw = false;
            try { EnvironmentItem::Ptr x(rd.unserializeBinaryEvent(b)); } catch (const std::exception&) { threw = true; }
            REQUIRE(threw, "binary:stale", "an event without its streams was read with those of an earlier event");
            mon::seen("stale");
        }
    }
    mon::distinct(h);
}
// an operator, a frame and a map travel through an event as they are
SECTION_CPU(items, 600, 5000, 60)
{
    World w(c); w.newEnv();
    std::unique_ptr<BinarySerialization> bs(new BinarySerialization);
    for (int i = c.rng.range(2, 8); i > 0; i--) {
        IP it = w.create((Kind)c.rng.u(4));
        std::string id = "/id" + std::to_string(i) + (c.rng.chance(0.3) ? "/x y" : ""); it->p->setUniqueId(id); it->id = id;
        BinaryEvent e; LOGOP("item kind " << it->kind);
        REQUIRE(bs->serializeBinaryEvent(it->p, e), "item:write", "kind " << it->kind << " not written");
        { EnvironmentItem::Ptr x(bs->unserializeBinaryEvent(e));
          REQUIRE(x->getClassName() == it->p->getClassName() && x->getUniqueId() == id && w.sameContent(it.get(), x.get()), "item:content", "kind " << it->kind << " was not read back as written: " << w.diff); }
        mon::seen("item"); mon::distinct(hashEvent(e));
    }
    w.finish();
}
