#include "replica.hpp"
#include <boost/filesystem.hpp>
#include <fstream>
#include <unistd.h>
EW_REGISTER()
using namespace ew;
namespace fs = boost::filesystem;

namespace {
struct Dir { // scratch directory, removed afterwards
    std::string path;
    Dir() { char t[] = "/tmp/verif-files-XXXXXX"; path = mkdtemp(t); }
    ~Dir() { boost::system::error_code e; fs::remove_all(path, e); }
};
void sameGraph(const std::string& who, EnvM& e, Environment* r) {
    for (auto& kv : e.items) if (kv.second->kind == O) {
        Operator* o = dynamic_cast<Operator*>(r->getItem(kv.first).get());
        REQUIRE(o, "file:operator", who << ": operator '" << kv.first << "' is none");
        std::multiset<std::string> gi, go, wi, wo;
        for (Layer* l : r->getInputs(o)) gi.insert(l->getUniqueId());
        for (Layer* l : r->getOutputs(o)) go.insert(l->getUniqueId());
        for (auto& q : e.in) if (q.first == kv.second.get()) wi.insert(q.second->id);
        for (auto& q : e.out) if (q.first == kv.second.get()) wo.insert(q.second->id);
        REQUIRE(gi == wi, "file:inputs", who << ": inputs of '" << kv.first << "'"); REQUIRE(go == wo, "file:outputs", who << ": outputs of '" << kv.first << "'");
        if (!wi.empty() || !wo.empty()) mon::seen("operator.links");
    }
}
// ids whose file names would coincide are the subject of another section
bool ambiguous(EnvM& e) {
    std::set<std::string> s;
    for (auto& kv : e.items) if (kv.second->kind == L || kv.second->kind == M) { std::string n = kv.first; std::replace(n.begin(), n.end(), '/', '_'); if (!s.insert(std::to_string(kv.second->kind) + n).second) return true; }
    return false;
}
void all(World& w, const std::string& who, EnvM& e, Environment* r) {
    same(w, who, e, r); sameGraph(who, e, r);
    REQUIRE(r->getRootNode() && r->getRootNode()->getUniqueId() == e.root->id && r->getItem(e.root->id).get() == r->getRootNode(), "file:root", who << ": the root node is not the one of the scene");
    for (auto& kv : e.items) if (kv.second->kind == L || kv.second->kind == M) REQUIRE(static_cast<Layer*>(r->getItem(kv.first).get())->isImmutable() == kv.second->l()->isImmutable(), "file:immutable", who << ": immutable flag of '" << kv.first << "'");
}
std::string slurp(const std::string& p) { std::ifstream f(p.c_str(), std::ios::binary); return std::string(std::istreambuf_iterator<char>(f), std::istreambuf_iterator<char>()); }
}

SECTION_CPU(roundtrip, 500, 5000, 90)
{
    World w(c); w.newEnv(); if (c.rng.chance(0.3)) w.newEnv();
    Dir d; int rounds = c.rng.range(1, 3); std::string scene = d.path + (c.rng.chance(0.3) ? "/deep/er" : "/scene");
    for (int k = 0; k < rounds; k++) {
        for (int i = c.rng.range(3, c.thorough ? 100 : 50); i > 0; i--) w.step();
        EnvM& e = w.envs[0];
        if (ambiguous(e)) continue;
        for (auto& kv : e.items) if ((kv.second->kind == L || kv.second->kind == M) && c.rng.chance(0.1)) kv.second->l()->setImmutable();
        if (c.rng.chance(0.3)) scene += "x"; else if (k) mon::seen("rewrite");
        LOGOP("serialize"); e.env->serialize(scene);
        // writing changes nothing
        w.checkItems(e); w.checkFrames(e); w.checkGraph(e); w.checkContent(e);
        std::unique_ptr<Environment> r(Environment::unserialize(scene));
        all(w, "read back", e, r.get()); mon::seen("roundtrip"); if (e.items.size() > 8) mon::seen("roundtrip.many");
        // new items in the scene that was read get ids of their own
        { std::string pre = c.rng.chance(0.4) ? e.prefix : "/"; r->setEnvironmentPrefix(pre);
          size_t n = r->getItems<EnvironmentItem>().size();
          for (int i = 0; i < 3; i++) { FrameNode* f = new FrameNode; try { r->attachItem(f); } catch (const std::exception& x) { REQUIRE(false, "file:freshid", "a new item got an id in use: " << x.what()); } REQUIRE(!e.items.count(f->getUniqueId()), "file:freshid", "a new item got the id '" << f->getUniqueId() << "' in use"); }
          REQUIRE(r->getItems<EnvironmentItem>().size() == n + 3, "file:freshid", "new items replaced others"); mon::seen("fresh.ids");
        }
        // what was read can be written and read again
        if (c.rng.chance(0.5)) {
            std::unique_ptr<Environment> r1(Environment::unserialize(scene));
            std::string s2 = d.path + "/again"; r1->serialize(s2);
            std::unique_ptr<Environment> r2(Environment::unserialize(s2)); all(w, "second generation", e, r2.get()); mon::seen("again");
        }
        // one serialization object for several scenes
        if (c.rng.chance(0.3)) {
            FileSerialization so; so.setSceneDir(scene);
            REQUIRE(so.writeToFile(e.env, scene + "/scene.yml"), "file:write", "writing failed");
            std::unique_ptr<Environment> r1(so.readFromFile(scene + "/scene.yml")); all(w, "same object", e, r1.get());
            std::unique_ptr<Environment> r2(so.readFromFile(scene + "/scene.yml")); all(w, "same object, second time", e, r2.get()); mon::seen("same.object");
        }
    }
    mon::distinct(mon::hashStr(mon::currentLog()));
    if (c.idx < 1) mon::sample(mon::currentLog());
    w.finish();
}
// damaged scenes are refused or read, never worse
SECTION_CPU(damaged, 300, 4000, 90)
{
    Dir d; std::string scene = d.path + "/scene";
    World w(c); w.newEnv(); for (int i = c.rng.range(3, 40); i > 0; i--) w.step();
    if (!ambiguous(w.envs[0])) {
        w.envs[0].env->serialize(scene);
        std::string y = slurp(scene + "/scene.yml"); bool mustThrow = false, mayBe = true; int how = c.rng.u(8);
        std::vector<std::string> bins; for (fs::directory_iterator i(scene), n; i != n; ++i) if (i->path().filename() != "scene.yml") bins.push_back(i->path().string());
        LOGOP("damage " << how);
        auto put = [&](const std::string& s) { std::ofstream f((scene + "/scene.yml").c_str(), std::ios::binary); f << s; };
        switch (how) {
            case 0: put(y.substr(0, c.rng.u(y.size()))); break;
            case 1: put(""); mustThrow = true; break;
            case 2: { for (int k = c.rng.range(1, 6); k > 0; k--) y[c.rng.u(y.size())] = (char)c.rng.u(128); put(y); break; }
            case 3: { fs::remove(scene + "/scene.yml"); mustThrow = true; FileSerialization so; REQUIRE(mon::throws([&]() { so.readFromFile(scene + "/scene.yml"); }), "damaged:missing", "a missing scene was read"); break; }
            case 4: if (bins.empty()) { mayBe = false; break; } fs::remove(c.rng.pick(bins)); mustThrow = true; break;
            case 5: { size_t p = y.find("class: 'envire::T"); if (p == std::string::npos) { mayBe = false; break; } y.replace(p, 17, "class: 'envire::X"); put(y); mustThrow = true; break; }
            case 6: put(c.rng.one<std::string>({"- a\n", "objects: 1\n", "scalar", "objects:\n- 1\n", "objects:\n- {x: y}\nlinks: []\n", "links:\n- [1]\n", "{[a]: b}\n", "objects:\n- class: envire::TFrame\n  id: /7\n", "objects:\n- class: envire::TOp\n  id: /0\n  label: x\n  payload: 1\n", ": [\n"})); break;
            case 7: { size_t p = y.find("parent: '/"); if (p == std::string::npos) { mayBe = false; break; } y.replace(p, 10, "parent: '/zz/"); put(y); mustThrow = true; break; }
        }
        if (mayBe) {
            bool threw = false; std::unique_ptr<Environment> r;
            try { r.reset(Environment::unserialize(scene)); } catch (const std::exception&) { threw = true; }
            REQUIRE(std::cerr.good(), "damaged:cerr", "a damaged scene left the error stream unusable");
            REQUIRE(threw || !mustThrow, "damaged:accepted", "a damaged scene (" << how << ") was read without complaint");
            mon::seen(threw ? "damaged.refused" : "damaged.read");
            if (r) { // still an environment: every relation among its own items
                for (EnvironmentItem* i : r->getItems<EnvironmentItem>()) REQUIRE(r->getItem(i->getUniqueId()).get() == i && i->getEnvironment() == r.get(), "damaged:items", "item '" << i->getUniqueId() << "' is not registered right");
                FrameNode* root = r->getRootNode();
                REQUIRE(root && r->getItem(root->getUniqueId()).get() == root, "damaged:root", "an environment without root node was handed out");
                FrameNode* f = new FrameNode; r->addChild(root, f);
            }
            mon::distinct(mon::hashStr(y) ^ how);
        }
    }
    w.finish();
}
// items that refuse to be written or read, places that can not be written; the next attempt is as good as new
namespace ew {
class TRefuse : public Layer {
    ENVIRONMENT_ITEM(TRefuse)
public:
    static bool failWrite, failRead; std::string a, b;
    TRefuse() : Layer(Environment::ITEM_NOT_ATTACHED) {}
    void serialize(Serialization& so) { Layer::serialize(so); so.getBinaryOutputStream(getMapFileName() + ".a") << a; if (failWrite) throw std::runtime_error("refused"); so.getBinaryOutputStream(getMapFileName() + ".b") << b; }
    void unserialize(Serialization& so) { Layer::unserialize(so); a = get(so.getBinaryInputStream(getMapFileName() + ".a")); if (failRead) throw std::runtime_error("refused"); b = get(so.getBinaryInputStream(getMapFileName() + ".b")); }
    static std::string get(std::istream& is) { return std::string(std::istreambuf_iterator<char>(is), std::istreambuf_iterator<char>()); }
};
bool TRefuse::failWrite = false, TRefuse::failRead = false;
const std::string TRefuse::className = "envire::TRefuse"; static SerializationPlugin<TRefuse> pTRefuse;
}
SECTION(refused, 300, 4000)
{
    Dir d; std::string scene = d.path + "/scene"; fs::create_directories(scene);
    Environment env; int n = c.rng.range(1, 4); std::vector<TRefuse*> t;
    for (int i = 0; i < n; i++) { TRefuse* x = new TRefuse; x->a = std::string(c.rng.u(9000), 'a' + i); x->b = "b" + std::to_string(c.rng.u(1000)); env.attachItem(static_cast<EnvironmentItem*>(x)); t.push_back(x); }
    std::unique_ptr<FileSerialization> so(new FileSerialization);
    auto same = [&](Environment* r, const char* who) { REQUIRE(r, "refused:read", who); for (TRefuse* x : t) { TRefuse* y = r->getItem<TRefuse>(x->getUniqueId()).get(); REQUIRE(y && y->a == x->a && y->b == x->b, "refused:content", who << ": item '" << x->getUniqueId() << "' has other content after an earlier failure"); } };
    for (int k = c.rng.range(1, 6); k > 0; k--) {
        int how = c.rng.u(5); LOGOP("attempt " << how); if (c.rng.chance(.3)) so.reset(new FileSerialization); so->setSceneDir(scene);
        if (how == 0) { TRefuse::failWrite = true; bool th = mon::throws([&] { so->writeToFile(&env, scene + "/scene.yml"); }); TRefuse::failWrite = false; REQUIRE(th, "refused:write", "a refusing item was written"); mon::seen("refused.write"); }
        if (how == 1) { env.serialize(scene); TRefuse::failRead = true; bool th = mon::throws([&] { delete so->readFromFile(scene + "/scene.yml"); }); TRefuse::failRead = false; REQUIRE(th, "refused:read", "a refusing item was read"); mon::seen("refused.read"); }
        if (how == 2) { REQUIRE(mon::throws([&] { so->writeToFile(&env, scene + "/none/scene.yml"); }), "refused:place", "a scene was written to a place that is not there"); so->setSceneDir(scene + "/none"); REQUIRE(mon::throws([&] { so->writeToFile(&env, scene + "/x.yml"); }), "refused:place", "streams were written to a place that is not there"); mon::seen("refused.place"); }
        if (how == 3) { env.serialize(scene); so->setSceneDir(scene + "/none"); REQUIRE(mon::throws([&] { delete so->readFromFile(scene + "/scene.yml"); }), "refused:streams", "streams were read from a place that is not there"); mon::seen("refused.streams"); }
        if (how == 4) { REQUIRE(so->writeToFile(&env, scene + "/scene.yml"), "refused:retry", "not written"); std::unique_ptr<Environment> r(c.rng.chance(.5) ? so->readFromFile(scene + "/scene.yml") : Environment::unserialize(scene)); same(r.get(), "after failures"); mon::seen("refused.retry"); }
    }
    env.serialize(scene); std::unique_ptr<Environment> r(Environment::unserialize(scene)); same(r.get(), "at the end");
    mon::distinct(mon::hashStr(mon::currentLog()));
}
// two layers whose ids differ only in / and _
SECTION(names, 1, 1)
{
    Dir d; Environment env;
    TMap* a = new TMap; a->blob = "first"; a->setUniqueId("/a/b"); env.attachItem(static_cast<EnvironmentItem*>(a));
    TMap* b = new TMap; b->blob = "second one"; b->setUniqueId("/a_b"); env.attachItem(static_cast<EnvironmentItem*>(b));
    env.serialize(d.path);
    std::string x, y; std::unique_ptr<Environment> r;
    try { r.reset(Environment::unserialize(d.path)); x = r->getItem<TMap>("/a/b")->blob; y = r->getItem<TMap>("/a_b")->blob; } catch (const std::exception& e) { x = e.what(); }
    mon::seen("names");
    REQUIRE(x == "first" && y == "second one", "names:slash-underscore", "layers '/a/b' and '/a_b' share one file: read '" << x << "' and '" << y << "'");
}
