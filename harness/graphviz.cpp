// The graph drawing of an environment, read back with a DOT reader of its own.
#include "envworld.hpp"
#include <envire/tools/GraphViz.hpp>
#include <fstream>
#include <sys/stat.h>
#include <unistd.h>
EW_REGISTER()
using namespace ew;

// an item that is neither a frame, a layer nor an operator
namespace plainns { namespace inner {
class TPlain : public EnvironmentItem {
public:
    TPlain() : EnvironmentItem(std::string()) {}
    static const std::string className;
    const std::string& getClassName() const { return className; }
    EnvironmentItem* clone() const { return new TPlain(*this); }
    void set(EnvironmentItem*) {}
};
const std::string TPlain::className = "plainns::inner::TPlain";
} }

struct Stmt { std::string a, b; bool edge = false; std::map<std::string, std::string> attr; };

// strings come out as the characters between the quotes
struct Dot {
    std::string s; size_t p = 0; std::vector<Stmt> nodes, edges;
    [[noreturn]] void bad(const std::string& m) { REQUIRE(false, "dot:syntax", m << " at offset " << p << " near '" << s.substr(p > 30 ? p - 30 : 0, 70) << "'"); abort(); }
    void ws() {
        for (;;) {
            while (p < s.size() && (isspace((unsigned char)s[p]) || s[p] == ';')) p++;
            if (p < s.size() && s[p] == '#' && (p == 0 || s[p - 1] == '\n')) { while (p < s.size() && s[p] != '\n') p++; continue; }
            if (p + 1 < s.size() && s[p] == '/' && s[p + 1] == '/') { while (p < s.size() && s[p] != '\n') p++; continue; }
            return;
        }
    }
    std::string id() {
        ws();
        std::string r;
        if (p < s.size() && s[p] == '"') {
            for (p++;;) {
                if (p >= s.size()) bad("unterminated string");
                if (s[p] == '"') { p++; break; }
                if (s[p] == '\\' && p + 1 < s.size()) { r += s[p]; r += s[p + 1]; p += 2; continue; }
                r += s[p++];
            }
            return r;
        }
        auto al = [](unsigned char ch) { return isalpha(ch) || ch == '_' || ch >= 128; };
        if (p < s.size() && al(s[p])) { while (p < s.size() && (al(s[p]) || isdigit((unsigned char)s[p]))) r += s[p++]; return r; }
        if (p < s.size() && (isdigit((unsigned char)s[p]) || s[p] == '.' || s[p] == '-')) {
            if (s[p] == '-') r += s[p++];
            while (p < s.size() && (isdigit((unsigned char)s[p]) || s[p] == '.')) r += s[p++];
            if (r.empty() || r == "-") bad("identifier expected");
            if (p < s.size() && al(s[p])) bad("identifier starts like a number");
            return r;
        }
        bad("identifier expected");
    }
    bool sym(const char* t) { ws(); size_t n = strlen(t); if (s.compare(p, n, t)) return false; p += n; return true; }
    void attrs(Stmt& st) {
        while (sym("[")) {
            while (!sym("]")) {
                std::string k = id(); if (!sym("=")) bad("= expected"); std::string v = id();
                if (st.attr.count(k)) bad("attribute given twice"); 
                st.attr[k] = v; if (!sym(",")) sym(";");
            }
        }
    }
    void parse() {
        if (id() != "digraph") bad("digraph expected");
        ws(); if (p < s.size() && s[p] != '{') id();
        if (!sym("{")) bad("{ expected");
        while (!sym("}")) {
            Stmt st; st.a = id();
            if (sym("->")) { st.edge = true; st.b = id(); }
            attrs(st);
            (st.edge ? edges : nodes).push_back(st);
        }
        ws(); if (p != s.size()) bad("text after the graph");
    }
};

// what a label shows: escapes resolved (\N and \G would be substituted by dot)
static std::string shown(const std::string& l) {
    std::string r;
    for (size_t i = 0; i < l.size(); i++) {
        if (l[i] != '\\' || i + 1 == l.size()) { r += l[i]; continue; }
        char n = l[++i];
        if (n == 'n' || n == 'l' || n == 'r') r += '\n';
        else if (strchr("NGELHT", n)) r += std::string("<substituted ") + n + ">";
        else r += n;
    }
    return r;
}
static std::string slurp(const std::string& f) {
    std::ifstream is(f.c_str(), std::ios::binary);
    return std::string(std::istreambuf_iterator<char>(is), std::istreambuf_iterator<char>());
}
static std::string scratch() {
    static std::string d;
    if (d.empty()) { char t[] = "/tmp/verif_gv_XXXXXX"; REQUIRE(mkdtemp(t), "harness", "scratch"); d = t; }
    return d;
}
struct Cleaner { ~Cleaner() { unlink((scratch() + "/g.dot").c_str()); rmdir(scratch().c_str()); } } cleaner;

static const char* hostileLabels[] = {"a\"b", "back\\slash", "trail\\", "\\N", "q\"]\n x [label=\"", "a -> b", "# no", "{", "\\\"", "]"};
static const char* hostileIds[] = {"cam-1", "with space", "q\"uote", "back\\slash", "a/b_c", "a_b/c", "a_b_c", "a-b", "1st", "semi;colon", "trail\\", "->", "\xc3\xa4", "node", "a[b]", "x\"];}"};

static void checkDrawing(EnvM& e, std::map<std::string, EnvironmentItem*>& plain) {
    std::string file = scratch() + "/g.dot";
    // the previous drawing is replaced, not continued
    GraphViz::writeToFile(e.env, file);
    Dot d; d.s = slurp(file); d.parse();
    std::map<std::string, std::string> nodeOf;   // item id -> node name
    std::set<std::string> names;
    std::map<std::string, std::vector<size_t> > byTail;   // label ending
    // every item is one node
    REQUIRE(d.nodes.size() == e.items.size() + plain.size(), "node:count", d.nodes.size() << " nodes for " << e.items.size() + plain.size() << " items");
    struct Want { std::string label, shape, fill; bool frame; Item* it; };
    std::multimap<std::string, std::pair<std::string, Want> > wants;   // first lines of the label -> item id
    for (auto& kv : e.items) {
        Item* it = kv.second.get(); Want w; w.it = it; w.frame = it->kind == F;
        std::string cls = it->p->getClassName(); if (cls.rfind("::") != std::string::npos) cls = cls.substr(cls.rfind("::") + 2);
        w.label = (it->p->getLabel().empty() ? "" : it->p->getLabel() + "\n") + cls + " [" + it->id + "]";
        switch (it->kind) { case F: w.shape = "ellipse"; w.fill = "lightblue"; break; case O: w.shape = "octagon"; w.fill = "lightcoral"; break; default: w.shape = "box"; w.fill = "palegreen"; }
        wants.insert({w.label, {it->id, w}});
    }
    for (auto& kv : plain) {
        Want w; w.it = nullptr; w.frame = false;
        w.label = (kv.second->getLabel().empty() ? "" : kv.second->getLabel() + "\n") + "TPlain [" + kv.first + "]";
        wants.insert({w.label, {kv.first, w}});
    }
    for (Stmt& n : d.nodes) {
        REQUIRE(names.insert(n.a).second, "node:name", "two nodes share the name " << n.a);
        REQUIRE(n.attr.count("label"), "node:label", "node " << n.a << " without a label");
        std::string l = shown(n.attr["label"]);
        auto best = wants.end();
        for (auto i = wants.begin(); i != wants.end(); ++i) {
            const Want& w = i->second.second;
            bool m = w.frame ? l.compare(0, w.label.size() + 5, w.label + "\nt: (") == 0 : l == w.label;
            if (m && (best == wants.end() || w.label.size() > best->first.size())) best = i;
        }
        REQUIRE(best != wants.end(), "node:label", "node label '" << l << "' belongs to no item");
        Want w = best->second.second; std::string id = best->second.first; wants.erase(best);
        nodeOf[id] = n.a;
        if (w.it) {
            REQUIRE(n.attr["shape"] == w.shape && n.attr["style"] == "filled" && n.attr["fillcolor"] == w.fill, "node:shape", "item " << id << " kind " << w.it->kind << " drawn as " << n.attr["shape"] << "/" << n.attr["fillcolor"]);
            mon::seen(w.frame ? "node.frame" : w.it->kind == O ? "node.operator" : w.it->kind == M ? "node.map" : "node.layer");
        } else { REQUIRE(!n.attr.count("fillcolor"), "node:shape", "a plain item drawn like another kind"); mon::seen("node.plain"); }
        if (w.frame) {
            double t[3], r[3]; int used = 0;
            std::string rest = l.substr(w.label.size());
            REQUIRE(sscanf(rest.c_str(), "\nt: (%lf %lf %lf)\nr: (%lf %lf %lf)%n", &t[0], &t[1], &t[2], &r[0], &r[1], &r[2], &used) == 6 && used == (int)rest.size(), "frame:text", "frame text '" << rest << "'");
            const Eigen::Affine3d& tf = w.it->tf.getTransform();
            for (int i = 0; i < 3; i++) REQUIRE(std::abs(t[i] - tf.translation()[i]) <= 0.0501, "frame:translation", "frame " << id << " is at " << tf.translation().transpose() << ", drawn at " << rest);
            Eigen::Matrix3d m; m = Eigen::AngleAxisd(r[2] * M_PI / 180, Eigen::Vector3d::UnitZ()) * Eigen::AngleAxisd(r[1] * M_PI / 180, Eigen::Vector3d::UnitY()) * Eigen::AngleAxisd(r[0] * M_PI / 180, Eigen::Vector3d::UnitX());
            REQUIRE((m - tf.linear()).norm() < 0.006, "frame:rotation", "frame " << id << " rotation drawn as " << rest << ", off by " << (m - tf.linear()).norm());
            if (!tf.linear().isIdentity()) mon::seen("frame.rotated");
        }
    }
    REQUIRE(wants.empty(), "node:missing", "item " << wants.begin()->second.first << " is not drawn");
    // every relation is one edge
    std::multimap<std::pair<std::string, std::string>, std::string> want;
    auto add = [&](Item* a, Item* b, const std::string& st) { want.insert({{nodeOf[a->id], nodeOf[b->id]}, st}); mon::seen("edge." + st); };
    for (auto& q : e.parent) add(q.first, q.second, "frame");
    for (auto& q : e.layer) add(q.second, q.first, "layer");
    for (auto& q : e.in) add(q.second, q.first, "input");
    for (auto& q : e.out) add(q.first, q.second, "output");
    for (auto& q : e.frameOf) add(q.second, q.first, "map");
    for (Stmt& s : d.edges) {
        REQUIRE(names.count(s.a) && names.count(s.b), "edge:ends", "edge " << s.a << " -> " << s.b << " ends at an undeclared node");
        auto rg = want.equal_range({s.a, s.b}); bool dotted = s.attr.count("style") && s.attr["style"] == "dotted";
        auto hit = want.end();
        for (auto i = rg.first; i != rg.second; ++i) if ((i->second == "layer") == dotted) hit = i;
        REQUIRE(hit != want.end(), "edge:extra", "edge " << s.a << " -> " << s.b << (dotted ? " (dotted)" : "") << " matches no relation");
        want.erase(hit);
    }
    REQUIRE(want.empty(), "edge:missing", want.begin()->second << " relation " << want.begin()->first.first << " -> " << want.begin()->first.second << " is not drawn");
}

SECTION_CPU(drawing, 4000, 40000, 120)
{
    World w(c); w.allowMove = false;
    w.newEnv();
    int steps = c.rng.range(5, c.thorough ? 150 : 80);
    std::map<std::string, EnvironmentItem*> plain;
    for (int i = 0; i < steps; i++) {
        if (c.rng.chance(0.15)) {     // ids and labels with characters that mean something to dot
            IP it = w.create((Kind)c.rng.u(4));
            if (c.rng.chance(0.6)) { it->id = hostileIds[c.rng.u(16)]; it->p->setUniqueId(it->id); }
            if (c.rng.chance(0.6)) { it->label = hostileLabels[c.rng.u(10)]; it->p->setLabel(it->label); mon::seen("label.hostile"); }
            EnvM& e = w.envs[0];
            if (w.attachBy(e, 0, it, [&]() { e.env->attachItem(it->p); }, "attach")) { mon::seen("id.hostile"); if (it->kind == M) e.frameOf.erase(it.get()); }
        } else if (c.rng.chance(0.2)) w.operatorOp(w.envs[0], 0);
        else w.step();
        if (i % 12 == 11 || i == steps - 1) {
            EnvM& e = w.envs[0];
            checkDrawing(e, plain);
            w.checkGraph(e);           // drawing changes nothing
            mon::seen("drawing");
        }
    }
    // items of no known kind
    EnvM& e = w.envs[0];
    int np = c.rng.range(0, 3);
    for (int i = 0; i < np; i++) {
        plainns::inner::TPlain* p = new plainns::inner::TPlain;
        if (c.rng.chance(0.5)) p->setLabel(hostileLabels[c.rng.u(10)]);
        e.env->attachItem(p); plain[p->getUniqueId()] = p;
    }
    if (np) checkDrawing(e, plain);
    for (auto& kv : plain) e.env->detachItem(kv.second);
    // a drawing that can not be written is reported
    LOGOP("unwritable");
    REQUIRE(mon::throws([&]() { GraphViz::writeToFile(e.env, scratch() + "/missing/g.dot"); }), "file:unwritable", "a drawing that was not written counts as written");
    REQUIRE(mon::throws([&]() { GraphViz::writeToFile(e.env, scratch()); }), "file:unwritable", "a directory counts as a drawing");
    mon::seen("unwritable");
    mon::distinct(mon::hashStr(mon::currentLog()));
    if (c.idx < 2) mon::sample(mon::currentLog());
    w.finish();
}
