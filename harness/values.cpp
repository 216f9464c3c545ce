#include "mon.hpp"
#include <envire/Core.hpp>
#include <envire/core/Serialization.hpp>
#include <limits>
using namespace envire;

namespace {
std::string text(mon::Rng& r) {
    static const char* bits[] = {"a", "Z", "0", "9", " ", "  ", "\n", "\n\n", "\t", "'", "\"", "''", ":", ": ", "#", " #", "- ", "-", "?", "|", ">", "%", "@", "`", "&x", "*x", "!t", "{", "}", "[", "]", ",", "~", "null", "true", "1e5", "\\", "\\n", "\xc3\xa4", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "\r", "\r\n", "\x07", "\x1b", "---", "...", "\xc2\x85", "\xe2\x80\xa8", "\xef\xbb\xbf", "word ", "longerword"};
    std::string s; int n = r.chance(0.1) ? r.range(50, 400) : r.range(0, 8);
    for (int i = 0; i < n; i++) s += bits[r.u(sizeof bits / sizeof *bits)];
    if (r.chance(0.05)) s = text(r) + std::string(1, '\0') + s;
    return s;
}
double number(mon::Rng& r) {
    switch (r.u(8)) {
        case 0: return 0; case 1: return -0.0; case 2: return r.one<double>({1e308, -1e308, 4.9e-324, 2.2250738585072014e-308, 1.7976931348623157e308});
        case 3: return r.one<double>({std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity()});
        case 4: return r.gauss() * std::pow(10.0, r.range(-300, 300));
        case 5: return (double)r.range(-1000, 1000); default: return r.real(-10, 10);
    }
}
template <class T> T integer(mon::Rng& r) {
    switch (r.u(4)) { case 0: return std::numeric_limits<T>::min(); case 1: return std::numeric_limits<T>::max(); default: return (T)((uint64_t)r.u(1u << 31) * 2654435761u); }
}
template <class M> M matrix(mon::Rng& r) { M m; for (int i = 0; i < m.rows(); i++) for (int j = 0; j < m.cols(); j++) m(i, j) = number(r); return m; }
struct Val { int kind; std::string s; double d; float f; int i; long l; unsigned long u; bool b; char ch; Eigen::Matrix4d t; Eigen::Matrix<double, 6, 6> cov; };
struct Box { Serialization so; Box() { so.begin(); } ~Box() { so.end(); } };
template <class T> bool eq(T a, T b) { return a == b && std::signbit((double)a) == std::signbit((double)b); }
}

SECTION(roundtrip, 1200, 12000)
{
    std::unique_ptr<Box> box(new Box);
    Serialization& so = box->so;
    std::map<std::string, Val> vals; std::vector<std::string> keys;
    int n = c.rng.range(1, 30);
    auto key = [&]() { static const char* ks[] = {"id", "x", "sigma max", "a.b", "k-1", "key'", "1", "true", "\xc3\xa4", "trailing_", "Pose", "band:0", "a/b"}; std::string k = ks[c.rng.u(13)]; if (c.rng.chance(0.7)) k += std::to_string(c.rng.u(1000)); return k; };
    for (int i = 0; i < n; i++) {
        std::string k = key(); if (vals.count(k)) continue;
        Val v; v.kind = c.rng.u(9);
        v.s = text(c.rng); v.d = number(c.rng); v.f = (float)c.rng.real(-1e3, 1e3); v.i = integer<int>(c.rng); v.l = integer<long>(c.rng); v.u = integer<unsigned long>(c.rng); v.b = c.rng.chance(0.5); v.ch = (char)c.rng.range(33, 126);
        v.t = matrix<Eigen::Matrix4d>(c.rng); v.cov = matrix<Eigen::Matrix<double, 6, 6> >(c.rng);
        LOGOP("write " << k << " kind " << v.kind);
        switch (v.kind) {
            case 0: so.write(k, v.s); break; case 1: so.write(k, v.d); break; case 2: so.write(k, v.f); break; case 3: so.write(k, v.i); break;
            case 4: so.write(k, v.l); break; case 5: so.write(k, v.u); break; case 6: so.write(k, v.b); break;
            case 7: { Transform t; t.matrix() = v.t; so.write(k, t); break; }
            case 8: so.write(k, TransformWithUncertainty::Covariance(v.cov)); break;
        }
        vals[k] = v; keys.push_back(k);
        if (c.rng.chance(0.3)) { // absent keys, at any time
            std::string k2 = key() + "?";
            std::string s = "keep"; int x = 17; bool bad = so.hasKey(k2) || so.read(k2, s) || so.read(k2, x) || s != "keep" || x != 17 || so.read<int>(k2) != 0 || so.read<std::string>(k2) != "";
            REQUIRE(!bad, "value:absent", "a key that was never written was found or changed the target");
            Transform t(Transform::Identity()); TransformWithUncertainty::Covariance cov; bool threw = false, ok = false;
            try { ok = so.read(k2, t); } catch (const std::runtime_error&) { threw = true; }
            REQUIRE(!ok || threw, "value:absent", "an absent transform was read");
            threw = ok = false;
            try { ok = so.read(k2, cov); } catch (const std::runtime_error&) { threw = true; }
            REQUIRE(!ok || threw, "value:absent", "an absent covariance was read");
            mon::seen("absent");
        }
    }
    // read in another order
    for (size_t i = keys.size(); i > 1; i--) std::swap(keys[i - 1], keys[c.rng.u(i)]);
    for (auto& k : keys) {
        Val& v = vals[k]; bool ok = false;
        REQUIRE(so.hasKey(k), "value:haskey", "written key '" << k << "' not found");
        switch (v.kind) {
            case 0: { std::string s = "x"; ok = so.read(k, s) && s == v.s && so.read<std::string>(k) == v.s; mon::seen("string"); break; }
            case 1: { double d = 7; ok = so.read(k, d) && eq(d, v.d) && eq(so.read<double>(k), v.d); mon::seen("double"); break; }
            case 2: { float f = 7; ok = so.read(k, f) && eq(f, v.f); mon::seen("float"); break; }
            case 3: { int x = 7; ok = so.read(k, x) && x == v.i; break; }
            case 4: { long x = 7; ok = so.read(k, x) && x == v.l; break; }
            case 5: { unsigned long x = 7; ok = so.read(k, x) && x == v.u; break; }
            case 6: { bool x = !v.b; ok = so.read(k, x) && x == v.b; mon::seen("bool"); break; }
            case 7: { Transform t(Transform::Identity()); ok = so.read(k, t); for (int i = 0; i < 16; i++) ok = ok && eq(t.matrix()(i / 4, i % 4), v.t(i / 4, i % 4)); mon::seen("transform"); break; }
            case 8: { TransformWithUncertainty::Covariance m; m.setZero(); ok = so.read(k, m); for (int i = 0; i < 36; i++) ok = ok && eq(m(i / 6, i % 6), v.cov(i / 6, i % 6)); mon::seen("covariance"); break; }
        }
        REQUIRE(ok, "value:kind" + std::to_string(v.kind), "the value of '" << k << "' was not read back as written");
        // asking for the wrong kind never invents a value
        if (v.kind >= 7 && c.rng.chance(0.3)) { std::string s = "keep"; REQUIRE(!so.read(k, s) && s == "keep", "value:wrongkind", "a matrix was read as a string"); mon::seen("wrongkind"); }
        if (v.kind < 7 && c.rng.chance(0.3)) { Transform t(Transform::Identity()); bool threw = mon::throws([&]() { so.read(k, t); }); REQUIRE(threw && t.matrix() == Eigen::Matrix4d(Eigen::Matrix4d::Identity()), "value:wrongkind", "a scalar was read as a transform"); mon::seen("wrongkind"); }
        if (v.kind == 7 && c.rng.chance(0.3)) { TransformWithUncertainty::Covariance m; m.setZero(); REQUIRE(mon::throws([&]() { so.read(k, m); }), "value:size", "a transform was read as a covariance"); mon::seen("wrongsize"); }
        if (v.kind == 8 && c.rng.chance(0.3)) { Transform t(Transform::Identity()); REQUIRE(mon::throws([&]() { so.read(k, t); }), "value:size", "a covariance was read as a transform"); mon::seen("wrongsize"); }
        if (v.kind == 0 && c.rng.chance(0.2) && v.s.find_first_of("0123456789") == std::string::npos) { int x = 5; REQUIRE(mon::throws([&]() { so.read(k, x); }) && x == 5, "value:nonnumber", "text was read as a number"); mon::seen("nonnumber"); }
    }
    bool s1 = mon::throws([&]() { so.getBinaryInputStream("x"); }), s2 = mon::throws([&]() { so.getBinaryOutputStream("x"); });
    REQUIRE(s1 && s2, "value:streams", "a plain serialization handed out a binary stream");
    if (c.rng.chance(0.2)) { so.end(); so.begin(); for (auto& k : keys) REQUIRE(!so.hasKey(k), "value:restart", "a key survived a restart"); mon::seen("restart"); }
    mon::distinct(mon::hashStr(mon::currentLog()) ^ mon::hashStr(vals.empty() ? "" : vals.begin()->second.s));
}
