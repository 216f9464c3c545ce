#ifndef SHIM_PLY
#define SHIM_PLY
// binary/ascii PLY parser with the callback interface of libply
#include <tr1/functional>
#include <tr1/tuple>
#include <cstdint>
#include <cstring>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>
namespace ply {
typedef int8_t int8; typedef int16_t int16; typedef int32_t int32; typedef uint8_t uint8; typedef uint16_t uint16; typedef uint32_t uint32; typedef float float32; typedef double float64;
enum format_type { ascii_format, binary_little_endian_format, binary_big_endian_format };
enum byte_order { little_endian_byte_order, big_endian_byte_order };
const byte_order host_byte_order = little_endian_byte_order;
namespace cb {
template<class T> struct ScalarDef { typedef std::tr1::function<void(T)> cbk; typedef std::tr1::function<cbk(const std::string&, const std::string&)> type; };
template<class S, class T> struct ListDef { typedef std::tr1::tuple<std::tr1::function<void(S)>, std::tr1::function<void(T)>, std::tr1::function<void()> > cbk; typedef std::tr1::function<cbk(const std::string&, const std::string&)> type; };
template<class T> struct ScalarSlot { typename ScalarDef<T>::type f; };
template<class S, class T> struct ListSlot { typename ListDef<S, T>::type f; };
struct Scalars : ScalarSlot<int8>, ScalarSlot<int16>, ScalarSlot<int32>, ScalarSlot<uint8>, ScalarSlot<uint16>, ScalarSlot<uint32>, ScalarSlot<float32>, ScalarSlot<float64> {};
template<class S> struct ListsOf : ListSlot<S, int8>, ListSlot<S, int16>, ListSlot<S, int32>, ListSlot<S, uint8>, ListSlot<S, uint16>, ListSlot<S, uint32>, ListSlot<S, float32>, ListSlot<S, float64> {};
struct Lists : ListsOf<uint8>, ListsOf<uint16>, ListsOf<uint32> {};
}
namespace callback_types { typedef cb::Scalars scalar_property_definition_callbacks_type; typedef cb::Lists list_property_definition_callbacks_type; }
template<class T> typename cb::ScalarDef<T>::type& at(cb::Scalars& s) { return static_cast<cb::ScalarSlot<T>&>(s).f; }
template<class S, class T> typename cb::ListDef<S, T>::type& at(cb::Lists& s) { return static_cast<cb::ListSlot<S, T>&>(s).f; }
class ply_parser {
public:
    typedef int flags_type;
    typedef std::tr1::function<void(std::size_t, const std::string&)> msg_t;
    ply_parser(flags_type) : fmt(ascii_format) {}
    void info_callback(const msg_t& f) { info = f; } void warning_callback(const msg_t& f) { warn = f; } void error_callback(const msg_t& f) { err = f; }
    void magic_callback(const std::tr1::function<void()>& f) { magic = f; }
    void format_callback(const std::tr1::function<void(format_type, const std::string&)>& f) { format = f; }
    void comment_callback(const std::tr1::function<void(const std::string&)>& f) { comment = f; }
    void obj_info_callback(const std::tr1::function<void(const std::string&)>& f) { obj_info = f; }
    void end_header_callback(const std::tr1::function<bool()>& f) { end_header = f; }
    void scalar_property_definition_callbacks(const cb::Scalars& s) { scalars = s; }
    void list_property_definition_callbacks(const cb::Lists& s) { lists = s; }
    bool parse(std::istream& is) {
        std::string line; std::size_t ln = 0; std::vector<Element> els; bool done = false;
        while (std::getline(is, line)) {
            ln++; if (!line.empty() && line[line.size() - 1] == '\r') line.erase(line.size() - 1);
            std::istringstream ss(line); std::string k; ss >> k;
            if (ln == 1) { if (k != "ply") return fail(ln, "no magic"); magic(); continue; }
            if (k == "format") { std::string f, v; ss >> f >> v; if (f == "ascii") fmt = ascii_format; else if (f == "binary_little_endian") fmt = binary_little_endian_format; else if (f == "binary_big_endian") fmt = binary_big_endian_format; else return fail(ln, "format"); format(fmt, v); }
            else if (k == "comment") comment(line); else if (k == "obj_info") obj_info(line);
            else if (k == "element") { Element e; if (!(ss >> e.name >> e.count)) return fail(ln, "element"); els.push_back(e); }
            else if (k == "property") { std::string t, a, b, n; if (els.empty()) return fail(ln, "property"); ss >> t;
                if (t == "list") { ss >> a >> b >> n; if (!defList(els.back(), a, b, n)) return fail(ln, "list type"); } else { ss >> n; if (!defScalar(els.back(), t, n)) return fail(ln, "type"); } }
            else if (k == "end_header") { done = true; break; }
            else return fail(ln, "unknown keyword");
        }
        if (!done) return fail(ln, "no end of header");
        if (!end_header()) return true;
        for (size_t e = 0; e < els.size(); e++) for (size_t i = 0; i < els[e].count; i++) for (size_t p = 0; p < els[e].props.size(); p++) if (!els[e].props[p](is)) return fail(ln, "unexpected end of data");
        return true;
    }
private:
    struct Element { std::string name; size_t count; std::vector<std::tr1::function<bool(std::istream&)> > props; };
    msg_t info, warn, err; std::tr1::function<void()> magic; std::tr1::function<void(format_type, const std::string&)> format; std::tr1::function<void(const std::string&)> comment, obj_info; std::tr1::function<bool()> end_header; cb::Scalars scalars; cb::Lists lists; format_type fmt;
    bool fail(std::size_t l, const char* m) { if (err) err(l, m); return false; }
    template<class T> static bool read(format_type f, std::istream& is, T& v) {
        if (f == ascii_format) { double d; if (!(is >> d)) return false; v = (T)d; return true; }
        char b[sizeof(T)]; if (!is.read(b, sizeof(T))) return false; if (f == binary_big_endian_format) for (size_t i = 0; i < sizeof(T) / 2; i++) std::swap(b[i], b[sizeof(T) - 1 - i]); memcpy(&v, b, sizeof(T)); return true; }
    template<class T> struct RdScalar { format_type f; typename cb::ScalarDef<T>::cbk c; bool operator()(std::istream& is) const { T v; if (!read(f, is, v)) return false; if (c) c(v); return true; } };
    template<class S, class T> struct RdList { format_type f; typename cb::ListDef<S, T>::cbk c; bool operator()(std::istream& is) const { S n; if (!read(f, is, n)) return false; if (std::tr1::get<0>(c)) std::tr1::get<0>(c)(n); for (S i = 0; i < n; i++) { T v; if (!read(f, is, v)) return false; if (std::tr1::get<1>(c)) std::tr1::get<1>(c)(v); } if (std::tr1::get<2>(c)) std::tr1::get<2>(c)(); return true; } };
    template<class T> bool addS(Element& e, const std::string& n) { RdScalar<T> r; r.f = fmt; if (at<T>(scalars)) r.c = at<T>(scalars)(e.name, n); e.props.push_back(r); return true; }
    template<class S, class T> bool addL(Element& e, const std::string& n) { RdList<S, T> r; r.f = fmt; if (at<S, T>(lists)) r.c = at<S, T>(lists)(e.name, n); e.props.push_back(r); return true; }
    bool defScalar(Element& e, const std::string& t, const std::string& n) {
        if (t == "char" || t == "int8") return addS<int8>(e, n); if (t == "short" || t == "int16") return addS<int16>(e, n); if (t == "int" || t == "int32") return addS<int32>(e, n);
        if (t == "uchar" || t == "uint8") return addS<uint8>(e, n); if (t == "ushort" || t == "uint16") return addS<uint16>(e, n); if (t == "uint" || t == "uint32") return addS<uint32>(e, n);
        if (t == "float" || t == "float32") return addS<float32>(e, n); if (t == "double" || t == "float64") return addS<float64>(e, n); return false; }
    template<class S> bool defL(Element& e, const std::string& t, const std::string& n) {
        if (t == "char" || t == "int8") return addL<S, int8>(e, n); if (t == "short" || t == "int16") return addL<S, int16>(e, n); if (t == "int" || t == "int32") return addL<S, int32>(e, n);
        if (t == "uchar" || t == "uint8") return addL<S, uint8>(e, n); if (t == "ushort" || t == "uint16") return addL<S, uint16>(e, n); if (t == "uint" || t == "uint32") return addL<S, uint32>(e, n);
        if (t == "float" || t == "float32") return addL<S, float32>(e, n); if (t == "double" || t == "float64") return addL<S, float64>(e, n); return false; }
    bool defList(Element& e, const std::string& s, const std::string& t, const std::string& n) {
        if (s == "uchar" || s == "uint8") return defL<uint8>(e, t, n); if (s == "ushort" || s == "uint16") return defL<uint16>(e, t, n); if (s == "uint" || s == "uint32") return defL<uint32>(e, t, n); return false; }
};
}
#endif
