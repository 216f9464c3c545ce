// Point set processing: parameters and results of every call are recorded.
#ifndef VERIF_CGAL_PSP
#define VERIF_CGAL_PSP
#include <CGAL/Exact_predicates_inexact_constructions_kernel.h>
#include <boost/tuple/tuple.hpp>
#include <algorithm>
#include <cmath>
#include <map>
#include <string>
#include <vector>
namespace CGAL {
struct Sequential_tag {}; struct Parallel_tag {};
template <int N, class T> struct Nth_of_tuple_property_map { static auto& ref(T& t) { return boost::get<N>(t); } };
struct PspCall { std::string what; double value; unsigned k; size_t before, after; };
inline std::vector<PspCall>& pspCalls() { static std::vector<PspCall> c; return c; }
template <class It, class Map> std::vector<double> pspDistances(It b, It e, Map, unsigned k) {
    std::vector<double> r;
    for (It i = b; i != e; ++i) {
        std::vector<double> d;
        for (It j = b; j != e; ++j) if (i != j) {
            auto &p = Map::ref(*i), &q = Map::ref(*j);
            d.push_back(std::sqrt((p.x() - q.x()) * (p.x() - q.x()) + (p.y() - q.y()) * (p.y() - q.y()) + (p.z() - q.z()) * (p.z() - q.z())));
        }
        std::sort(d.begin(), d.end()); if (d.size() > k) d.resize(k);
        double s = 0; for (double x : d) s += x; r.push_back(d.empty() ? 0 : s / d.size());
    }
    return r;
}
template <class Tag, class It, class Map> double compute_average_spacing(It b, It e, Map m, unsigned k) {
    if (b == e) throw Precondition_exception("compute_average_spacing: no points");
    std::vector<double> d = pspDistances(b, e, m, k); double s = 0; for (double x : d) s += x;
    pspCalls().push_back({"spacing", 0, k, (size_t)(e - b), (size_t)(e - b)});
    return s / d.size();
}
// one point of every cell is kept, in front
template <class It, class Map> It grid_simplify_point_set(It b, It e, Map, double eps) {
    if (!(eps > 0)) throw Precondition_exception("grid_simplify_point_set: cell size");
    std::vector<typename std::iterator_traits<It>::value_type> keep, drop;
    std::map<std::vector<long>, int> cells;
    for (It i = b; i != e; ++i) {
        auto& p = Map::ref(*i);
        std::vector<long> c = {(long)std::floor(p.x() / eps), (long)std::floor(p.y() / eps), (long)std::floor(p.z() / eps)};
        (cells[c]++ ? drop : keep).push_back(*i);
    }
    std::copy(drop.begin(), drop.end(), std::copy(keep.begin(), keep.end(), b));
    pspCalls().push_back({"simplify", eps, 0, keep.size() + drop.size(), keep.size()});
    return b + keep.size();
}
// the given percentage of the points with the largest mean distance goes to the end
template <class It, class Map> It remove_outliers(It b, It e, Map m, unsigned k, double percentage) {
    if (b == e) throw Precondition_exception("remove_outliers: no points");
    if (k < 2) throw Precondition_exception("remove_outliers: neighbours");
    if (!(percentage >= 0 && percentage <= 100)) throw Precondition_exception("remove_outliers: percentage");
    std::vector<double> d = pspDistances(b, e, m, k);
    std::vector<size_t> ix(d.size()); for (size_t i = 0; i < ix.size(); i++) ix[i] = i;
    std::stable_sort(ix.begin(), ix.end(), [&](size_t x, size_t y) { return d[x] < d[y]; });
    std::vector<typename std::iterator_traits<It>::value_type> v; for (size_t i : ix) v.push_back(*(b + i));
    std::copy(v.begin(), v.end(), b);
    size_t keep = (size_t)(d.size() * ((100.0 - percentage) / 100.0));
    pspCalls().push_back({"outliers", percentage, k, d.size(), keep});
    return b + keep;
}
// every point moves to the mean of itself and its neighbours
template <class Tag, class It, class Map> void jet_smooth_point_set(It b, It e, Map, unsigned k) {
    if (b == e) throw Precondition_exception("jet_smooth_point_set: no points");
    if (k < 2) throw Precondition_exception("jet_smooth_point_set: neighbours");
    auto old = std::vector<typename std::iterator_traits<It>::value_type>(b, e);
    for (size_t i = 0; i < old.size(); i++) {
        std::vector<std::pair<double, size_t> > d;
        auto& p = Map::ref(old[i]);
        for (size_t j = 0; j < old.size(); j++) { auto& q = Map::ref(old[j]); d.push_back({(p.x() - q.x()) * (p.x() - q.x()) + (p.y() - q.y()) * (p.y() - q.y()) + (p.z() - q.z()) * (p.z() - q.z()), j}); }
        std::sort(d.begin(), d.end()); if (d.size() > k + 1) d.resize(k + 1);
        double x = 0, y = 0, z = 0;
        for (auto& q : d) { auto& o = Map::ref(old[q.second]); x += o.x(); y += o.y(); z += o.z(); }
        Map::ref(*(b + i)) = typename std::decay<decltype(p)>::type(x / d.size(), y / d.size(), z / d.size());
    }
    pspCalls().push_back({"smooth", 0, k, old.size(), old.size()});
}
}
#endif
