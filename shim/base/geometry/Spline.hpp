#ifndef SHIM_BASE_SPLINE
#define SHIM_BASE_SPLINE
#include <base/Eigen.hpp>
#include <base/Float.hpp>
#include <vector>
namespace base { namespace geometry {
// piecewise linear curve with the part of the Spline interface that is used
template<int D> struct Spline {
    typedef Eigen::Matrix<double,D,1,Eigen::DontAlign> vector_t;
    std::vector<vector_t> pts;
    void interpolate(const std::vector<vector_t>& p) { pts = p; }
    bool isEmpty() const { return pts.empty(); }
    std::vector<vector_t> sample(double res) const {
        std::vector<vector_t> r;
        for (size_t i = 0; i + 1 < pts.size(); i++) {
            vector_t d = pts[i + 1] - pts[i]; int n = std::max(1, int(std::ceil(d.norm() / res)));
            for (int k = 0; k < n; k++) r.push_back(pts[i] + d * (double(k) / n));
        }
        if (!pts.empty()) r.push_back(pts.back());
        return r;
    }
};
typedef Spline<3> Spline3;
} }
#endif
