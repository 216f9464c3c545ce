// Stand-in for the parts of CGAL the repository uses.
#ifndef VERIF_CGAL_KERNEL
#define VERIF_CGAL_KERNEL
#include <iostream>
#include <limits>
#include <stdexcept>
namespace CGAL {
struct Precondition_exception : public std::logic_error { Precondition_exception(const char* m) : std::logic_error(m) {} };
struct Exact_predicates_inexact_constructions_kernel {
    typedef double FT;
    struct Point_3 {
        // CGAL leaves default constructed coordinates undefined
        double c[3] = {std::numeric_limits<double>::quiet_NaN(), std::numeric_limits<double>::quiet_NaN(), std::numeric_limits<double>::quiet_NaN()};
        Point_3() {}
        Point_3(double x, double y, double z) { c[0] = x; c[1] = y; c[2] = z; }
        double x() const { return c[0]; } double y() const { return c[1]; } double z() const { return c[2]; }
    };
    typedef Point_3 Vector_3;
};
}
#endif
