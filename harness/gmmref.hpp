// Independent long-double reference for gaussians and mixtures.
#ifndef GMMREF_HPP
#define GMMREF_HPP
#include "mon.hpp"
#include <vector>
#include <Eigen/Core>
#include <Eigen/LU>
#include <Eigen/Cholesky>
#include <envire/tools/GaussianMixture.hpp>
namespace ref {
typedef long double LD;
template <int D> struct MV { LD m[D]; LD c[D][D]; };

// Cholesky (lower) of c; false if not positive definite
template <int D> bool chol(const LD c[D][D], LD l[D][D]) {
    for (int i = 0; i < D; i++) for (int j = 0; j <= i; j++) {
        LD s = c[i][j];
        for (int k = 0; k < j; k++) s -= l[i][k] * l[j][k];
        if (i == j) { if (!(s > 0)) return false; l[i][i] = std::sqrt(s); }
        else l[i][j] = s / l[j][j];
    }
    return true;
}
// log density
template <int D> LD logpdf(const MV<D>& g, const LD* x) {
    LD l[D][D]; if (!chol<D>(g.c, l)) return NAN;
    LD y[D], q = 0, ld = 0;
    for (int i = 0; i < D; i++) { LD s = x[i] - g.m[i]; for (int k = 0; k < i; k++) s -= l[i][k] * y[k]; y[i] = s / l[i][i]; q += y[i] * y[i]; ld += std::log(l[i][i]); }
    return -0.5L * (D * std::log(2 * acosl(-1.0L)) + q) - ld;
}
template <class G, int D> MV<D> from(const G& g) {
    MV<D> r; for (int i = 0; i < D; i++) { r.m[i] = g.mean[i]; for (int j = 0; j < D; j++) r.c[i][j] = g.cov(i, j); } return r;
}
// random well-conditioned covariance: A A^T with eigenvalues in [lo,hi]
template <class M> M randCov(mon::Rng& r, double lo, double hi) {
    const int D = M::RowsAtCompileTime;
    double q[D][D];
    for (int i = 0; i < D; i++) { // random orthonormal basis by Gram-Schmidt
        for (;;) {
            for (int k = 0; k < D; k++) q[i][k] = r.gauss();
            for (int j = 0; j < i; j++) { double d = 0; for (int k = 0; k < D; k++) d += q[i][k] * q[j][k]; for (int k = 0; k < D; k++) q[i][k] -= d * q[j][k]; }
            double n = 0; for (int k = 0; k < D; k++) n += q[i][k] * q[i][k]; n = std::sqrt(n);
            if (n > 1e-3) { for (int k = 0; k < D; k++) q[i][k] /= n; break; }
        }
    }
    M c = M::Zero();
    for (int e = 0; e < D; e++) { double v = lo * std::pow(hi / lo, r.real()); for (int i = 0; i < D; i++) for (int j = 0; j < D; j++) c(i, j) += v * q[e][i] * q[e][j]; }
    for (int i = 0; i < D; i++) for (int j = 0; j < i; j++) c(i, j) = c(j, i);
    return c;
}
}
#endif
