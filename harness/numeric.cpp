// Scalar Kalman fusion: information-form oracle, order independence, bounds.
#include "mon.hpp"
#include <envire/tools/Numeric.hpp>

struct Ref { long double info = 0, wsum = 0; };

template <class T> static void fuse(mon::Ctx& c, double tol, double lr) {
    int n = c.rng.range(1, 12);
    std::vector<T> m(n), s(n);
    double base = c.rng.one({0.0, 1.0, -5.0, 100.0});
    double spread = c.rng.one({0.01, 1.0, 10.0});
    for (int i = 0; i < n; i++) {
        m[i] = (T)(base + spread * c.rng.gauss());
        s[i] = (T)(c.rng.chance(0.2) ? std::pow(10.0, c.rng.real(-lr, lr)) : c.rng.real(0.1, 2));
    }
    auto run = [&](const std::vector<int>& ord, T& mean, T& sd, bool check) {
        mean = m[ord[0]]; sd = s[ord[0]];
        for (int i = 1; i < n; i++) {
            T pm = mean, ps = sd, zm = m[ord[i]], zs = s[ord[i]];
            LOGOP("update (" << pm << "," << ps << ") with (" << zm << "," << zs << ")");
            kalman_update(mean, sd, zm, zs);
            LOGOP(" -> (" << mean << "," << sd << ")");
            if (check) {
                T lo = std::min(pm, zm), hi = std::max(pm, zm);
                double slack = tol * (1 + std::fabs(lo) + std::fabs(hi));
                REQUIRE(mean >= lo - slack && mean <= hi + slack, "kalman:mean-outside", "fused mean " << mean << " outside [" << lo << "," << hi << "]");
                REQUIRE(sd >= 0 && sd <= std::min(ps, zs) * (1 + tol) , "kalman:stdev-grew", "fused stdev " << sd << " from " << ps << " and " << zs);
                long double v1 = (long double)ps * ps, v2 = (long double)zs * zs;
                long double em = (pm * v2 + zm * v1) / (v1 + v2), es = std::sqrt(v1 * v2 / (v1 + v2));
                // 1-gain cancels when the measurement is far more exact than the state
                double stol = tol * (1 + (double)std::sqrt(v1 / v2));
                REQUIRE(mon::close(mean, em, slack), "kalman:mean", "fused mean " << mean << " expected " << (double)em);
                REQUIRE(mon::close(sd, es, tol * 0.01 + stol * (double)es * (1 + (double)(v1 / v2) * 1e-2)), "kalman:stdev", "fused stdev " << sd << " expected " << (double)es);
                mon::seen("updates");
            }
        }
    };
    std::vector<int> o(n); for (int i = 0; i < n; i++) o[i] = i;
    T a, b, x, y; run(o, a, b, true);
    for (int i = n - 1; i > 0; i--) std::swap(o[i], o[c.rng.u(i + 1)]);
    run(o, x, y, true);
    // same evidence in another order
    double worst = 0; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) worst = std::max(worst, (double)(s[i] / s[j]));
    REQUIRE(mon::close(a, x, 20 * tol * (1 + std::fabs(a)) * (1 + spread) * (1 + worst * tol * 1e3)), "kalman:order", "mean depends on the order: " << a << " vs " << x);
    REQUIRE(mon::close(b, y, 20 * tol * (1 + worst * worst * 1e-2), 20 * tol), "kalman:order", "stdev depends on the order: " << b << " vs " << y);
    if (n > 2) mon::distinct(mon::hashStr(std::to_string(a) + "/" + std::to_string(b)));
    mon::sample(mon::currentLog());
}
SECTION(fuse_double, 60000, 3000000) { fuse<double>(c, 1e-9, 1.5); }
SECTION(fuse_float, 30000, 1000000) { fuse<float>(c, 2e-5, 1.0); }

SECTION(certain, 4000, 100000) {
    // exact knowledge on one or both sides
    double m1 = c.rng.real(-10, 10), m2 = c.rng.real(-10, 10), s = c.rng.real(0.001, 3);
    double m = m1, d = 0; kalman_update(m, d, m2, s);
    REQUIRE(m == m1 && d == 0, "kalman:certain-state", "a certain state moved to " << m << "," << d);
    m = m1; d = s; kalman_update(m, d, m2, 0.0);
    REQUIRE(mon::close(m, m2, 1e-12, 1e-12) && d == 0, "kalman:certain-measurement", "an exact measurement gave " << m << "," << d);
    m = m1; d = 0; kalman_update(m, d, m2, 0.0);
    REQUIRE(mon::close(m, 0.5 * (m1 + m2), 1e-12, 1e-12) && d == 0, "kalman:both-certain", "two exact values gave " << m << "," << d);
    m = m1; d = s; kalman_update(m, d, m2, s);
    REQUIRE(mon::close(m, 0.5 * (m1 + m2), 1e-12, 1e-12) && mon::close(d, s / std::sqrt(2.0), 1e-12, 1e-12), "kalman:equal", "equal uncertainties gave " << m << "," << d);
    REQUIRE(mon::close(sq(m1), m1 * m1, 0), "sq", "square");
    mon::seen("certain");
}
