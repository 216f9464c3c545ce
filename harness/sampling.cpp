// Mixture sampling: the drawn samples follow the mixture (moment and count tests at 7 sigma).
#include "gmmref.hpp"
#include <cassert>
#include <envire/tools/ExpectationMaximization.hpp>
using namespace envire;

template <int D> static void moments(mon::Ctx& c) {
    typedef GaussianMixture<double, D> GMM; typedef typename GMM::Vector V; typedef typename GMM::Matrix M;
    GMM gm; int k = c.rng.range(1, 4);
    // well separated along a line, so that each sample tells its component
    V dir; for (int d = 0; d < D; d++) dir[d] = c.rng.gauss(); dir /= dir.norm();
    std::vector<int> slot; for (int j = 0; j < k; j++) slot.push_back(j);
    for (int j = k - 1; j > 0; j--) std::swap(slot[j], slot[c.rng.u(j + 1)]);
    for (int j = 0; j < k; j++) gm.params.push_back(typename GMM::Parameter(c.rng.chance(0.1) && j ? 0.0 : c.rng.real(0.1, 1), dir * (40.0 * slot[j] - 30), ref::randCov<M>(c.rng, 0.2, 3)));
    gm.normalize();
    long seed = c.rng.u(1u << 30) + 1;
    LOGOP("D=" << D << " k=" << k << " seed=" << seed);
    for (auto& p : gm.params) LOGOP(" w=" << p.weight << " mean=" << p.dist.mean.transpose() << " cov=" << Eigen::Map<const Eigen::RowVectorXd>(p.dist.cov.data(), D * D));
    GaussianMixtureSampling<GMM> smp(gm, seed);
    const int N = 4000;
    std::vector<int> cnt(k, 0); std::vector<typename Gaussian<double, D>::Stats> st(k);
    for (int i = 0; i < N; i++) {
        V x = smp.sample();
        REQUIRE(x.allFinite(), "sampling:finite", "sample " << i << " is not finite");
        int b = 0; double bd = 1e300; for (int j = 0; j < k; j++) { double d = (x - gm.params[j].dist.mean).norm(); if (d < bd) { bd = d; b = j; } }
        REQUIRE(bd < 15 * 1.8, "sampling:stray", "a sample is " << bd << " away from every component");
        cnt[b]++; st[b].insert(x - gm.params[b].dist.mean);
    }
    for (int j = 0; j < k; j++) {
        double p = gm.params[j].weight, sd = std::sqrt(N * p * (1 - p)) + 1e-9;
        REQUIRE(std::fabs(cnt[j] - N * p) <= 7 * sd + 1, "sampling:share", "component " << j << " of weight " << p << " got " << cnt[j] << " of " << N << " samples");
        if (cnt[j] < 200) continue;
        const double n = cnt[j]; const M& C = gm.params[j].dist.cov;
        V m = st[j].Sx / n; M S = st[j].Sxx / n;
        for (int d = 0; d < D; d++) REQUIRE(std::fabs(m[d]) <= 7 * std::sqrt(C(d, d) / n), "sampling:mean", "component " << j << " sample mean is off by " << m[d] << " (stdev of the mean " << std::sqrt(C(d, d) / n) << ")");
        for (int d = 0; d < D; d++) for (int e = 0; e < D; e++) { double sdv = std::sqrt((C(d, d) * C(e, e) + C(d, e) * C(d, e)) / n); REQUIRE(std::fabs(S(d, e) - C(d, e)) <= 7.5 * sdv, "sampling:cov", "component " << j << " sample cov(" << d << "," << e << ")=" << S(d, e) << " expected " << C(d, e) << " +- " << sdv); }
        mon::seen("component");
    }
    mon::seen("samples", N); if (k > 1) mon::distinct(mon::hashStr(mon::currentLog()));
    mon::sample(mon::currentLog());
}
SECTION(moments_1d, 200, 2000) { moments<1>(c); }
SECTION(moments_2d, 400, 4000) { moments<2>(c); }
SECTION(moments_3d, 200, 2000) { moments<3>(c); }

SECTION(seeds, 400, 10000) {
    typedef GaussianMixture<double, 2> GMM; GMM gm; GMM::Vector m; m << 1, 2;
    gm.params.push_back(GMM::Parameter(0.5, m, GMM::Matrix::Identity())); gm.params.push_back(GMM::Parameter(0.5, -m, 2 * GMM::Matrix::Identity()));
    long s1 = 1 + c.rng.u(1 << 28), s2 = 1 + c.rng.u(1 << 28); LOGOP("seeds " << s1 << " " << s2);
    GaussianMixtureSampling<GMM> a(gm, s1), b(gm, s1), d(gm, s2); bool differs = false;
    for (int i = 0; i < 40; i++) { GMM::Vector x = a.sample(), y = b.sample(), z = d.sample(); REQUIRE(x == y, "sampling:seed", "the same seed gives different samples"); differs |= x != z; }
    if (s1 != s2) REQUIRE(differs, "sampling:seed-ignored", "seeds " << s1 << " and " << s2 << " give the same samples");
    // the sampler follows its mixture
    m << 100, 100; gm.params.assign(1, GMM::Parameter(1.0, m, 0.01 * GMM::Matrix::Identity()));
    for (int i = 0; i < 20; i++) REQUIRE((a.sample() - m).norm() < 2, "sampling:stale-mixture", "a changed mixture is not sampled");
    mon::seen("seeds");
}
SECTION(not_normalized, 400, 10000) {
    typedef GaussianMixture<double, 2> GMM; GMM gm; double tot = c.rng.real(0.0, 0.6); int k = c.rng.range(0, 3); LOGOP("k=" << k << " total weight " << tot);
    for (int j = 0; j < k; j++) gm.params.push_back(GMM::Parameter(tot / k, GMM::Vector(1, j), GMM::Matrix::Identity()));
    if (!k) tot = 0;
    GaussianMixtureSampling<GMM> a(gm, 1 + c.rng.u(1 << 28)); int threw = 0, N = 400;
    for (int i = 0; i < N; i++) { try { a.sample(); } catch (const std::runtime_error&) { threw++; } }
    double e = N * (1 - tot), sd = std::sqrt(N * tot * (1 - tot)) + 1e-9;
    REQUIRE(std::fabs(threw - e) <= 7 * sd + 1, "sampling:unnormalized", "weights sum to " << tot << ": " << threw << " of " << N << " draws reported it");
    mon::seen("not_normalized");
}
