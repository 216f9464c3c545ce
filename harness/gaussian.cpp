// Gaussian / GaussianMixture density, statistics and weight normalisation.
#include "gmmref.hpp"
using namespace envire;
typedef ref::LD LD;

template <class S, int D> static void density(mon::Ctx& c, double tol) {
    typedef GaussianMixture<S, D> GMM; typedef typename GMM::Vector V; typedef typename GMM::Matrix M;
    GMM gmm; int k = c.rng.range(1, 4);
    double scale = c.rng.one({0.05, 1.0, 4.0});
    std::vector<ref::MV<D> > r;
    double ws = 0;
    for (int j = 0; j < k; j++) {
        V m; for (int i = 0; i < D; i++) m[i] = (S)(scale * 3 * c.rng.gauss());
        M cov = ref::randCov<M>(c.rng, 0.05 * scale * scale, 2 * scale * scale);
        double w = c.rng.chance(0.1) ? 0.0 : c.rng.real(0.05, 1);
        gmm.params.push_back(typename GMM::Parameter((S)w, m, cov)); ws += w;
        r.push_back(ref::from<Gaussian<S, D>, D>(gmm.params.back().dist));
    }
    bool norm = c.rng.chance(0.7);
    if (norm) gmm.normalize();
    LOGOP("D=" << D << " k=" << k << " scale=" << scale << " normalized=" << norm);
    for (int q = 0; q < 12; q++) {
        V x; int j = c.rng.u(k); for (int i = 0; i < D; i++) x[i] = (S)(gmm.params[j].dist.mean[i] + scale * c.rng.one({0.0, 0.3, 1.0, 2.0}) * c.rng.gauss());
        LD xx[D]; for (int i = 0; i < D; i++) xx[i] = x[i];
        LD mix = 0;
        for (int jj = 0; jj < k; jj++) {
            LD lp = ref::logpdf<D>(r[jj], xx), p = std::exp(lp);
            double got = gmm.params[jj].dist.eval(x);
            if (lp > (sizeof(S) == 4 ? -40 : -200))
                REQUIRE(mon::close(got, (double)p, 0, tol * (1 + std::fabs((double)lp))), "gauss:density", "dimension " << D << ": eval=" << got << " density=" << (double)p << " cov det scale " << scale);
            mix += (LD)gmm.params[jj].weight * p;
            mon::seen("density");
        }
        double got = gmm.eval(x);
        if (mix > (sizeof(S) == 4 ? 1e-20 : 1e-80))
            REQUIRE(mon::close(got, (double)mix, 0, tol * 100), "gmm:density", "mixture of " << k << " components: eval=" << got << " expected " << (double)mix);
        mon::seen("mixture");
    }
    if (k > 1) mon::distinct(mon::hashStr(std::to_string(gmm.params[0].dist.mean[0]) + "," + std::to_string(gmm.params[0].weight)));
    mon::sample(mon::currentLog());
}
SECTION(density_1d, 4000, 100000) { density<double, 1>(c, 1e-8); }
SECTION(density_2d, 4000, 100000) { density<double, 2>(c, 1e-8); }
SECTION(density_3d, 4000, 100000) { density<double, 3>(c, 1e-7); }
SECTION(density_4d, 1000, 30000) { density<double, 4>(c, 1e-7); }
SECTION(density_2d_float, 1500, 30000) { density<float, 2>(c, 2e-3); }

// the density integrates to one: numeric quadrature of the real eval()
SECTION(integral_1d, 100, 3000) {
    typedef Gaussian<double, 1> G; G::Vector m; G::Matrix cv; m[0] = c.rng.real(-3, 3); cv(0, 0) = std::pow(10.0, c.rng.real(-3, 3));
    G g(m, cv); double s = std::sqrt(cv(0, 0)), h = s / 50, sum = 0;
    for (double x = m[0] - 9 * s; x <= m[0] + 9 * s; x += h) { G::Vector v; v[0] = x; sum += g.eval(v) * h; }
    LOGOP("var " << cv(0, 0) << " integral " << sum);
    REQUIRE(mon::close(sum, 1, 1e-6), "gauss:integral", "variance " << cv(0, 0) << ": integral " << sum); mon::seen("integral");
}
SECTION(integral_2d, 60, 1500) {
    typedef GaussianMixture<double, 2> GM; GM gm; int k = c.rng.range(1, 3); double tot = 0;
    for (int j = 0; j < k; j++) { GM::Vector m; m << c.rng.real(-1, 1), c.rng.real(-1, 1); double w = c.rng.real(0.1, 1); tot += w; gm.params.push_back(GM::Parameter(w, m, ref::randCov<GM::Matrix>(c.rng, 0.1, 1.5))); }
    double h = 0.08, sum = 0;
    for (double x = -9; x <= 9; x += h) for (double y = -9; y <= 9; y += h) { GM::Vector v; v << x, y; sum += gm.eval(v) * h * h; }
    LOGOP("k " << k << " integral " << sum << " weights " << tot);
    REQUIRE(mon::close(sum, tot, 1e-5), "gmm:integral", k << " components of total weight " << tot << ": integral " << sum); mon::seen("integral");
}

template <class S, int D> static void stats(mon::Ctx& c, double tol) {
    typedef Gaussian<S, D> G; typename G::Stats st; int n = c.rng.range(1, 60);
    bool weighted = c.rng.chance(0.6); double off = c.rng.one({0.0, 1.0, 10.0}), sp = c.rng.one({0.1, 1.0, 5.0});
    std::vector<std::vector<LD> > xs; std::vector<LD> ws; LD W = 0;
    for (int i = 0; i < n; i++) {
        typename G::Vector v; std::vector<LD> x(D); for (int d = 0; d < D; d++) { v[d] = (S)(off + sp * c.rng.gauss()); x[d] = v[d]; }
        S w = weighted ? (S)(c.rng.chance(0.1) && i ? 0.0 : c.rng.real(0.01, 3)) : (S)1;
        if (weighted) st.insert(v, w); else st.insert(v);
        xs.push_back(x); ws.push_back(w); W += w;
        if (c.rng.chance(0.85) && i + 1 < n) continue; // intermediate updates must not disturb the rest
        G g = st.update();
        LD m[D] = {0};
        for (size_t a = 0; a < xs.size(); a++) for (int d = 0; d < D; d++) m[d] += ws[a] * xs[a][d] / W;
        double mag = off * off + sp * sp * 10;
        for (int d = 0; d < D; d++) REQUIRE(mon::close(g.mean[d], (double)m[d], tol * (1 + off + sp)), "stats:mean", "mean[" << d << "]=" << g.mean[d] << " expected " << (double)m[d] << " after " << xs.size() << " samples");
        for (int d = 0; d < D; d++) for (int e = 0; e < D; e++) {
            LD cv = 0; for (size_t a = 0; a < xs.size(); a++) cv += ws[a] * (xs[a][d] - m[d]) * (xs[a][e] - m[e]) / W;
            REQUIRE(mon::close(g.cov(d, e), (double)cv, tol * (1 + mag)), "stats:cov", "cov(" << d << "," << e << ")=" << g.cov(d, e) << " expected " << (double)cv << " after " << xs.size() << " samples, weighted=" << weighted);
        }
        mon::seen(weighted ? "stats.weighted" : "stats.plain");
    }
    if (n > 2) mon::distinct(mon::hashStr(std::to_string((double)W) + std::to_string((double)xs[0][0])));
}
SECTION(stats_2d, 4000, 100000) { stats<double, 2>(c, 1e-10); }
SECTION(stats_3d, 4000, 100000) { stats<double, 3>(c, 1e-10); }
SECTION(stats_1d_float, 1000, 20000) { stats<float, 1>(c, 1e-4); }

SECTION(normalize, 6000, 200000) {
    typedef GaussianMixture<double, 2> GM; GM gm; int k = c.rng.range(1, 8);
    double mag = std::pow(10.0, c.rng.real(-2, 6)); std::vector<double> w; double sum = 0; bool allzero = c.rng.chance(0.1);
    for (int j = 0; j < k; j++) { double v = allzero ? 0 : c.rng.chance(0.15) ? 0.0 : mag * c.rng.real(); w.push_back(v); sum += v; gm.params.push_back(GM::Parameter(v, GM::Vector(j, 1), GM::Matrix::Identity())); }
    gm.normalize(); double s = 0; for (int j = 0; j < k; j++) s += gm.params[j].weight;
    LOGOP("k=" << k << " sum=" << sum << " -> " << s);
    REQUIRE(mon::close(s, 1, 1e-12), "normalize:sum", "weights sum to " << s << " after normalize (were " << sum << ")");
    REQUIRE((int)gm.params.size() == k, "normalize:count", "component count changed");
    for (int j = 0; j < k; j++) {
        REQUIRE(gm.params[j].weight >= 0, "normalize:negative", "negative weight");
        if (sum > 1e-3) REQUIRE(mon::close(gm.params[j].weight * sum, w[j], 1e-12 * (1 + sum)), "normalize:ratio", "weight " << j << " is " << gm.params[j].weight << " expected " << w[j] / sum);
        REQUIRE(gm.params[j].dist.mean[0] == j, "normalize:mixup", "component order changed");
    }
    mon::seen(sum > 0 ? "normalize" : "normalize.zero");
}
