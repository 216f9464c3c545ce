// K-means and expectation maximization against an independent reference.
#include "gmmref.hpp"
#include <cassert>
#include <envire/tools/ExpectationMaximization.hpp>
using namespace envire;
typedef ref::LD LD;

template <int D> struct H {
    typedef GaussianMixture<double, D> GMM; typedef typename GMM::Vector V; typedef typename GMM::Matrix M;
    typedef ExpectationMaximization<GMM> EM;
    typedef std::vector<V> VS;

    static VS cloud(mon::Rng& r, int n, int blobs, double sep, double sp) {
        VS ctr; for (int b = 0; b < blobs; b++) { V v; for (int d = 0; d < D; d++) v[d] = sep * r.gauss(); ctr.push_back(v); }
        VS s; for (int i = 0; i < n; i++) { V v = ctr[r.u(blobs)]; for (int d = 0; d < D; d++) v[d] += sp * r.gauss(); s.push_back(v); }
        return s;
    }

    // are `cl` the (weighted) statistics of the samples nearest to them?
    template <class CL> static void fixpoint(const CL& cl, const VS& s, const std::vector<double>& w, size_t k, bool hasZeroW) {
        REQUIRE(cl.size() >= 1 && cl.size() <= k, "kmeans:count", cl.size() << " clusters for " << k << " requested");
        std::vector<std::vector<size_t> > mem(cl.size()); bool ambiguous = false;
        double mag = 0;
        for (size_t j = 0; j < cl.size(); j++) for (int d = 0; d < D; d++) REQUIRE(std::isfinite(cl[j].mean[d]), "kmeans:nan", "cluster " << j << " of " << cl.size() << " has no finite mean");
        for (size_t i = 0; i < s.size(); i++) {
            double best = 1e300, second = 1e300; size_t bi = 0;
            for (size_t j = 0; j < cl.size(); j++) { double d2 = (s[i] - cl[j].mean).squaredNorm(); if (d2 < best) { second = best; best = d2; bi = j; } else if (d2 < second) second = d2; }
            if (second - best < 1e-9 * (1 + best)) ambiguous = true;
            mem[bi].push_back(i); mag = std::max(mag, s[i].squaredNorm());
        }
        if (ambiguous) { mon::seen("kmeans.ambiguous"); return; }
        for (size_t j = 0; j < cl.size(); j++) {
            LD W = 0; LD m[D] = {0};
            for (size_t i : mem[j]) { LD ww = w.empty() ? 1 : w[i]; W += ww; for (int d = 0; d < D; d++) m[d] += ww * s[i][d]; }
            REQUIRE(W > 0, "kmeans:empty-cluster", "cluster " << j << " has no weight but is returned");
            for (int d = 0; d < D; d++) REQUIRE(mon::close(cl[j].mean[d], (double)(m[d] / W), 1e-9 * (1 + std::sqrt(mag))), "kmeans:mean", "cluster " << j << " mean[" << d << "]=" << cl[j].mean[d] << " but its nearest samples have mean " << (double)(m[d] / W));
            for (int d = 0; d < D; d++) for (int e = 0; e < D; e++) {
                LD cv = 0; for (size_t i : mem[j]) cv += (w.empty() ? 1 : (LD)w[i]) * (s[i][d] - m[d] / W) * (s[i][e] - m[e] / W) / W;
                REQUIRE(mon::close(cl[j].cov(d, e), (double)cv, 1e-9 * (1 + mag)), "kmeans:cov", "cluster " << j << " cov(" << d << "," << e << ")=" << cl[j].cov(d, e) << " expected " << (double)cv);
            }
        }
        mon::seen("kmeans.fixpoint"); if (cl.size() > 1) mon::seen("kmeans.several"); if (cl.size() < k) mon::seen("kmeans.dropped");
    }

    static void kmeans(mon::Ctx& c) {
        KMeans<GMM> km; int rounds = c.rng.chance(0.3) ? 2 : 1;
        for (int rd = 0; rd < rounds; rd++) {
            int k = c.rng.range(1, 5), n = std::max(k, c.rng.range(1, 60));
            VS s = cloud(c.rng, n, c.rng.range(1, 5), c.rng.one({0.5, 3.0, 20.0}), c.rng.one({0.1, 1.0}));
            if (c.rng.chance(0.25)) for (auto& v : s) for (int d = 0; d < D; d++) v[d] = std::floor(v[d]);   // duplicates
            std::vector<double> w; bool zero = false;
            if (c.rng.chance(0.4)) { for (int i = 0; i < n; i++) { double x = c.rng.chance(0.05) && i ? 0.0 : c.rng.real(0.01, 2); zero |= x == 0; w.push_back(x); } }
            LOGOP("kmeans D=" << D << " k=" << k << " n=" << n << " weighted=" << !w.empty() << " round " << rd);
            for (int i = 0; i < n; i++) LOGOP("  s " << s[i].transpose() << (w.empty() ? 1.0 : w[i]));
            km.initialize(k, s, w); km.run();
            auto cl = km.getClusters();
            fixpoint(cl, s, w, k, zero);
            mon::distinct(mon::hashStr(std::to_string(s[0][0]) + "," + std::to_string(n)));
            mon::sample(mon::currentLog());
        }
    }

    struct Comp { LD w; ref::MV<D> g; };
    // reference mean log-likelihood; lo = smallest sample density seen (log)
    static LD loglik(const std::vector<Comp>& cs, const VS& s, const std::vector<double>& w, LD& lo, std::vector<std::vector<LD> >* gam = 0) {
        LD ll = 0, W = 0; lo = 1e30;
        for (size_t i = 0; i < s.size(); i++) {
            LD x[D]; for (int d = 0; d < D; d++) x[d] = s[i][d];
            std::vector<LD> lp; LD mx = -1e4900L;
            for (auto& cm : cs) { LD v = std::log(cm.w) + ref::logpdf<D>(cm.g, x); lp.push_back(v); if (v > mx) mx = v; }
            LD sum = 0; for (auto v : lp) sum += std::exp(v - mx);
            LD wi = w.empty() ? 1 : w[i];
            if (gam) { std::vector<LD> row; for (auto v : lp) row.push_back(wi * std::exp(v - mx) / sum); gam->push_back(row); }
            LD l = mx + std::log(sum); ll += wi * l; W += wi; if (l < lo) lo = l;
        }
        return ll / W;
    }
    static std::vector<Comp> snap(const GMM& g) { std::vector<Comp> r; for (auto& p : g.params) r.push_back(Comp{(LD)p.weight, ref::from<Gaussian<double, D>, D>(p.dist)}); return r; }
    static bool wellConditioned(const std::vector<Comp>& cs) {
        for (auto& cm : cs) { LD l[D][D]; if (!(cm.w > 0) || !ref::chol<D>(cm.g.c, l)) return false; LD mn = 1e30, mx = 0; for (int d = 0; d < D; d++) { mn = std::min(mn, l[d][d]); mx = std::max(mx, l[d][d]); } if (mn < 1e-4 || mx / mn > 1e3) return false; }
        return true;
    }

    static void em(mon::Ctx& c, bool viaInit) {
        int k = c.rng.range(1, 4), n = c.rng.range(std::max(10, 8 * k), 90);
        double sep = c.rng.one({1.0, 3.0, 6.0});
        VS s = cloud(c.rng, n, c.rng.range(1, 4), sep, c.rng.one({0.3, 1.0}));
        std::vector<double> w;
        if (c.rng.chance(0.4)) for (int i = 0; i < n; i++) w.push_back(c.rng.chance(0.3) ? (double)c.rng.range(1, 3) : c.rng.real(0.05, 2));
        EM e;
        LOGOP("em D=" << D << " k=" << k << " n=" << n << " weighted=" << !w.empty() << " init=" << viaInit);
        if (viaInit) {
            e.initialize(k, s, w);
            std::vector<Gaussian<double, D> > cl; for (auto& p : e.gmm.params) cl.push_back(p.dist);
            fixpoint(cl, s, w, k, false);
            for (auto& p : e.gmm.params) REQUIRE(mon::close(p.weight, 1.0 / e.gmm.params.size(), 1e-12), "em:init-weight", "initial weight " << p.weight << " of " << e.gmm.params.size() << " components");
            REQUIRE(e.samples.size() == s.size() && e.weights.size() == w.size(), "em:init-samples", "samples not taken over");
            for (size_t i = 0; i < s.size(); i++) REQUIRE(e.samples[i] == s[i] && (w.empty() || e.weights[i] == w[i]), "em:init-samples", "sample " << i << " not taken over");
            mon::seen("em.initialize");
        } else {
            e.samples = s; e.weights = w;
            for (int j = 0; j < k; j++) { V m = s[c.rng.u(n)]; for (int d = 0; d < D; d++) m[d] += 0.3 * c.rng.gauss(); e.gmm.params.push_back(typename GMM::Parameter(c.rng.real(0.1, 1), m, ref::randCov<M>(c.rng, 0.3, 4))); }
            if (c.rng.chance(0.25)) { V m = V::Constant(c.rng.one({-1.0, 1.0}) * (sep * 4 + c.rng.real(8, 16))); typename GMM::Parameter far(c.rng.real(0.1, 1), m, ref::randCov<M>(c.rng, 0.3, 1)); e.gmm.params.insert(e.gmm.params.begin() + c.rng.u(e.gmm.params.size() + 1), far); }
            e.gmm.normalize();
        }
        int steps = c.rng.range(1, 12);
        LD prevLL = -1e30; bool havePrev = false;
        double mag = 0; for (auto& v : s) mag = std::max(mag, v.squaredNorm());
        for (int t = 0; t < steps; t++) {
            std::vector<Comp> before = snap(e.gmm);
            if (before.empty() || !wellConditioned(before)) { mon::seen("em.degenerate_stop"); break; }
            LD lo; std::vector<std::vector<LD> > gam; LD ll = loglik(before, s, w, lo, &gam);
            if (lo < -300) { mon::seen("em.far_sample_stop"); break; }
            if (havePrev) { REQUIRE(ll >= prevLL - 1e-8 * (1 + std::fabs((double)prevLL)), "em:likelihood-decreased", "likelihood fell from " << (double)prevLL << " to " << (double)ll << " in step " << t); mon::seen("em.monotone"); }
            double got = e.step();
            LOGOP("step " << t << " -> " << got);
            REQUIRE(mon::close(got, (double)ll, 1e-7 * (1 + std::fabs((double)ll))), "em:likelihood", "step returned " << got << ", the mean log-likelihood is " << (double)ll << " (weighted=" << !w.empty() << ")");
            LD W = 0; for (int i = 0; i < n; i++) W += w.empty() ? 1 : w[i];
            std::vector<Comp> exp; bool removed = false, near = false;
            for (size_t j = 0; j < before.size(); j++) {
                LD nj = 0; for (auto& row : gam) nj += row[j];
                if (std::fabs((double)(nj - 1e-4L)) < 1e-8) near = true;
                if (nj < 1e-4L) { removed = true; continue; }
                Comp cm; cm.w = nj / W;
                for (int d = 0; d < D; d++) { LD m = 0; for (int i = 0; i < n; i++) m += gam[i][j] * s[i][d]; cm.g.m[d] = m / nj; }
                for (int d = 0; d < D; d++) for (int f = 0; f < D; f++) { LD cv = 0; for (int i = 0; i < n; i++) cv += gam[i][j] * (s[i][d] - cm.g.m[d]) * (s[i][f] - cm.g.m[f]); cm.g.c[d][f] = cv / nj; }
                exp.push_back(cm);
            }
            if (near) { mon::seen("em.near_threshold"); break; }
            REQUIRE(e.gmm.params.size() == exp.size(), "em:components", e.gmm.params.size() << " components after the step, expected " << exp.size());
            double ws = 0;
            for (size_t j = 0; j < exp.size(); j++) {
                auto& p = e.gmm.params[j]; ws += p.weight;
                double rel = (double)std::min((LD)1.0, exp[j].w); double tol = 1e-6 / std::max(1e-3, rel) * (1 + mag);
                REQUIRE(mon::close(p.weight, (double)exp[j].w, removed ? 1e-3 : 1e-8), "em:weight", "component " << j << " weight " << p.weight << " expected " << (double)exp[j].w);
                for (int d = 0; d < D; d++) REQUIRE(mon::close(p.dist.mean[d], (double)exp[j].g.m[d], tol), "em:mean", "component " << j << " mean[" << d << "] " << p.dist.mean[d] << " expected " << (double)exp[j].g.m[d]);
                for (int d = 0; d < D; d++) for (int f = 0; f < D; f++) REQUIRE(mon::close(p.dist.cov(d, f), (double)exp[j].g.c[d][f], tol), "em:cov", "component " << j << " cov(" << d << "," << f << ") " << p.dist.cov(d, f) << " expected " << (double)exp[j].g.c[d][f]);
            }
            REQUIRE(mon::close(ws, 1, 1e-3), "em:weight-sum", "weights sum to " << ws);
            if (!removed) REQUIRE(mon::close(ws, 1, 1e-9), "em:weight-sum", "weights sum to " << ws);
            mon::seen("em.step"); if (!w.empty()) mon::seen("em.step.weighted"); if (removed) mon::seen("em.removed");
            prevLL = ll; havePrev = !removed;
        }
        mon::distinct(mon::hashStr(std::to_string(s[0][0]) + "," + std::to_string(n) + "," + std::to_string(k)));
        mon::sample(mon::currentLog());
    }

    // integer weights are the same as repeated samples
    static void replicate(mon::Ctx& c) {
        int k = c.rng.range(1, 3), n = c.rng.range(10, 40);
        VS s = cloud(c.rng, n, 3, 3.0, 1.0); std::vector<double> w; VS rep;
        for (int i = 0; i < n; i++) { int m = c.rng.range(1, 4); w.push_back(m); for (int q = 0; q < m; q++) rep.push_back(s[i]); }
        EM a, b; a.samples = s; a.weights = w; b.samples = rep;
        for (int j = 0; j < k; j++) { V m = s[c.rng.u(n)]; a.gmm.params.push_back(typename GMM::Parameter(1, m, ref::randCov<M>(c.rng, 0.5, 4))); }
        a.gmm.normalize(); b.gmm = a.gmm;
        LOGOP("replicate D=" << D << " k=" << k << " n=" << n);
        for (int t = 0; t < 4; t++) {
            if (!wellConditioned(snap(a.gmm)) || !wellConditioned(snap(b.gmm))) return;
            double la = a.step(), lb = b.step();
            REQUIRE(mon::close(la, lb, 1e-7 * (1 + std::fabs(la))), "em:weights-vs-copies", "likelihood with weights " << la << ", with copies " << lb);
            REQUIRE(a.gmm.params.size() == b.gmm.params.size(), "em:weights-vs-copies", "component counts differ");
            for (size_t j = 0; j < a.gmm.params.size(); j++) {
                REQUIRE((a.gmm.params[j].dist.mean - b.gmm.params[j].dist.mean).norm() < 1e-4, "em:weights-vs-copies", "means differ");
                REQUIRE((a.gmm.params[j].dist.cov - b.gmm.params[j].dist.cov).norm() < 1e-3, "em:weights-vs-copies", "covariances differ");
                REQUIRE(std::fabs(a.gmm.params[j].weight - b.gmm.params[j].weight) < 1e-5, "em:weights-vs-copies", "weights differ");
            }
            mon::seen("em.replicate");
        }
    }

    // run() is bounded and stops exactly when the change of the likelihood is small
    static void runLoop(mon::Ctx& c) {
        int k = c.rng.range(1, 3), n = c.rng.range(20, 60); VS s = cloud(c.rng, n, 3, 3.0, 1.0);
        EM a; a.samples = s;
        for (int j = 0; j < k; j++) a.gmm.params.push_back(typename GMM::Parameter(1, s[c.rng.u(n)], ref::randCov<M>(c.rng, 0.5, 4)));
        a.gmm.normalize(); EM b = a;
        double delta = std::pow(10.0, c.rng.real(-6, 0.5)); size_t maxIter = c.rng.range(0, 40);
        LOGOP("run D=" << D << " k=" << k << " n=" << n << " delta=" << delta << " max=" << maxIter);
        a.run(delta, maxIter);
        double last = 0; bool same = false; size_t it = 0;
        auto eq = [&] { if (a.gmm.params.size() != b.gmm.params.size()) return false; for (size_t j = 0; j < a.gmm.params.size(); j++) if (a.gmm.params[j].dist.mean != b.gmm.params[j].dist.mean || a.gmm.params[j].weight != b.gmm.params[j].weight || a.gmm.params[j].dist.cov != b.gmm.params[j].dist.cov) return false; return true; };
        for (; it < maxIter; it++) { double l = b.step(); double d = std::fabs(l - last); last = l; if (!(d > delta)) { it++; break; } }
        same = eq();
        REQUIRE(same, "em:run-steps", "run(" << delta << "," << maxIter << ") is not the " << it << " steps until the likelihood changes by no more than delta");
        mon::seen(it < maxIter ? "em.run.converged" : "em.run.exhausted");
    }

    // one object used again behaves as a fresh one
    static void reuse(mon::Ctx& c) {
        EM a; int rounds = c.rng.range(2, 4), n = c.rng.range(8, 30);
        for (int r = 0; r < rounds; r++) {
            if (c.rng.chance(0.4)) n = c.rng.range(8, 30);
            int k = c.rng.range(1, 3); bool wt = c.rng.chance(0.5); VS s = cloud(c.rng, n, 3, 3.0, 1.0); std::vector<double> w;
            if (wt) for (int i = 0; i < n; i++) w.push_back(c.rng.real(0.1, 5));
            LOGOP("reuse round " << r << " D=" << D << " k=" << k << " n=" << n << " weighted=" << wt);
            EM b; a.initialize(k, s, w); b.initialize(k, s, w);
            int steps = c.rng.range(0, 3); bool viaRun = c.rng.chance(0.3);
            for (int t = 0; t <= steps; t++) {
                REQUIRE(a.gmm.params.size() == b.gmm.params.size(), "em:reuse", "a reused object has " << a.gmm.params.size() << " components, a fresh one " << b.gmm.params.size());
                for (size_t j = 0; j < a.gmm.params.size(); j++)
                    REQUIRE((a.gmm.params[j].dist.mean - b.gmm.params[j].dist.mean).norm() < 1e-9 && (a.gmm.params[j].dist.cov - b.gmm.params[j].dist.cov).norm() < 1e-9 && std::fabs(a.gmm.params[j].weight - b.gmm.params[j].weight) < 1e-9, "em:reuse", "a reused object differs from a fresh one in component " << j << " after " << t << " steps");
                if (t == steps) break;
                if (viaRun) { a.run(1e-3, 3); b.run(1e-3, 3); }
                else { double la = a.step(), lb = b.step(); REQUIRE(la == lb || std::fabs(la - lb) < 1e-9 * (1 + std::fabs(lb)), "em:reuse", "likelihood " << la << " of a reused object, " << lb << " of a fresh one"); }
            }
            mon::seen("em.reuse");
        }
    }

    // isolated samples, duplicates: the other components survive
    static void outliers(mon::Ctx& c) {
        int k = c.rng.range(2, 4), n = c.rng.range(30, 80); VS s = cloud(c.rng, n, k - 1, 4.0, 0.5);
        for (int q = c.rng.range(1, 2); q > 0; q--) s[c.rng.u(n)] = V::Constant(c.rng.one({-1.0, 1.0}) * c.rng.real(40, 400));
        if (c.rng.chance(0.3)) s[0] = V::Constant(300.0);
        EM e; LOGOP("outliers D=" << D << " k=" << k << " n=" << n);
        for (int i = 0; i < n; i++) LOGOP("  s " << s[i].transpose());
        e.initialize(k, s);
        size_t iso = 0; for (auto& p : e.gmm.params) if (p.dist.cov.norm() < 1e-12) iso++;
        size_t init = e.gmm.params.size();
        for (int t = 0; t < 4; t++) {
            e.step();
            REQUIRE(e.gmm.params.size() > 0 || iso == init, "em:mixture-lost", "all " << init << " components are gone after step " << t << ", " << iso << " of them were isolated samples");
            double ws = 0;
            for (auto& p : e.gmm.params) { ws += p.weight; REQUIRE(std::isfinite(p.weight) && p.dist.mean.allFinite() && p.dist.cov.allFinite(), "em:not-finite", "a component is not finite after step " << t); }
            if (!e.gmm.params.empty()) REQUIRE(mon::close(ws, 1, 1e-3), "em:weight-sum", "weights sum to " << ws << " after step " << t);
        }
        mon::seen("em.outliers"); if (iso) mon::seen("em.outliers.isolated");
    }
};
SECTION(kmeans_1d, 8000, 60000) { H<1>::kmeans(c); }
SECTION(kmeans_2d, 12000, 80000) { H<2>::kmeans(c); }
SECTION(kmeans_3d, 4000, 40000) { H<3>::kmeans(c); }
SECTION(em_2d, 2400, 20000) { H<2>::em(c, false); }
SECTION(em_3d, 1200, 10000) { H<3>::em(c, false); }
SECTION(em_1d, 1200, 10000) { H<1>::em(c, false); }
SECTION(em_init_2d, 2400, 20000) { H<2>::em(c, true); }
SECTION(em_init_1d, 1200, 10000) { H<1>::em(c, true); }
SECTION(replicate_2d, 1200, 8000) { H<2>::replicate(c); }
SECTION(run_2d, 1600, 8000) { H<2>::runLoop(c); }
SECTION(outliers_2d, 1600, 8000) { H<2>::outliers(c); }
SECTION(reuse_1d, 1600, 10000) { H<1>::reuse(c); }
SECTION(reuse_2d, 1600, 10000) { H<2>::reuse(c); }
