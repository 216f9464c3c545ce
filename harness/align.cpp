// Iterative alignment of point clouds: adapters, nearest pairs, trimmed alignment.
#include "mon.hpp"
#include <envire/Core.hpp>
#include <envire/maps/Pointcloud.hpp>
#include "icp/icp.hpp"
using namespace envire;
using namespace envire::icp;
using namespace Eigen;
typedef std::vector<Vector3d> Pts;

namespace {
Affine3d rigid(mon::Rng& r, double ang, double t) { Vector3d a(r.gauss(), r.gauss(), r.gauss()); if (a.norm() < 1e-3) a = Vector3d::UnitX(); return Affine3d(Translation3d(r.real(-t, t), r.real(-t, t), r.real(-t, t)) * AngleAxisd(ang, a.normalized())); }
struct Cloud { Pointcloud* pc; FrameNode* fn; FrameNode* parent; Affine3d g; };
// a cloud below a chain of frames; g is the transform into the root frame
Cloud place(mon::Rng& r, Environment& env, const Affine3d& want, bool chain)
{
    Cloud k; FrameNode* p = env.getRootNode(); Affine3d g = Affine3d::Identity();
    int n = chain ? r.range(0, 3) : 0; while (n-- > 0) { Affine3d t = rigid(r, r.real(-2, 2), 3); FrameNode* f = new FrameNode(envire::Transform(t)); env.addChild(p, f); p = f; g = g * t; }
    k.fn = new FrameNode(envire::Transform(Affine3d(g.inverse() * want))); env.addChild(p, k.fn); k.parent = p; k.pc = new Pointcloud; env.setFrameNode(k.pc, k.fn); k.g = want; return k;
}
// points no two of which are nearer than gap
Pts spaced(mon::Rng& r, int n, double gap) { Pts v; int side = 1; while (side * side * side < n) side++; std::vector<int> c(side * side * side); for (size_t i = 0; i < c.size(); i++) c[i] = i; for (size_t i = c.size(); i-- > 1;) std::swap(c[i], c[r.u(i + 1)]);
    for (int i = 0; i < n; i++) { int q = c[i]; v.push_back(gap * 1.6 * (Vector3d(q % side, q / side % side, q / side / side) + Vector3d(r.real(-0.18, 0.18), r.real(-0.18, 0.18), r.real(-0.18, 0.18)))); } return v; }
Affine3d toRoot(Cloud& k, Environment& env) { return env.relativeTransform(k.fn, env.getRootNode()); }
}

SECTION(adapter, 8000, 80000)
{
    auto& r = c.rng; Environment env; Cloud k = place(r, env, rigid(r, r.real(-3, 3), 5), true); int n = r.range(0, 50); for (int i = 0; i < n; i++) k.pc->vertices.push_back(Vector3d(r.real(-9, 9), r.real(-9, 9), r.real(-9, 9)));
    bool ean = r.chance(0.5); std::vector<Vector3d> nor; std::vector<int> edge; if (ean) { auto& ns = k.pc->getVertexData<Vector3d>(Pointcloud::VERTEX_NORMAL); auto& as = k.pc->getVertexData<Pointcloud::vertex_attr>(Pointcloud::VERTEX_ATTRIBUTES); ns.resize(n); as.resize(n); for (int i = 0; i < n; i++) { ns[i] = rigid(r, r.real(-3, 3), 0).linear().col(2); edge.push_back(r.chance(0.3)); as[i] = edge[i] ? Pointcloud::vertex_attr(1 << Pointcloud::SCAN_EDGE) : Pointcloud::vertex_attr(0); nor.push_back(ns[i]); } }
    int step = r.chance(0.3) ? 1 : r.one({2, 4, 5}); double density = r.chance(0.2) ? 0.3 : 1.0 / step; bool exact = density != 0.3; LOGOP(n << " vertices, density " << density << " normals " << ean);
    PointcloudAdapter plain(k.pc, density); std::unique_ptr<PointcloudEdgeAndNormalAdapter> full(ean ? new PointcloudEdgeAndNormalAdapter(k.pc, density) : 0); Affine3d off = Affine3d::Identity();
    for (int round = 0; round < 3; round++) {
        if (round && r.chance(0.7)) { off = rigid(r, r.real(-3, 3), 3); plain.setOffsetTransform(off); if (full) full->setOffsetTransform(off); mon::seen("adapter.offset"); }
        plain.reset(); if (full) full->reset(); Affine3d g = off * k.g; int i = 0, last = -1;
        REQUIRE(std::fabs(plain.size() - n * density) <= 1, "adapter:size", "size " << plain.size() << " of " << n << " vertices at density " << density);
        bool cut = r.chance(0.2); int stop = r.u(n + 1);
        while (plain.hasNext() && !(cut && i == stop)) { Vector3d p = plain.next().point; int at = exact ? i * step : -1; if (!exact) for (int j = last + 1; j < n && at < 0; j++) if ((g * k.pc->vertices[j] - p).norm() < 1e-9) at = j;
            REQUIRE(at >= 0 && at < n, "adapter:vertex", "entry " << i << " is no further vertex"); REQUIRE((g * k.pc->vertices[at] - p).norm() < 1e-9, "adapter:position", "vertex " << at << " is at " << p.transpose() << " instead of " << (g * k.pc->vertices[at]).transpose()); if (!exact) REQUIRE(at - last >= (last < 0 ? 1 : 3) && at - last <= 4, "adapter:gap", "vertex " << at << " follows " << last);
            if (full) { REQUIRE(full->hasNext(), "adapter:full", "the adapter with normals ends earlier"); VertexEdgeAndNormalNode f = full->next(); REQUIRE((f.point - p).norm() < 1e-9, "adapter:full", "other position with normals"); REQUIRE(f.edge == bool(edge[at]), "adapter:edge", "edge mark of vertex " << at); REQUIRE((f.normal - g.linear() * nor[at]).norm() < 1e-9, "adapter:normal", "normal of vertex " << at << " is not turned with the cloud"); mon::seen("adapter.normal"); }
            last = at; i++; }
        if (!cut || i < stop) REQUIRE(exact ? i == (n + step - 1) / step : std::abs(i - n * 0.3) <= 1.01, "adapter:count", i << " of " << n << " vertices at density " << density); mon::seen("adapter.round");
    }
    // moving the cloud in the root frame, whatever frames are between
    Affine3d t = rigid(r, r.real(-3, 3), 3); (full && r.chance(0.5) ? (PointcloudAdapter&)*full : plain).applyTransform(t); Affine3d got = toRoot(k, env); REQUIRE((got.matrix() - (t * k.g).matrix()).norm() < 1e-8, "adapter:apply", "the cloud was not moved by the transform in the root frame"); REQUIRE((got.linear() * got.linear().transpose() - Matrix3d::Identity()).norm() < 1e-12, "adapter:rotation", "the frame is not a pure rotation"); mon::seen("adapter.apply"); mon::distinct(mon::hashStr(mon::currentLog()));
}

SECTION(nearest, 8000, 80000)
{
    auto& r = c.rng; Environment env; FindPairsKD plain; FindPairsKDEAN full; struct N { Vector3d p, n; bool e; }; std::vector<N> model;
    auto cloud = [&](int n, double size) { Cloud k = place(r, env, rigid(r, r.real(-3, 3), 1), true); auto& ns = k.pc->getVertexData<Vector3d>(Pointcloud::VERTEX_NORMAL); auto& as = k.pc->getVertexData<Pointcloud::vertex_attr>(Pointcloud::VERTEX_ATTRIBUTES); for (int i = 0; i < n; i++) { k.pc->vertices.push_back(k.g.inverse() * Vector3d(r.real(-size, size), r.real(-size, size), r.real(-size, size))); ns.push_back(k.g.linear().transpose() * AngleAxisd(r.real(0, 0.6), Vector3d(std::cos(r.real(0, 6.28)), std::sin(r.real(0, 6.28)), 0).normalized()) * Vector3d::UnitZ()); as.push_back(r.chance(0.15) ? Pointcloud::vertex_attr(1 << Pointcloud::SCAN_EDGE) : Pointcloud::vertex_attr(0)); } return k; };
    auto nodes = [&](Cloud& k) { std::vector<N> v; auto& ns = k.pc->getVertexData<Vector3d>(Pointcloud::VERTEX_NORMAL); auto& as = k.pc->getVertexData<Pointcloud::vertex_attr>(Pointcloud::VERTEX_ATTRIBUTES); for (size_t i = 0; i < k.pc->vertices.size(); i++) v.push_back(N{k.g * k.pc->vertices[i], k.g.linear() * ns[i], bool(as[i] & (1 << Pointcloud::SCAN_EDGE))}); return v; };
    for (int round = r.range(1, 3); round-- > 0;) {
        if (r.chance(0.2)) { plain.clear(); full.clear(); model.clear(); mon::seen("nearest.cleared"); }
        for (int k = r.u(3); k-- > 0;) { Cloud m = cloud(r.range(0, 40), 5); PointcloudAdapter a(m.pc, 1); plain.addModel(a); PointcloudEdgeAndNormalAdapter b(m.pc, 1); full.addModel(b); for (auto& q : nodes(m)) model.push_back(q); }
        Cloud m = cloud(r.range(0, 30), r.one({5, 12})); auto meas = nodes(m); double box = r.chance(0.2) ? std::numeric_limits<double>::infinity() : r.real(0, 4); LOGOP(model.size() << " model points, " << meas.size() << " measured, box " << box);
        Pairs a, b; PointcloudAdapter pa(m.pc, 1); plain.findPairs(pa, a, box); PointcloudEdgeAndNormalAdapter pb(m.pc, 1); full.findPairs(pb, b, box); REQUIRE(a.x.size() == a.size() && a.p.size() == a.size(), "nearest:lists", "lists of pairs differ in length");
        size_t ia = 0, ib = 0;
        for (auto& q : meas) { double best = 1e300; const N* bn = 0; for (auto& w : model) { double d = (w.p - q.p).norm(); if (d < best) { best = d; bn = &w; } }
            bool in = bn && best < box * (1 - 1e-9), maybe = bn && best < box * (1 + 1e-9) + 1e-12; auto has = [&](Pairs& s, size_t i) { return i < s.size() && (s.p[i] - q.p).norm() < 1e-9; }; auto same = [&](Pairs& s, size_t i) { return std::fabs((s.x[i] - q.p).norm() - best) < 1e-9 && std::fabs(s.pairs[i].distance - best) < 1e-9 && s.pairs[i].index == i; };
            bool h = has(a, ia); REQUIRE(h ? maybe : !in, "nearest:pair", "a measured point whose nearest model point is " << best << " away " << (h ? "has a" : "has no") << " pair, limit " << box); if (h) { REQUIRE(same(a, ia), "nearest:nearest", "paired with a point at " << (a.x[ia] - q.p).norm() << ", distance " << a.pairs[ia].distance << ", the nearest is at " << best); ia++; mon::seen("nearest.pair"); } else mon::seen("nearest.none");
            h = has(b, ib); bool fit = false, clear = true; if (bn) { double ang = std::acos(std::max(-1.0, std::min(1.0, bn->n.dot(q.n)))); fit = !bn->e && !q.e && ang < M_PI / 8; clear = std::fabs(ang - M_PI / 8) > 1e-6; }
            if (clear) REQUIRE(h ? maybe && fit : !(in && fit), "nearest:filter", "pair with normals and edges: " << h << ", fits " << fit << ", distance " << best); if (h) { REQUIRE(same(b, ib), "nearest:nearest", "filtered pair is not with the nearest point"); ib++; mon::seen("nearest.filtered"); } else if (in) mon::seen("nearest.rejected"); }
        REQUIRE(ia == a.size() && ib == b.size(), "nearest:extra", "pairs that belong to no measured point"); mon::distinct(mon::hashStr(mon::currentLog()));
    }
}

SECTION_CPU(align, 6000, 40000, 120)
{
    auto& r = c.rng; Environment env; TrimmedKD icp; bool ean = r.chance(0.3); TrimmedKDEAN icpn; double gap = r.one({0.5, 2.0}); int n = r.range(12, 60);
    Pts truth = spaced(r, n, gap); std::vector<Vector3d> nor; for (int i = 0; i < n; i++) nor.push_back(rigid(r, r.real(-3, 3), 0).linear().col(2)); Vector3d mid = Vector3d::Zero(); for (auto& p : truth) mid += p / n; for (auto& p : truth) p -= mid; double rad = 0; for (auto& p : truth) rad = std::max(rad, p.norm());
    Affine3d world = rigid(r, r.real(-3, 3), r.one({0.0, 5.0, 50.0})); for (auto& p : truth) p = world * p; for (auto& q : nor) q = world.linear() * q;
    auto fill = [&](Cloud& k, const std::vector<int>& ids, const Affine3d& g) { auto& ns = k.pc->getVertexData<Vector3d>(Pointcloud::VERTEX_NORMAL); k.pc->getVertexData<Pointcloud::vertex_attr>(Pointcloud::VERTEX_ATTRIBUTES); for (int i : ids) { k.pc->vertices.push_back(g.inverse() * truth[i]); ns.push_back(g.linear().transpose() * nor[i]); } k.pc->getVertexData<Pointcloud::vertex_attr>(Pointcloud::VERTEX_ATTRIBUTES).resize(k.pc->vertices.size()); };
    std::vector<int> all(n); for (int i = 0; i < n; i++) all[i] = i; int parts = r.range(1, 3); for (int k = 0; k < parts; k++) { std::vector<int> ids; for (int i : all) if (i % parts == k) ids.push_back(i); Cloud m = place(r, env, rigid(r, r.real(-3, 3), 5), true); fill(m, ids, m.g); if (ean) icpn.addToModel(PointcloudEdgeAndNormalAdapter(m.pc, 1)); else icp.addToModel(PointcloudAdapter(m.pc, 1)); }
    if (parts > 1) mon::seen("align.parts");
    // the measurement is displaced by less than what confuses neighbouring points
    double share = r.real(0.25, 0.45) * gap; Affine3d shift = world * (Translation3d(share * 0.5 * rigid(r, 1, 0).linear().col(0)) * rigid(r, r.chance(0.2) ? 0 : (ean ? std::min(0.25, share * 0.5 / rad) : share * 0.5 / rad), 0)) * world.inverse();
    Affine3d start = rigid(r, r.real(-3, 3), 5), placed = shift * start; Cloud k = place(r, env, placed, true); std::vector<int> ids = all; for (size_t i = ids.size(); i-- > 1;) std::swap(ids[i], ids[r.u(i + 1)]); ids.resize(r.range(std::max(6, n / 2), n)); fill(k, ids, start);
    size_t good = ids.size(), bad = r.chance(0.5) ? r.range(0, good / 4) : 0; for (size_t i = 0; i < bad; i++) { k.pc->vertices.push_back(start.inverse() * (world * (rigid(r, r.real(-3, 3), 0).linear().col(0) * (rad + gap * r.real(1.5, 4))))); k.pc->getVertexData<Vector3d>(Pointcloud::VERTEX_NORMAL).push_back(Vector3d::UnitX()); } k.pc->getVertexData<Pointcloud::vertex_attr>(Pointcloud::VERTEX_ATTRIBUTES).resize(k.pc->vertices.size());
    size_t total = good + bad; double overlap = bad ? (good - 0.5) / total : r.one({1.0, 0.9}); bool mark = ean && r.chance(0.5); if (mark) { auto& as = k.pc->getVertexData<Pointcloud::vertex_attr>(Pointcloud::VERTEX_ATTRIBUTES); for (size_t i = 0; i < total; i++) if (i >= good) as[i] = Pointcloud::vertex_attr(1 << Pointcloud::SCAN_EDGE); }
    size_t maxIter = r.chance(0.1) ? 0 : r.chance(0.1) ? 1 : r.range(30, 60); double minMse = r.one({1e-20, 1e-20, 1e-4}), minDiff = r.one({1e-22, 1e-22, 1e-5}); bool search = maxIter > 1 && r.chance(0.3);
    LOGOP(n << " model points in " << parts << " clouds, gap " << gap << ", " << good << " measured, " << bad << " strays, overlap " << overlap << " iterations " << maxIter << " mse " << minMse << " diff " << minDiff << " normals " << ean << " search " << search);
    PointcloudAdapter pa(k.pc, 1); std::unique_ptr<PointcloudEdgeAndNormalAdapter> pn(ean ? new PointcloudEdgeAndNormalAdapter(k.pc, 1) : 0); std::unique_ptr<Pts> before(new Pts(k.pc->vertices));
    double objective = 0; double lo = 0.4, hi = 1.0, eps = r.one({0.05, 0.01});
#define ICP(call) (ean ? icpn.call : icp.call)
    auto run = [&](double o) { if (ean) icpn.align(PointcloudEdgeAndNormalAdapter(k.pc, 1), maxIter, minMse, minDiff, o); else icp.align(PointcloudAdapter(k.pc, 1), maxIter, minMse, minDiff, o); };
    if (search) { run((lo + hi) / 2); objective = ICP(getMeanSquareError()) / std::pow(ICP(getOverlap()), 3); k.fn->setTransform(envire::Transform(Affine3d(env.relativeTransform(env.getRootNode(), k.parent) * placed))); if (ean) icpn.align(PointcloudEdgeAndNormalAdapter(k.pc, 1), maxIter, minMse, minDiff, lo, hi, eps); else icp.align(PointcloudAdapter(k.pc, 1), maxIter, minMse, minDiff, lo, hi, eps); } else run(overlap);
    Affine3d got = toRoot(k, env); REQUIRE(*before == k.pc->vertices, "align:vertices", "the vertices were changed");
    REQUIRE((got.linear() * got.linear().transpose() - Matrix3d::Identity()).norm() < 1e-9 && got.linear().determinant() > 0, "align:rigid", "the cloud was not moved rigidly");
    size_t iter = ICP(getNumIterations()), pairs = ICP(getPairs()); double mse = ICP(getMeanSquareError()), diff = ICP(getMeanSquareErrorDiff()), ov = ICP(getOverlap()); std::vector<double> pd = ICP(getPairsDistance());
    REQUIRE(iter <= maxIter, "align:iterations", iter << " iterations instead of at most " << maxIter); double err = (got.matrix() - start.matrix()).norm(), disp = 0; for (size_t i = 0; i < good; i++) disp = std::max(disp, (got * k.pc->vertices[i] - start * k.pc->vertices[i]).norm());
    if (!maxIter) { REQUIRE((got.matrix() - placed.matrix()).norm() < 1e-8 && iter == 0, "align:no-iteration", "the cloud was moved without an iteration"); mon::seen("align.nothing"); return; }
    REQUIRE(search ? ov >= lo - 1e-9 && ov <= hi + 1e-9 : ov == overlap, "align:overlap", "overlap is " << ov);
    REQUIRE(iter > 0 && pairs >= 3 && pairs <= total * ov + 1e-9, "align:pairs", pairs << " pairs of " << total << " points at overlap " << ov << " after " << iter << " iterations"); REQUIRE(pd.size() == pairs && std::is_sorted(pd.begin(), pd.end()), "align:distances", "distances of " << pd.size() << " pairs of " << pairs); double m = 0; for (double d : pd) m += d * d / pd.size(); REQUIRE(mon::close(m, mse, 1e-9 * mse + 1e-300), "align:mse", "mean square error is " << mse << ", that of the pairs is " << m);
    if (iter < maxIter) REQUIRE(mse <= minMse || diff <= minDiff, "align:stopped", "stopped after " << iter << " iterations with mse " << mse << " and change " << diff); 
    if (search) { double o = mse / std::pow(ov, 3); REQUIRE(o <= objective * (1 + 1e-6) + 1e-18, "align:search", "objective " << o << " at overlap " << ov << " is worse than " << objective << " at the start of the search"); mon::seen("align.search"); return; }
    // all nearest points are the right ones, so that the first iteration already finds the alignment
    REQUIRE(disp < 1e-6 * (1 + rad) + 1e-7, "align:truth", "points are up to " << disp << " from where they belong (" << err << " in the transform), mse " << mse << " after " << iter << " iterations");
    mon::seen(bad ? "align.strays" : "align.truth"); if (ean) mon::seen("align.normals"); if (mark) mon::seen("align.edges"); if (maxIter == 1) mon::seen("align.once"); if (iter > 1) mon::seen("align.repeated");
    mon::distinct(mon::hashStr(mon::currentLog()));
}

SECTION(nothing, 1500, 10000)
{
    auto& r = c.rng; Environment env; TrimmedKD icp; Affine3d g = rigid(r, r.real(-3, 3), 5); Cloud m = place(r, env, rigid(r, 1, 3), true), k = place(r, env, g, true); int nm = r.range(0, 4), nk = r.range(0, 4); if (nm > 2 && nk > 2) nm = 0; for (int i = 0; i < nm; i++) m.pc->vertices.push_back(Vector3d(r.gauss(), r.gauss(), r.gauss())); for (int i = 0; i < nk; i++) k.pc->vertices.push_back(Vector3d(r.gauss(), r.gauss(), r.gauss()));
    icp.addToModel(PointcloudAdapter(m.pc, 1)); if (r.chance(0.3)) { icp.clearModel(); nm = 0; mon::seen("nothing.cleared"); } LOGOP(nm << " model points, " << nk << " measured");
    icp.align(PointcloudAdapter(k.pc, 1), 10, 1e-9, 1e-9, 1.0); size_t want = nm ? nk : 0; REQUIRE(icp.getPairs() == want || want >= 3, "nothing:pairs", icp.getPairs() << " pairs"); if (want < 3) { REQUIRE(icp.getNumIterations() == 0, "nothing:iterations", icp.getNumIterations() << " iterations with " << want << " pairs"); REQUIRE((toRoot(k, env).matrix() - g.matrix()).norm() < 1e-8, "nothing:moved", "the cloud was moved without enough pairs"); mon::seen("nothing.few"); } mon::distinct(mon::hashStr(mon::currentLog()));
}
