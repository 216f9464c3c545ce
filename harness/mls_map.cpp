// P20: maps made of several MLS grids, and map segments.
#include "mon.hpp"
#include <envire/Core.hpp>
#include <envire/core/Serialization.hpp>
#include <envire/maps/MLSMap.hpp>
#include <envire/maps/MapSegment.hpp>
#include <envire/maps/ElevationGrid.hpp>
#include <boost/filesystem.hpp>
#include <memory>
using namespace envire;
using Eigen::Affine3d; using Eigen::Vector3d; using Eigen::Matrix4d;
typedef MLSGrid::SurfacePatch P;

static Affine3d yaw(mon::Rng& r, double range, bool rot) {
    Affine3d t = Affine3d::Identity(); t.translation() = Vector3d(r.real(-range, range), r.real(-range, range), r.chance(.5) ? 0 : r.real(-3, 3));
    if (rot) t.linear() = Eigen::AngleAxisd(r.real(-3, 3), Vector3d::UnitZ()).toRotationMatrix(); return t;
}
// pose of a frame in the world, from its own transforms
static Matrix4d world(const FrameNode* f) { Matrix4d m = Matrix4d::Identity(); for (; f && !f->isRoot(); f = f->getParent()) m = f->getTransform().matrix() * m; return m; }
struct Cand { bool match, doubtful; P p; };

struct Scene {
    std::unique_ptr<Environment> env; FrameNode* mf; MLSMap* map; mon::Rng& r; double sc; int n;
    std::vector<MLSGrid*> grids() { std::vector<MLSGrid*> v; for (auto& g : map->grids) v.push_back(g.get()); return v; }
    Scene(mon::Rng& r) : env(new Environment), r(r) {
        mf = new FrameNode(yaw(r, 5, r.chance(.5))); env->addChild(env->getRootNode(), mf);
        map = new MLSMap; env->setFrameNode(map, mf); sc = r.one({.25, .5, 1.0}); n = r.one({4, 6, 8});
    }
    MLSGrid* newGrid(bool rot) {
        MLSGrid* g = new MLSGrid(n, n, sc, sc, -n * sc / 2, -n * sc / 2); FrameNode* f = new FrameNode(yaw(r, 4, rot));
        env->addChild(mf, f); env->setFrameNode(g, f); return g;
    }
    void fill(MLSGrid* g, int k) { for (int i = 0; i < k; i++) { P p((float)r.real(-4, 4), (float)r.real(.02, .2)); p.update_idx = r.u(100); g->insertTail(r.u(n), r.u(n), p); } }
    // all patches that answer a query, from the geometry alone
    std::vector<Cand> query(MLSMap* m, const Vector3d& p, const P& probe, double thr, bool& doubtful) {
        std::vector<Cand> v; doubtful = false;
        for (auto& gp : m->grids) {
            MLSGrid* g = gp.get(); Matrix4d t = world(g->getFrameNode()).inverse() * world(m->getFrameNode());
            Vector3d q = (t * p.homogeneous()).head<3>(); double x = (q.x() - g->getOffsetX()) / sc, y = (q.y() - g->getOffsetY()) / sc;
            if (std::fabs(x - std::round(x)) < 1e-6 || std::fabs(y - std::round(y)) < 1e-6) doubtful = true;
            if (x < 0 || y < 0 || x >= n || y >= n) continue;
            bool first = true;
            for (MLSGrid::iterator it = g->beginCell((size_t)x, (size_t)y); it != g->endCell(); it++) {
                double d = std::fabs(it->mean - (probe.mean + t(2, 3))), lim = std::sqrt((double)it->stdev * it->stdev + (double)probe.stdev * probe.stdev) * thr;
                if (std::fabs(d - lim) < 1e-4) doubtful = true;
                if (d < lim && first) { Cand c{true, false, *it}; c.p.mean = it->mean - t(2, 3); v.push_back(c); first = false; }
            }
        }
        return v;
    }
    void ask(MLSMap* m, const std::string& when) {
        Vector3d p(r.real(-6, 6), r.real(-6, 6), 0); P probe((float)r.real(-4, 4), (float)r.real(.05, .5));
        if (r.chance(.6) && m->grids.size()) {   // aim at a patch
            MLSGrid* g = r.pick(m->grids).get(); std::vector<std::pair<size_t, size_t>> occ; for (size_t x = 0; x < (size_t)n; x++) for (size_t y = 0; y < (size_t)n; y++) if (g->beginCell(x, y) != g->endCell()) occ.push_back({x, y});
            if (occ.size()) { auto o = r.pick(occ); Matrix4d t = world(m->getFrameNode()).inverse() * world(g->getFrameNode());
                Vector3d q((o.first + r.real(.1, .9)) * sc + g->getOffsetX(), (o.second + r.real(.1, .9)) * sc + g->getOffsetY(), 0); p = (t * q.homogeneous()).head<3>(); p.z() = r.real(-1, 1);
                probe.mean = g->beginCell(o.first, o.second)->mean + t(2, 3) + (float)r.real(-.3, .3); } }
        double thr = r.one({1.0, 3.0}); bool doubtful; std::vector<Cand> want = query(m, p, probe, thr, doubtful); if (doubtful) return;
        P out = probe; bool got = m->getPatch(p, out, thr);
        LOGOP("getPatch " << p.transpose() << " z " << probe.mean << "+-" << probe.stdev << " -> " << (got ? "found" : "none") << ", candidates " << want.size());
        REQUIRE(got == !want.empty(), "patch:found", when << ": getPatch " << (got ? "found a patch where no grid has one" : "found nothing, but a grid has a matching patch"));
        if (got) { bool ok = false; for (auto& w : want) ok |= std::fabs(w.p.mean - out.mean) < 1e-4 && w.p.stdev == out.stdev && w.p.update_idx == out.update_idx;
            REQUIRE(ok, "patch:value", when << ": getPatch gave mean " << out.mean << " stdev " << out.stdev << ", which no grid has at this place (candidate: " << want[0].p.mean << ")"); mon::seen(want.size() > 1 ? "patch.overlap" : "patch.one"); }
        else mon::seen("patch.none");
    }
    void check(MLSMap* m, const std::string& when) { for (int i = 0; i < 4; i++) ask(m, when); }
};

SECTION(history, 4000, 60000) {
    mon::Rng& r = c.rng; Scene s(r); LOGOP("scale " << s.sc << " cells " << s.n);
    bool rot = r.chance(.5); MLSGrid* g0 = s.newGrid(rot); s.map->addGrid(g0); s.fill(g0, r.range(1, 30));
    REQUIRE(s.map->getActiveGrid().get() == g0 && s.map->grids.size() == 1 && g0->getParents().size() == 1, "addGrid", "the grid added is not active");
    int steps = r.range(4, 20); std::vector<MLSMap*> maps{s.map};
    for (int i = 0; i < steps; i++) {
        std::string w; MLSMap* m = r.pick(maps); std::vector<MLSGrid::Ptr> before = m->grids; MLSGrid* act = m->getActiveGrid().get();
        switch (r.u(8)) {
        case 0: { w = "addGrid"; MLSGrid* g = s.newGrid(r.chance(.5)); m->addGrid(g); s.fill(g, r.range(0, 20)); LOGOP(w);
            REQUIRE(m->getActiveGrid().get() == g && m->grids.size() == before.size() + 1 && m->grids.back().get() == g, "addGrid", "the grid added is not active"); mon::seen(w); break; }
        case 1: { w = "createGrid"; bool rel = r.chance(.5), al = r.chance(.5); Affine3d t = yaw(r, 3, r.chance(.5)); LOGOP(w << (rel ? " relative" : " absolute") << (al ? " aligned " : " exact ") << t.translation().transpose());
            Matrix4d A = world(act->getFrameNode()), M = world(m->getFrameNode()); if (rel && al && r.chance(.5)) m->createGrid(t); else if (al && r.chance(.5)) m->createGrid(t, rel); else m->createGrid(t, rel, al); MLSGrid* g = m->getActiveGrid().get();
            REQUIRE(g != act && m->grids.size() == before.size() + 1 && m->grids.back().get() == g, "createGrid", "createGrid made no new grid");
            REQUIRE(g->empty() && g->getCellSizeX() == (size_t)s.n && g->getScaleX() == s.sc && g->getOffsetX() == act->getOffsetX() && g->getConfig().gapSize == act->getConfig().gapSize, "createGrid", "the new grid does not look like the active one");
            Matrix4d have = world(g->getFrameNode()), want = (rel ? A : M) * t.matrix();
            if (!al) REQUIRE((have - want).cwiseAbs().maxCoeff() < 1e-9, "createGrid:exact", "the new grid is not where it was asked for: " << have.col(3).transpose() << " expected " << want.col(3).transpose());
            else { Matrix4d d = A.inverse() * have; double ix = d(0, 3) / s.sc, iy = d(1, 3) / s.sc;
                REQUIRE((d.block<3, 3>(0, 0) - Eigen::Matrix3d::Identity()).cwiseAbs().maxCoeff() < 1e-9 && std::fabs(ix - std::round(ix)) < 1e-6 && std::fabs(iy - std::round(iy)) < 1e-6, "createGrid:aligned", "the cells of the new grid are not aligned to those of the active one: shift " << ix << "," << iy << " cells");
                Eigen::Vector4d off = A.inverse() * (have.col(3) - want.col(3));
                REQUIRE(off.cwiseAbs().head<2>().maxCoeff() < s.sc * 1.0001, "createGrid:place", "the aligned grid is " << off.transpose() << " away from where it was asked for"); }
            s.fill(g, r.range(0, 15)); mon::seen(std::string("createGrid.") + (rel ? "rel" : "abs") + (al ? ".aligned" : ".exact")); break; }
        case 2: { w = "selectActiveGrid"; FrameNode* f = new FrameNode(yaw(r, 6, r.chance(.5))); s.env->addChild(s.env->getRootNode(), f); double thr = r.one({.5, 1.0, 3.0}); bool al = r.chance(.5);
            double best = thr; MLSGrid* bg = NULL; bool doubt = false; for (auto& g : before) { Matrix4d t = world(g->getFrameNode()).inverse() * world(f); double d = std::max(std::fabs(t(0, 3)), std::fabs(t(1, 3))); if (std::fabs(d - best) < 1e-6) doubt = true; if (d < best) { best = d; bg = g.get(); } }
            if (doubt) break; Matrix4d A = world(act->getFrameNode()), F = world(f); LOGOP(w << " threshold " << thr << (al ? " aligned" : "")); if (al && r.chance(.5)) m->selectActiveGrid(f, thr); else m->selectActiveGrid(f, thr, al); MLSGrid* g = m->getActiveGrid().get();
            if (bg) { REQUIRE(g == bg && m->grids.size() == before.size(), "select", "the nearest grid within the threshold was not selected"); mon::seen("select.present"); }
            else { REQUIRE(m->grids.size() == before.size() + 1 && g == m->grids.back().get(), "select:new", "no new grid was made although none is near"); Matrix4d d = A.inverse() * world(g->getFrameNode()), e = A.inverse() * F;
                if (!al) REQUIRE((d - e).cwiseAbs().maxCoeff() < 1e-9, "select:exact", "the new grid is not at the frame, although alignment was not asked for");
                else { double ix = d(0, 3) / s.sc; REQUIRE(std::fabs(ix - std::round(ix)) < 1e-6 && std::fabs(d(0, 3) - e(0, 3)) <= s.sc * 1.0001 && std::fabs(d(1, 3) - e(1, 3)) <= s.sc * 1.0001, "select:aligned", "the new grid is not aligned, or too far from the frame"); }
                s.fill(g, 5); mon::seen("select.new"); }
            break; }
        case 3: { w = "move grid"; FrameNode* f = r.pick(m->grids)->getFrameNode(); LOGOP(w); f->setTransform(yaw(r, 4, r.chance(.5))); mon::seen("frame.moved"); break; }
        case 4: { w = "remove grid"; if (m->grids.size() < 2) break; size_t k = r.u(m->grids.size()); if (m->grids[k].get() == act) break; LOGOP(w << " " << k); m->grids.erase(m->grids.begin() + k);
            mon::seen("grid.removed"); break; }
        case 5: { w = "insert"; s.fill(r.pick(m->grids).get(), r.range(1, 5)); LOGOP(w); break; }
        case 6: { if (maps.size() > 2) break; bool deep = r.chance(.6); w = deep ? "cloneDeep" : "clone"; LOGOP(w); m->setLabel("label" + std::to_string(i)); if (r.chance(.2)) m->setImmutable();
            MLSMap* q = deep ? m->cloneDeep() : m->clone(); if (!deep) s.env->attachItem(q); s.env->setFrameNode(q, m->getFrameNode());
            REQUIRE(q->grids.size() == m->grids.size() && q->getLabel() == m->getLabel() && q->isImmutable() == m->isImmutable() && q->getUniqueId() != m->getUniqueId(), "clone", "the copy has label '" << q->getLabel() << "', immutable " << q->isImmutable() << " and " << q->grids.size() << " grids");
            if (deep) { MLSGrid* ca = q->getActiveGrid().get(); REQUIRE(ca != act && ca->getCellCount() == act->getCellCount() && ca->getFrameNode() == act->getFrameNode(), "cloneDeep", "the active grid was not copied");
                for (size_t k = 0; k < q->grids.size(); k++) REQUIRE(m->grids[k].get() == act ? q->grids[k].get() == ca : q->grids[k] == m->grids[k], "cloneDeep", "grid " << k << " of the copy is not the one of the original");
                size_t cnt = act->getCellCount(); s.fill(ca, 3); REQUIRE(act->getCellCount() == cnt, "cloneDeep", "the active grids are not independent"); }
            else REQUIRE(q->getActiveGrid().get() == act, "clone", "the copy has another active grid");
            maps.push_back(q); mon::seen(w); break; }
        case 7: { if (maps.size() < 2) break; w = "assign"; MLSMap *a = r.pick(maps), *b = r.pick(maps); LOGOP(w); *a = *b; REQUIRE(a->grids == b->grids && a->getActiveGrid() == b->getActiveGrid(), "assign", "the map has other grids than the one assigned");
            for (auto& g : a->grids) REQUIRE(g->isAttached(), "assign", "a grid is not attached any more"); mon::seen(w); break; }
        }
        for (MLSMap* q : maps) { s.check(q, "after " + w); REQUIRE(q->getActiveGrid() && std::find(q->grids.begin(), q->grids.end(), q->getActiveGrid()) != q->grids.end(), "active", "the active grid is not one of the map"); }
    }
    if (steps > 5) mon::distinct(mon::hashStr(mon::currentLog())); mon::sample(mon::currentLog());
}

SECTION(extents, 4000, 60000) {
    mon::Rng& r = c.rng; Scene s(r); int k = r.range(1, 4); Eigen::AlignedBox<double, 2> want;
    if (r.chance(.3)) { Layer* l = new ElevationGrid(2, 2, 1, 1); s.env->attachItem(l); s.env->addChild(s.map, l); mon::seen("extents.foreign"); }
    for (int i = 0; i < k; i++) { MLSGrid* g = s.newGrid(false); s.map->addGrid(g); s.fill(g, r.range(1, 10)); Matrix4d t = world(s.mf).inverse() * world(g->getFrameNode());
        for (int x = 0; x < s.n; x++) for (int y = 0; y < s.n; y++) if (g->beginCell(x, y) != g->endCell()) { Eigen::Vector2d o(t(0, 3) + g->getOffsetX() + x * s.sc, t(1, 3) + g->getOffsetY() + y * s.sc); want.extend(o); want.extend(Eigen::Vector2d(o + Eigen::Vector2d(s.sc, s.sc))); } }
    Eigen::AlignedBox<double, 2> e = s.map->getExtents(); LOGOP(k << " grids, extents " << e.min().transpose() << " - " << e.max().transpose());
    REQUIRE((e.min() - want.min()).cwiseAbs().maxCoeff() < 1e-9 && (e.max() - want.max()).cwiseAbs().maxCoeff() < 1e-9, "extents", "extents " << e.min().transpose() << " - " << e.max().transpose() << ", the occupied cells cover " << want.min().transpose() << " - " << want.max().transpose());
    mon::seen("extents"); mon::distinct(mon::hashStr(mon::currentLog()));
}

SECTION(empty, 50, 200) {
    mon::Rng& r = c.rng; Scene s(r); P p(0, 1); REQUIRE(!s.map->getPatch(Vector3d::Zero(), p), "empty", "an empty map has a patch");
    s.map->createGrid(Affine3d::Identity()); REQUIRE(s.map->grids.empty(), "empty", "createGrid without template made a grid");
    s.map->selectActiveGrid(s.env->getRootNode(), 1); REQUIRE(s.map->grids.empty() && !s.map->getActiveGrid(), "empty", "selectActiveGrid without template made a grid");
    MLSMap* q = s.map->cloneDeep(); REQUIRE(q->grids.empty() && q->isAttached() && q->getUniqueId() != s.map->getUniqueId(), "empty", "copy of an empty map"); mon::seen("empty");
}

SECTION(scene, 40, 400) {
    mon::Rng& r = c.rng; Scene s(r); MLSGrid* g = s.newGrid(false); s.map->addGrid(g); s.fill(g, r.range(1, 9)); const std::string mid = s.map->getUniqueId(), gid = g->getUniqueId();
    char t[] = "/tmp/verif-mlsmap-XXXXXX"; std::string d = mkdtemp(t); s.env->serialize(d); std::unique_ptr<Environment> e(Environment::unserialize(d)); boost::filesystem::remove_all(d);
    MLSMap* m = e->getItem<MLSMap>(mid).get(); MLSGrid* q = e->getItem<MLSGrid>(gid).get(); REQUIRE(m && q, "scene", "map or grid missing in the scene read");
    REQUIRE(q->getCellCount() == g->getCellCount() && e->getChildren(m).size() == 1 && e->getChildren(m).front() == q, "scene", "the grid read is not the one written"); mon::seen("scene");
    REQUIRE(m->grids.size() == 1 && m->grids[0].get() == q && m->getActiveGrid().get() == q, "scene:grids", "an MLSMap read from a scene does not know its grids (" << m->grids.size() << " of 1), although they are its children in the layer tree");
}

// ---- map segments ----
SECTION(segment, 6000, 100000) {
    mon::Rng& r = c.rng; Environment env; FrameNode* sf = new FrameNode(yaw(r, 5, true)); env.addChild(env.getRootNode(), sf); MapSegment* seg = new MapSegment; env.setFrameNode(seg, sf);
    int n = r.range(1, 6); struct Q { Affine3d pose; CartesianMap* m; double w; }; std::vector<Q> qs; double wz = 0, sw = 0; Eigen::AlignedBox<double, 3> box; bool traj = r.chance(.7);
    bool throwsBefore = mon::throws([&] { seg->getTransform(); }); REQUIRE(throwsBefore, "segment:empty", "a segment without update has a transform");
    REQUIRE(seg->getBestMap() == NULL, "segment:empty", "an empty segment has a best map");
    for (int i = 0; i < n; i++) {
        FrameNode* f = new FrameNode(yaw(r, 5, false)); env.addChild(sf, f); ElevationGrid* g = new ElevationGrid(r.range(1, 4), r.range(1, 4), 1, 1, r.real(-2, 0), r.real(-2, 0)); env.setFrameNode(g, f);
        Affine3d p = Affine3d::Identity(); p.translation() = Vector3d(r.real(-5, 5), r.real(-5, 5), r.real(-1, 1)); p.linear() = Eigen::AngleAxisd(r.real(-2.5, 2.5), Vector3d::UnitZ()).toRotationMatrix();
        double w = r.one({.1, .5, 1.0}) * r.real(.5, 1.5), zv = r.chance(.3) ? 0 : r.real(0, .3); if (zv == 0) seg->addPart(p, g, w); else seg->addPart(p, g, w, zv); qs.push_back({p, g, w}); wz += w * zv; sw += w; if (traj) { seg->trajectories.push_back(std::vector<base::Vector3d>(r.range(0, 9))); }
        Vector3d o = f->getTransform().translation(); box.extend(Vector3d(o.x() + g->getOffsetX(), o.y() + g->getOffsetY(), o.z())); box.extend(Vector3d(o.x() + g->getOffsetX() + g->getCellSizeX(), o.y() + g->getOffsetY() + g->getCellSizeY(), o.z()));
    }
    LOGOP("segment of " << n << " parts");
    size_t bw = 0; for (size_t i = 0; i < qs.size(); i++) if (qs[i].w > qs[bw].w) bw = i;
    REQUIRE(seg->getBestMap() == qs[bw].m, "segment:best", "the best map is not the one of the highest weight");
    Affine3d ask = Affine3d::Identity(); ask.translation() = Vector3d(r.real(-5, 5), r.real(-5, 5), r.real(-1, 1)); ask.linear() = Eigen::AngleAxisd(r.real(-2.5, 2.5), Vector3d::UnitZ()).toRotationMatrix(); if (r.chance(.3)) ask = r.pick(qs).pose;
    auto yawOf = [](const Affine3d& t) { return std::atan2(t.linear()(1, 0), t.linear()(0, 0)); }; size_t b = 0; double bd = 1e9, second = 1e9;
    for (size_t i = 0; i < qs.size(); i++) { double d = std::sqrt((qs[i].pose.translation() - ask.translation()).squaredNorm() + std::pow(yawOf(qs[i].pose) - yawOf(ask), 2)); if (d < bd) { second = bd; bd = d; b = i; } else second = std::min(second, d); }
    if (second - bd > 1e-6) { base::Affine3d mp; size_t ts = 12345; CartesianMap* m = seg->getMapForPose(ask, mp, ts);
        REQUIRE(m == qs[b].m && (mp.matrix() - qs[b].pose.matrix()).cwiseAbs().maxCoeff() < 1e-9, "segment:pose", "the map found is not the one of the closest pose");
        REQUIRE(ts == (traj ? seg->trajectories[b].size() : 12345u), "segment:trajectory", "trajectory size " << ts); mon::seen("segment.pose"); }
    Eigen::AlignedBox<double, 3> e = seg->getExtents(); REQUIRE((e.min() - box.min()).cwiseAbs().maxCoeff() < 1e-9 && (e.max() - box.max()).cwiseAbs().maxCoeff() < 1e-9, "segment:extents", "extents " << e.min().transpose() << " - " << e.max().transpose() << ", the parts cover " << box.min().transpose() << " - " << box.max().transpose());
    seg->update(); TransformWithUncertainty t = seg->getTransform(); Eigen::Matrix<double, 6, 1> mu; mu.setZero(); Eigen::Matrix<double, 6, 6> C; C.setZero(); std::vector<Eigen::Matrix<double, 6, 1>> v;
    for (auto& q : qs) { Eigen::Matrix<double, 6, 1> x; x << 0, 0, yawOf(q.pose), q.pose.translation(); v.push_back(x); mu += q.w / sw * x; } for (size_t i = 0; i < v.size(); i++) C += qs[i].w / sw * (v[i] - mu) * (v[i] - mu).transpose();
    C(0, 0) += std::pow(M_PI / 180, 2); C(1, 1) += std::pow(M_PI / 180, 2); C(5, 5) += wz / sw;
    Affine3d m = Affine3d::Identity(); m.linear() = Eigen::AngleAxisd(mu(2), Vector3d::UnitZ()).toRotationMatrix(); m.translation() = mu.tail<3>();
    REQUIRE((t.getTransform().matrix() - m.matrix()).cwiseAbs().maxCoeff() < 1e-9, "segment:mean", "the transform is not the weighted mean of the parts");
    REQUIRE((t.getCovariance() - C).cwiseAbs().maxCoeff() < 1e-8, "segment:cov", "the covariance is not that of the parts (difference " << (t.getCovariance() - C).cwiseAbs().maxCoeff() << ")");
    seg->update(); REQUIRE((seg->getTransform().getTransform().matrix() - m.matrix()).cwiseAbs().maxCoeff() < 1e-9, "segment:again", "a second update changed the transform");
    mon::seen("segment"); if (n > 1) mon::distinct(mon::hashStr(mon::currentLog()) ^ (uint64_t)(sw * 1e6));
}
