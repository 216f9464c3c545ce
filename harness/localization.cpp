// Localization: choice of scan lines, clouds made of them, matching against a stored environment.
#include "mon.hpp"
#include <envire/Core.hpp>
#include <envire/core/Serialization.hpp>
#include <envire/maps/Pointcloud.hpp>
#include "icp/icpLocalization.hpp"
#include <boost/filesystem.hpp>
#include <iostream>
using namespace envire;
using namespace envire::icp;
using namespace Eigen;

namespace {
struct Scratch { std::string d; Scratch() { char b[] = "/tmp/verif.loc.XXXXXX"; if (!mkdtemp(b)) throw std::runtime_error("mkdtemp"); d = b; } ~Scratch() { boost::system::error_code e; boost::filesystem::remove_all(d, e); } };
struct Quiet { std::ostringstream s; std::streambuf* b; Quiet() : b(std::cout.rdbuf(s.rdbuf())) {} ~Quiet() { std::cout.rdbuf(b); } };
Affine3d rigid(mon::Rng& r, double ang, double t) { Vector3d a(r.gauss(), r.gauss(), r.gauss()); if (a.norm() < 1e-3) a = Vector3d::UnitX(); return Affine3d(Translation3d(r.real(-t, t), r.real(-t, t), r.real(-t, t)) * AngleAxisd(ang, a.normalized())); }
struct Line { Affine3d odo, world, laser; base::samples::LaserScan scan; };
std::vector<Vector3d> points(const base::samples::LaserScan& s) { std::vector<Vector3d> v; for (size_t i = 0; i < s.ranges.size(); i++) if (s.ranges[i] >= 5 && s.ranges[i] >= s.minRange && s.ranges[i] <= s.maxRange) { double a = s.start_angle + i * s.angular_resolution; v.push_back(Vector3d(std::cos(a), std::sin(a), 0) * (s.ranges[i] / 1000.0)); } return v; }
base::samples::LaserScan scan(mon::Rng& r, int n) { base::samples::LaserScan s; s.time = base::Time::fromMicroseconds(1000000LL * r.range(1, 100000) + r.u(1000000)); s.start_angle = r.real(-2, 0); s.angular_resolution = r.real(0.01, 0.2); s.minRange = 100; s.maxRange = 30000; for (int i = 0; i < n; i++) s.ranges.push_back(r.chance(0.2) ? r.one({0, 1, 2, 3, 4, 50, 40000}) : r.range(100, 30000)); return s; }
}

SECTION(lines, 6000, 40000)
{
    auto& r = c.rng; Quiet quiet; ICPLocalization loc; ICPPointCloudConfiguration cf; cf.lines_per_point_cloud = r.range(1, 8); cf.min_line_advance = r.range(0, 5); cf.min_distance_travelled_for_new_line = r.chance(0.15) ? 1e9 : r.real(0.05, 0.3); cf.min_rotation_for_new_line = r.chance(0.15) ? 1e9 : r.real(0.02, 0.3); cf.min_rotation_head_for_new_line = r.chance(0.3) ? 1e9 : r.real(0.02, 0.3);
    std::deque<Line> have; int count = 0, last = 0; Affine3d odo = rigid(r, r.real(-3, 3), 5), o2w = rigid(r, r.real(-3, 3), 5), mount(Translation3d(r.real(-1, 1), r.real(-1, 1), r.real(0, 1))); double head = 0; if (r.chance(0.5)) mount = mount * AngleAxisd(r.real(-1, 1), Vector3d::UnitX());
    loc.initializePointCloud(cf); int steps = r.range(1, 60);
    for (int i = 0; i < steps; i++) {
        if (r.chance(0.02)) { if (r.chance(0.5)) cf.lines_per_point_cloud = r.range(1, 8); loc.initializePointCloud(cf); have.clear(); count = last = 0; mon::seen("lines.restart"); }
        bool mv = r.chance(0.6), turn = r.chance(0.4), nod = r.chance(0.4); if (mv) odo = odo * rigid(r, 0, 0.2); if (turn) odo = odo * rigid(r, r.real(-0.2, 0.2), 0); if (nod) head = r.chance(0.5) ? head + r.real(-0.2, 0.2) : -head; if (r.chance(0.1)) o2w = o2w * rigid(r, r.real(-0.1, 0.1), 0.3);
        Line l; l.odo = odo; l.world = o2w * odo; l.laser = mount * AngleAxisd(head, Vector3d::UnitX()); l.scan = scan(r, r.range(0, 12)); bool add = true, clear = true;
        for (auto& q : have) { Affine3d d = odo.inverse() * q.odo; double t = d.translation().norm(), a = AngleAxisd(d.linear()).angle(), h = std::acos(std::max(-1.0, std::min(1.0, l.laser.linear().col(1).dot(q.laser.linear().col(1))))); bool far = t > cf.min_distance_travelled_for_new_line || a > cf.min_rotation_for_new_line || h > cf.min_rotation_head_for_new_line; if (std::fabs(t - cf.min_distance_travelled_for_new_line) < 1e-6 || std::fabs(a - cf.min_rotation_for_new_line) < 1e-6 || std::fabs(h - cf.min_rotation_head_for_new_line) < 1e-6) clear = false; if (h > cf.min_rotation_head_for_new_line && t <= cf.min_distance_travelled_for_new_line && a <= cf.min_rotation_for_new_line) mon::seen("lines.head"); add = add && far; }
        if (!clear) { mon::seen("lines.limit"); continue; }
        loc.addScanLineToPointCloud(l.odo, l.world, l.laser, l.scan); if (add) { have.push_back(l); while (int(have.size()) > cf.lines_per_point_cloud) have.pop_front(); count++; mon::seen("lines.new"); } else mon::seen("lines.same"); LOGOP((add ? "new" : "same") << " line of " << l.scan.ranges.size() << " ranges, head " << head);
        bool want = count > cf.lines_per_point_cloud && count - last > cf.min_line_advance; REQUIRE(loc.hasNewPointCloud() == want, "lines:ready", (want ? "no" : "a") << " new cloud after " << count << " lines (" << cf.lines_per_point_cloud << " per cloud), " << count - last << " since the last one (" << cf.min_line_advance << " demanded)");
        if (want) mon::seen("lines.ready");
        if (r.chance(want ? 0.7 : 0.1)) {
            ICPInputData d = loc.generatePointcloud(); boost::intrusive_ptr<Pointcloud> keep(d.pc); last = count; const Line& z = have.back();
            REQUIRE((d.pc2World.matrix() - z.world.matrix()).norm() < 1e-9, "cloud:pose", "pose of the cloud is not the one of the last line"); REQUIRE(d.pointCloudTime == z.scan.time, "cloud:time", "time of the cloud is not the one of the last line");
            std::vector<Vector3d> v; for (auto& q : have) for (auto& p : points(q.scan)) v.push_back(z.odo.inverse() * (q.odo * (q.laser * p))); auto& g = d.pc->vertices; REQUIRE(g.size() == v.size(), "cloud:size", g.size() << " points from " << have.size() << " lines with " << v.size() << " echoes"); for (size_t k = 0; k < v.size(); k++) REQUIRE((g[k] - v[k]).norm() < 1e-8, "cloud:point", "point " << k << " is at " << g[k].transpose() << " instead of " << v[k].transpose()); mon::seen("cloud"); if (have.size() > 1) mon::seen("cloud.several");
            Affine3d off = rigid(r, r.real(-1, 1), 1); ICPInputData s = loc.generatePointcloudSample(d, off); boost::intrusive_ptr<Pointcloud> keep2(s.pc); REQUIRE(s.pc != d.pc && s.pc->vertices == d.pc->vertices && s.pointCloudTime == d.pointCloudTime, "sample:copy", "the sample is no copy"); REQUIRE((s.pc2World.translation() - d.pc2World.translation() - off.translation()).norm() < 1e-9 && (s.pc2World.linear() - off.linear() * d.pc2World.linear()).norm() < 1e-9, "sample:pose", "the sample is not moved by the offset"); if (!s.pc->vertices.empty()) { s.pc->vertices[0] += Vector3d(1, 1, 1); REQUIRE(v.empty() || (d.pc->vertices[0] - v[0]).norm() < 1e-8, "sample:shared", "sample and cloud share their points"); } mon::seen("sample");
        }
    }
    ICPLocalization none; none.initializePointCloud(cf); REQUIRE(mon::throws([&] { none.generatePointcloud(); }), "cloud:none", "a cloud was generated without lines"); mon::seen("cloud.none"); mon::distinct(mon::hashStr(mon::currentLog()));
}

SECTION_CPU(match, 1500, 10000, 120)
{
    auto& r = c.rng; Quiet quiet; Scratch dir; ICPLocalization loc; std::vector<Vector3d> truth; int n = r.range(15, 40); double gap = 1.5; int side = 4; std::vector<int> ids(side * side * side); for (size_t i = 0; i < ids.size(); i++) ids[i] = i; for (size_t i = ids.size(); i-- > 1;) std::swap(ids[i], ids[r.u(i + 1)]); for (int i = 0; i < n; i++) truth.push_back(gap * 1.6 * (Vector3d(ids[i] % side, ids[i] / side % side, ids[i] / side / side) + 0.18 * Vector3d(r.real(-1, 1), r.real(-1, 1), r.real(-1, 1)) - Vector3d(1.5, 1.5, 1.5)));
    bool stored = r.chance(0.8); int clouds = 0;
    if (stored) { Environment env; clouds = r.range(1, 3); for (int k = 0; k < clouds; k++) { Affine3d g = rigid(r, r.real(-3, 3), 5); FrameNode* f = new FrameNode(g); env.addChild(env.getRootNode(), f); Pointcloud* p = new Pointcloud; for (int i = k; i < n; i += clouds) p->vertices.push_back(g.inverse() * truth[i]); env.setFrameNode(p, f); } env.serialize(dir.d + "/in"); }
    ICPConfiguration cf; cf.model_density = 1; cf.max_iterations = r.range(5, 40); cf.overlap = r.one({1.0, 0.9}); cf.min_mse = 1e-12; cf.min_mse_diff = 1e-14; cf.measurement_density = r.chance(0.8) ? 1 : 0.5; cf.cov_conf.mode = r.one({HARD_CODED, MSE_BASED, NO_COV}); cf.cov_conf.cov_position = Matrix3d::Identity() * r.real(0.1, 1); cf.cov_conf.cov_orientation = Matrix3d::Identity() * r.real(0.1, 1); bool debug = r.chance(0.7); if (debug) cf.environment_debug_path = dir.d + "/out";
    loc.loadIcpConfiguration(cf); loc.loadEnvironment(stored ? dir.d + "/in" : "", 1.0); LOGOP(n << " points in " << clouds << " stored clouds, covariance " << cf.cov_conf.mode << " debug " << debug);
    auto saved = [&]() { if (!debug) { loc.saveEnvironment(); return -1; } boost::filesystem::remove_all(dir.d + "/out"); loc.saveEnvironment(); boost::scoped_ptr<Environment> e(Environment::unserialize(dir.d + "/out")); return int(e->getItems<Pointcloud>().size()); }; int extra = 0; bool lastSaved = false, any = false;
    for (int round = r.range(1, 5); round-- > 0;) {
        if (r.chance(0.25) && any) { loc.removeLastSavedPointCloud(); if (lastSaved) { extra--; lastSaved = false; mon::seen("match.removed"); } else mon::seen("match.nothing-to-remove"); }
        bool few = r.chance(0.2); Affine3d pose = rigid(r, r.real(-3, 3), 5), small = Translation3d(0.3 * rigid(r, 1, 0).linear().col(0)) * rigid(r, r.real(0, 0.05), 0); ICPInputData d; d.pc = new Pointcloud; d.pc2World = small * pose; d.pointCloudTime = base::Time::fromMicroseconds(r.u(1000000)); d.fn = 0; for (int i = 0; i < (few ? int(r.u(3)) : n); i++) d.pc->vertices.push_back(pose.inverse() * truth[i]); size_t np = d.pc->vertices.size(); bool save = r.chance(0.5);
        ICPResult res = loc.doScanMatch(d, save); any = true; lastSaved = save && debug; if (lastSaved) extra++; LOGOP("match of " << np << " points, save " << save << ": " << res.pairs << " pairs");
        REQUIRE(res.time == d.pointCloudTime && res.points == int(np) && (res.from.matrix() - (small * pose).matrix()).norm() < 1e-9, "match:input", "the result does not repeat time, size and pose of the cloud");
        if (few || !stored) { REQUIRE(res.pairs < 3 && res.mse > 1e300 && (res.to.matrix() - res.from.matrix()).norm() < 1e-9, "match:few", "matched " << np << " points with " << res.pairs << " pairs, mse " << res.mse << ", moved by " << (res.to.matrix() - res.from.matrix()).norm()); mon::seen("match.few"); }
        else { REQUIRE(res.pairs >= 3 && (res.to.matrix() - pose.matrix()).norm() < 1e-5, "match:pose", "pose is off by " << (res.to.matrix() - pose.matrix()).norm() << " with " << res.pairs << " pairs, mse " << res.mse); REQUIRE(int(res.pairs_distance.size()) == res.pairs, "match:distances", res.pairs_distance.size() << " distances of " << res.pairs << " pairs"); double m = 0; for (double q : res.pairs_distance) m += q * q / res.pairs; REQUIRE(mon::close(m, res.mse, 1e-9 * m + 1e-300), "match:mse", "mse " << res.mse << " instead of " << m);
            if (cf.cov_conf.mode == HARD_CODED) REQUIRE(res.cov_position == cf.cov_conf.cov_position && res.cov_orientation == cf.cov_conf.cov_orientation, "match:covariance", "the covariance is not the configured one"); else if (cf.cov_conf.mode == NO_COV) REQUIRE((res.cov_position.array() > 1e300).all() && (res.cov_orientation.array() > 1e300).all(), "match:covariance", "there is a covariance"); else { double q = std::pow(0.25 / std::sqrt(res.mse) * 0.5, 4); REQUIRE(mon::close(res.cov_position(1, 1), 2e-3 / q, 1e-3 * 2e-3 / q + 1e-300) && mon::close(res.cov_orientation(2, 2), M_PI / 180 / q, 1e-3 / q + 1e-300) && res.cov_position(0, 1) == 0, "match:covariance", "covariance " << res.cov_position(1, 1) << " and " << res.cov_orientation(2, 2) << " at mse " << res.mse); }
            mon::seen(cf.cov_conf.mode == HARD_CODED ? "match.fixed" : cf.cov_conf.mode == NO_COV ? "match.unknown" : "match.mse"); }
        if (r.chance(0.4)) { int k = saved(); if (debug) { REQUIRE(k == clouds + extra, "match:saved", k << " clouds are stored instead of " << clouds << " and " << extra << " matched ones"); mon::seen("match.saved"); } else mon::seen("match.no-path"); }
    }
    mon::distinct(mon::hashStr(mon::currentLog()));
}
