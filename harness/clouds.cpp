// P21: pointclouds, triangle meshes, feature clouds and laser scans: storage, copies and derived data.
#include "mon.hpp"
#include <envire/Core.hpp>
#include <envire/core/Serialization.hpp>
#include <envire/maps/Pointcloud.hpp>
#include <envire/maps/TriMesh.hpp>
#include <envire/maps/Featurecloud.hpp>
#include <envire/maps/LaserScan.hpp>
#include <boost/filesystem.hpp>
#include <boost/tuple/tuple_comparison.hpp>
#include <fstream>
#include <memory>
using namespace envire;
using Eigen::Vector3d; using Eigen::Affine3d; using Eigen::Matrix4d;
typedef std::vector<Vector3d> VV;
static Affine3d pose(mon::Rng& r, double range) {
    Affine3d t = Affine3d::Identity(); t.translation() = Vector3d(r.real(-range, range), r.real(-range, range), r.real(-range, range));
    t.linear() = Eigen::Quaterniond(r.gauss(), r.gauss(), r.gauss(), r.gauss()).normalized().toRotationMatrix(); return t;
}
static Matrix4d world(const FrameNode* f) { Matrix4d m = Matrix4d::Identity(); for (; f && !f->isRoot(); f = f->getParent()) m = f->getTransform().matrix() * m; return m; }
static double coord(mon::Rng& r) { switch (r.u(6)) { case 0: return 0; case 1: return r.range(-5, 5); case 2: return r.real(-1e-9, 1e-9); case 3: return r.real(-1e6, 1e6); default: return r.real(-20, 20); } }
static Vector3d vec(mon::Rng& r) { double x = coord(r), y = coord(r), z = coord(r); return Vector3d(x, y, z); }
static const VV* data(Pointcloud* p, const std::string& k) { return p->hasData(k) ? &p->getVertexData<Vector3d>(k) : 0; }
static int byteOf(double v) { double b = v * 255; return b <= 0 ? 0 : b >= 255 ? 255 : (int)std::floor(b + .5); }
static bool same(const VV& a, const VV& b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); i++) if (memcmp(&a[i], &b[i], sizeof(Vector3d))) return false; return true; }
// what must be read back from a cloud: positions and normals exactly, colours as bytes
static void compare(Pointcloud* a, Pointcloud* b, const char* how, bool single = false) {
    auto eq = [&](const VV& x, const VV& y) { if (!single) return same(x, y); if (x.size() != y.size()) return false; for (size_t i = 0; i < x.size(); i++) for (int k = 0; k < 3; k++) if ((double)(float)x[i][k] != y[i][k]) return false; return true; };
    REQUIRE(eq(a->vertices, b->vertices), "vertices", how << ": " << a->vertices.size() << " vertices written, " << b->vertices.size() << " read, or their values differ");
    const VV *n = data(a, Pointcloud::VERTEX_NORMAL), *m = data(b, Pointcloud::VERTEX_NORMAL);
    REQUIRE((n && !n->empty()) == (m && !m->empty()), "normals", how << ": normals appeared or vanished"); if (n && !n->empty()) { REQUIRE(eq(*n, *m), "normals", how << ": normals differ"); mon::seen("normals"); }
    n = data(a, Pointcloud::VERTEX_COLOR); m = data(b, Pointcloud::VERTEX_COLOR);
    REQUIRE((n && !n->empty()) == (m && !m->empty()), "colors", how << ": colours appeared or vanished");
    if (n && !n->empty()) { REQUIRE(n->size() == m->size(), "colors", how << ": " << m->size() << " colours of " << n->size());
        for (size_t i = 0; i < n->size(); i++) for (int k = 0; k < 3; k++) { double want = byteOf((*n)[i][k]) / 255.0; double fr = (*n)[i][k] * 255 - std::floor((*n)[i][k] * 255); if (std::fabs(fr - .5) < 1e-6) continue; REQUIRE(std::fabs((*m)[i][k] - want) < 1e-9, "colors", how << ": colour " << (*n)[i][k] << " was read as " << (*m)[i][k]); } mon::seen("colors"); }
    TriMesh *s = dynamic_cast<TriMesh*>(a), *t = dynamic_cast<TriMesh*>(b); REQUIRE(!s == !t, "class", how << ": class changed");
    if (s) { REQUIRE(s->faces == t->faces, "faces", how << ": " << t->faces.size() << " faces read, " << s->faces.size() << " written, or they differ"); if (!s->faces.empty()) mon::seen("faces"); }
}
static void fill(Pointcloud* p, mon::Rng& r) {
    int n = r.chance(.1) ? 0 : r.chance(.1) ? r.range(100, 400) : r.range(1, 30); for (int i = 0; i < n; i++) p->vertices.push_back(vec(r));
    if (r.chance(.4)) { VV& v = p->getVertexData<Vector3d>(Pointcloud::VERTEX_NORMAL); if (!r.chance(.2)) for (int i = 0; i < n; i++) v.push_back(vec(r)); }
    if (r.chance(.4)) { VV& v = p->getVertexData<Vector3d>(Pointcloud::VERTEX_COLOR); if (!r.chance(.2)) for (int i = 0; i < n; i++) { double a = r.chance(.2) ? r.real(-.5, 1.7) : r.real(), b = r.one({0., 1., 254.6 / 255, .499, .501}), c = r.range(0, 255) / 255.0; v.push_back(Vector3d(a, b, c)); } }
    if (TriMesh* t = dynamic_cast<TriMesh*>(p)) if (n && r.chance(.8)) for (int i = r.range(1, 40); i > 0; i--) { int a = r.u(n), b = r.u(n), d = r.u(n); t->faces.push_back(TriMesh::triangle_t(a, b, d)); }
}
static Pointcloud* create(mon::Rng& r, int kind) { return kind == 0 ? new Pointcloud : kind == 1 ? (Pointcloud*)new TriMesh : (Pointcloud*)new Featurecloud; }
struct Dir { std::string d; Dir() { char t[] = "/tmp/verif-clouds-XXXXXX"; d = mkdtemp(t); } ~Dir() { boost::filesystem::remove_all(d); } };

SECTION(ply, 12000, 200000) {
    mon::Rng& r = c.rng; int kind = r.u(3); Pointcloud::Ptr a = create(r, kind), b = create(r, kind); fill(a.get(), r); bool dbl = r.chance(.6);
    LOGOP("kind " << kind << " vertices " << a->vertices.size() << (dbl ? " double" : " single"));
    std::stringstream ss; REQUIRE(a->writePly("cloud.ply", ss, dbl), "ply", "writePly failed"); std::string bytes = ss.str(); mon::distinct(mon::hashStr(bytes));
    REQUIRE(b->readPly("cloud.ply", ss), "ply", "readPly failed"); compare(a.get(), b.get(), dbl ? "ply" : "ply.single", !dbl); mon::seen(dbl ? "ply.double" : "ply.single");
    // a cloud does not know the faces of a mesh, but must read its points
    if (kind == 1 && dbl) { Pointcloud::Ptr p(new Pointcloud); std::stringstream s2(bytes); REQUIRE(p->readPly("cloud.ply", s2) && same(p->vertices, a->vertices), "ply:mesh", "a pointcloud could not read the points of a mesh"); mon::seen("ply.mesh.as.cloud"); }
    // cut anywhere: refused
    if (bytes.size() > 1) { std::stringstream s3(bytes.substr(0, r.u(bytes.size()))); Pointcloud::Ptr q = create(r, kind); bool ok = false; bool thrown = mon::throws([&] { ok = q->readPly("cut.ply", s3); }); size_t he = bytes.find("end_header\n") + 11;
        REQUIRE(thrown || !ok || s3.str().size() + 1 == he, "ply:cut", "a file cut after " << s3.str().size() << " of " << bytes.size() << " bytes was read without complaint"); mon::seen("ply.cut"); }
    // random bytes changed: no crash, and faces only of the vertices there are
    { std::string m = bytes; for (int k = r.range(1, 4); k > 0; k--) { size_t p = r.u(m.size()); m[p] = (char)r.u(256); } size_t e = m.find("element "); bool huge = false;
      while (e != std::string::npos) { std::istringstream l(m.substr(e, 60)); std::string w, n; double k = 0; l >> w >> n >> k; if (k > 1e5) huge = true; e = m.find("element ", e + 8); }
      std::stringstream s4(m); TriMesh::Ptr q(new TriMesh); bool ok = false; bool thrown = huge || mon::throws([&] { ok = q->readPly("broken.ply", s4); });
      for (auto& f : q->faces) for (int v : {f.get<0>(), f.get<1>(), f.get<2>()}) REQUIRE(v >= 0 && v < (int)q->vertices.size(), "ply:faces", "a damaged file gave a face with vertex " << v << " of " << q->vertices.size());
      mon::seen(thrown || !ok ? "ply.damaged.refused" : "ply.damaged.read"); }
}
// polygon meshes written by other programs
SECTION(foreign, 4000, 50000) {
    mon::Rng& r = c.rng; std::ostringstream o; int nv = r.range(1, 12), nf = r.range(0, 8); bool bad = r.chance(.3), was = false; VV v; std::vector<TriMesh::triangle_t> want; bool uc = r.chance(.5), ui = r.chance(.5), fl = r.chance(.5);
    o << "ply\nformat ascii 1.0\ncomment x\nelement vertex " << nv << "\nproperty " << (fl ? "float" : "double") << " x\nproperty " << (fl ? "float" : "double") << " y\nproperty " << (fl ? "float" : "double") << " z\n" << (uc ? "property int confidence\n" : "") << "element face " << nf << "\nproperty list uchar " << (ui ? "uint" : "int") << " vertex_index\nend_header\n";
    for (int i = 0; i < nv; i++) { Vector3d p(r.range(-800, 800) / 8.0, r.range(-800, 800) / 8.0, r.range(-800, 800) / 8.0); v.push_back(p); o << p.x() << " " << p.y() << " " << p.z(); if (uc) o << " " << r.range(-9, 9); o << "\n"; }
    for (int i = 0; i < nf; i++) { int n = r.chance(.6) ? 3 : r.range(0, 6); o << n; std::vector<int> ix; for (int k = 0; k < n; k++) { int x = r.u(nv); if (bad && r.chance(.2)) { x = ui ? r.one({nv, nv + 5, 2000000000}) : r.one({-1, nv, nv + 3, -2000000000}); was = true; } ix.push_back(x); o << " " << x; } o << "\n"; if (n == 3) want.push_back(TriMesh::triangle_t(ix[0], ix[1], ix[2])); if (n != 3) mon::seen("foreign.polygon"); }
    LOGOP(o.str()); TriMesh::Ptr t(new TriMesh); std::istringstream is(o.str()); bool ok = false, thrown = mon::throws([&] { ok = t->readPly("foreign.ply", is); });
    if (was) { REQUIRE(thrown || !ok, "foreign:absent", "faces with absent vertices were accepted"); mon::seen("foreign.absent"); return; }
    REQUIRE(!thrown && ok && same(t->vertices, v), "foreign:vertices", "the vertices of an ascii file were not read"); REQUIRE(t->faces == want, "foreign:faces", t->faces.size() << " triangles read, the file has " << want.size()); mon::seen("foreign.read"); mon::distinct(mon::hashStr(o.str()));
}

SECTION(scene, 300, 4000) {
    mon::Rng& r = c.rng; Dir dir; std::unique_ptr<Environment> env(new Environment), e; std::vector<std::pair<std::string, Pointcloud*>> items; int n = r.range(1, 4);
    for (int i = 0; i < n; i++) { Pointcloud* p = create(r, r.u(3)); fill(p, r); if (r.chance(.7)) p->setSensorOrigin(pose(r, 100)); env->attachItem(p);
        if (Featurecloud* f = dynamic_cast<Featurecloud*>(p)) { if (r.chance(.1)) { f->keypoints.resize(f->vertices.size() + 1); f->descriptorSize = 64; f->descriptors.assign(64 * f->keypoints.size(), .5f); } mon::seen("featurecloud"); }
        if (r.chance(.5)) { FrameNode* fn = new FrameNode(pose(r, 10)); env->addChild(env->getRootNode(), fn); env->setFrameNode(p, fn); } items.push_back({p->getUniqueId(), p}); }
    LOGOP(n << " clouds"); env->serialize(dir.d); e.reset(Environment::unserialize(dir.d));
    for (auto& i : items) { Pointcloud* q = dynamic_cast<Pointcloud*>(e->getItem<EnvironmentItem>(i.first).get()); REQUIRE(q && q->getClassName() == i.second->getClassName(), "scene:item", i.first << " missing");
        compare(i.second, q, "scene"); REQUIRE((q->getSensorOrigin().matrix() - i.second->getSensorOrigin().matrix()).cwiseAbs().maxCoeff() < 1e-9, "scene:origin", "the sensor origin changed"); mon::seen("scene");
        BinarySerialization so, rd; EnvireBinaryEvent ev(event::ITEM, event::ADD, i.second->getUniqueId(), ""); REQUIRE(so.serializeBinaryEvent(i.second, ev), "binary", "not written"); Pointcloud::Ptr b = dynamic_cast<Pointcloud*>(rd.unserializeBinaryEvent(ev)); REQUIRE(b.get(), "binary", "not read");
        compare(i.second, b.get(), "binary"); REQUIRE((b->getSensorOrigin().matrix() - i.second->getSensorOrigin().matrix()).cwiseAbs().maxCoeff() < 1e-9, "binary:origin", "the sensor origin changed"); mon::seen("binary"); }
    for (auto& i : items) if (Featurecloud* f = dynamic_cast<Featurecloud*>(i.second)) if (!f->keypoints.empty()) { Featurecloud* g = e->getItem<Featurecloud>(i.first).get(); mon::seen("featurecloud.keypoints");
        REQUIRE(g->keypoints.size() == f->keypoints.size() && g->descriptors == f->descriptors, "featurecloud:keypoints", "a feature cloud with " << f->keypoints.size() << " key points was read with " << g->keypoints.size()); }
}

SECTION(text, 8000, 100000) {
    mon::Rng& r = c.rng; Pointcloud::Ptr a(new Pointcloud), b(new Pointcloud); int n = r.range(0, 30); for (int i = 0; i < n; i++) a->vertices.push_back(vec(r));
    std::stringstream ss; ss.precision(r.one({3, 6, 17})); int pr = ss.precision(); REQUIRE(a->writeText(ss), "text", "writeText failed"); REQUIRE(ss.precision() == pr, "text", "the precision of the stream was changed"); std::string t = ss.str(); REQUIRE(b->readText(ss, 1, Pointcloud::XYZ), "text", "readText refused what writeText wrote"); REQUIRE(same(a->vertices, b->vertices), "text", n << " vertices written, " << b->vertices.size() << " read, or their values differ"); mon::seen("text");
    if (n > 1) mon::distinct(mon::hashStr(t));
    { std::ostringstream o; o.precision(17); int lines = r.range(1, 9), from = -1; VV w; for (int i = 0; i < lines; i++) { Vector3d p = vec(r); int rem = r.range(0, 255); if (r.chance(.08)) { o << r.one<const char*>({"1.0 2.0", "x y z 1", "nan? 3", "1 2 3", "4 5 6 q", "#comment", "1,2,3,4"}) << "\n"; if (from < 0) from = i; } else { o << p.x() << r.one<const char*>({" ", "\t", "  "}) << p.y() << " " << p.z() << " " << rem << r.one<const char*>({"\n", " \n", "\r\n", "\n\n"}); if (from < 0) w.push_back(p); } }
      std::string s = o.str(); if (r.chance(.3) && s.back() == '\n') while (!s.empty() && (s.back() == '\n' || s.back() == '\r')) s.pop_back(); LOGOP(s);
      Dir dir; Environment env; FrameNode* fn = new FrameNode(pose(r, 5)); env.addChild(env.getRootNode(), fn); { std::ofstream f(dir.d + "/c.xyz"); f << s; } size_t before = env.getItems<Pointcloud>().size(); Pointcloud* p = 0; bool thrown = mon::throws([&] { p = Pointcloud::importCsv(dir.d + "/c.xyz", fn); });
      if (from >= 0) { REQUIRE(thrown && env.getItems<Pointcloud>().size() == before, "csv:malformed", "a file whose line " << from << " cannot be parsed was imported"); mon::seen("csv.malformed"); }
      else { REQUIRE(!thrown && p && p->isAttached() && p->getFrameNode() == fn && same(p->vertices, w), "csv", "the points of a file were not imported"); const VV* col = data(p, Pointcloud::VERTEX_COLOR); REQUIRE(col && col->size() == w.size(), "csv:remission", "remissions are missing"); mon::seen("csv"); }
      REQUIRE(mon::throws([&] { Pointcloud::importCsv(dir.d + "/absent.xyz", fn); }), "csv:absent", "an absent file was imported"); }
}

SECTION(copies, 8000, 100000) {
    mon::Rng& r = c.rng; Environment env; std::vector<FrameNode*> fs(1, env.getRootNode()); for (int i = 0; i < 4; i++) { FrameNode* f = new FrameNode(pose(r, 10)); env.addChild(r.pick(fs), f); fs.push_back(f); }
    int kind = r.u(2) * 2; Pointcloud *a = create(r, kind), *b = create(r, kind); for (int i = r.range(0, 20); i > 0; i--) a->vertices.push_back(Vector3d(r.real(-9, 9), r.real(-9, 9), r.real(-9, 9))); fill(b, r);
    if (Featurecloud* f = dynamic_cast<Featurecloud*>(a)) { f->keypoints.resize(a->vertices.size()); f->descriptorSize = r.range(1, 8); f->descriptorType = r.chance(.5) ? DESCRIPTOR_SURF : DESCRIPTOR_PSURF; for (size_t i = 0; i < f->keypoints.size() * f->descriptorSize; i++) f->descriptors.push_back(r.real()); }
    bool tr = r.chance(.6); FrameNode *fa = r.pick(fs), *fb = r.chance(.2) ? fa : r.pick(fs); if (tr || r.chance(.5)) { env.setFrameNode(a, fa); env.setFrameNode(b, fb); } else { Pointcloud::Ptr pa(a), pb(b); env.attachItem(a); env.attachItem(b); }
    LOGOP("copy " << a->vertices.size() << " vertices, transform " << tr);
    if (kind == 2) static_cast<Featurecloud*>(b)->copyFrom(static_cast<Featurecloud*>(a), tr); else b->copyFrom(a, tr);
    REQUIRE(b->vertices.size() == a->vertices.size(), "copy", b->vertices.size() << " vertices of " << a->vertices.size());
    Matrix4d m = tr ? Matrix4d(world(fb).inverse() * world(fa)) : Matrix4d(Matrix4d::Identity());
    for (size_t i = 0; i < a->vertices.size(); i++) { Eigen::Vector4d h; h << a->vertices[i], 1; REQUIRE((b->vertices[i] - (m * h).head<3>()).norm() < 1e-8, "copy:position", "vertex " << i << " is at " << b->vertices[i].transpose() << ", it should be at " << (m * h).head<3>().transpose()); }
    for (auto& k : {Pointcloud::VERTEX_NORMAL, Pointcloud::VERTEX_COLOR}) REQUIRE(!data(b, k) || data(b, k)->empty() || data(b, k)->size() == b->vertices.size(), "copy:stale", "data of the earlier vertices remained");
    if (kind == 2) { Featurecloud *f = static_cast<Featurecloud*>(a), *g = static_cast<Featurecloud*>(b); REQUIRE(g->keypoints.size() == f->keypoints.size() && g->descriptors == f->descriptors && g->descriptorSize == f->descriptorSize && g->descriptorType == f->descriptorType, "copy:features", "features differ"); mon::seen("copy.features");
        g->clear(); REQUIRE(g->size() == 0 && g->keypoints.empty() && g->descriptors.empty(), "clear", "features remain"); }
    mon::seen(tr ? "copy.transformed" : "copy.plain");
    // measured clouds
    base::samples::Pointcloud s; int n = r.range(0, 20); bool col = r.chance(.5); for (int i = 0; i < n; i++) { s.points.push_back(vec(r)); if (col) s.colors.push_back(base::Vector4d(r.real(), r.real(), r.real(), r.real())); }
    Pointcloud::Ptr p; if (r.chance(.5)) p = new Pointcloud(s); else { p = new Pointcloud; fill(p.get(), r); p->copyFrom(s); }
    REQUIRE(p->vertices.size() == (size_t)n, "samples", "number of points"); for (int i = 0; i < n; i++) REQUIRE(p->vertices[i] == s.points[i], "samples", "point " << i); const VV* pc = data(p.get(), Pointcloud::VERTEX_COLOR);
    REQUIRE((pc ? pc->size() : 0) == s.colors.size(), "samples:colors", (pc ? pc->size() : 0) << " colours of " << s.colors.size()); for (size_t i = 0; i < s.colors.size(); i++) REQUIRE((*pc)[i] == s.colors[i].head<3>(), "samples:colors", "colour " << i);
    std::stringstream ss; REQUIRE(!mon::throws([&] { p->writePly("m.ply", ss); }), "samples:write", "a measured cloud " << (col ? "with" : "without") << " colours cannot be written"); Pointcloud::Ptr q(new Pointcloud); REQUIRE(q->readPly("m.ply", ss), "samples:read", "cannot be read"); compare(p.get(), q.get(), "samples"); mon::seen(col && n ? "samples.colored" : "samples.plain");
    Vector3d lo = Vector3d::Constant(1e300), hi = -lo; for (auto& v : p->vertices) { lo = lo.cwiseMin(v); hi = hi.cwiseMax(v); } Pointcloud::Extents e = p->getExtents(); REQUIRE(n ? e.min() == lo && e.max() == hi : e.isEmpty(), "extents", "extents of the points"); mon::seen("extents");
    mon::distinct(mon::hashStr(mon::currentLog()) ^ (uint64_t)n * 977);
}

SECTION(normals, 8000, 100000) {
    mon::Rng& r = c.rng; TriMesh::Ptr t(new TriMesh); int n = r.range(3, 15); for (int i = 0; i < n; i++) t->vertices.push_back(Vector3d(r.real(-5, 5), r.real(-5, 5), r.real(-5, 5)));
    if (r.chance(.3)) { VV& v = t->getVertexData<Vector3d>(Pointcloud::VERTEX_NORMAL); for (int i = r.range(0, 20); i > 0; i--) v.push_back(vec(r)); }
    VV sum(n, Vector3d::Zero()); std::vector<int> deg(n, 0); int rounds = r.range(1, 3);
    for (int k = 0; k < rounds; k++) {
        for (int i = r.range(0, 20); i > 0; i--) { int a = r.u(n), b = (a + 1 + r.u(n - 1)) % n, d; do d = r.u(n); while (d == a || d == b); t->faces.push_back(TriMesh::triangle_t(a, b, d)); Vector3d u = t->vertices[a] - t->vertices[b], w = t->vertices[d] - t->vertices[b]; Vector3d x(u.y() * w.z() - u.z() * w.y(), u.z() * w.x() - u.x() * w.z(), u.x() * w.y() - u.y() * w.x()); double l = std::sqrt(x.x() * x.x() + x.y() * x.y() + x.z() * x.z()); for (int q : {a, b, d}) { sum[q] += x / l; deg[q]++; } }
        t->calcVertexNormals(); VV& v = t->getVertexData<Vector3d>(Pointcloud::VERTEX_NORMAL); REQUIRE(v.size() == (size_t)n, "normals:size", v.size() << " normals for " << n << " vertices");
        for (int i = 0; i < n; i++) { double l = sum[i].norm(); if (!deg[i]) { REQUIRE(v[i] == Vector3d::Zero(), "normals:none", "a vertex without faces has normal " << v[i].transpose()); mon::seen("normals.none"); } else if (l > 1e-3) { REQUIRE((v[i] - sum[i] / l).norm() < 1e-9, "normals:mean", "normal " << v[i].transpose() << " of a vertex of " << deg[i] << " faces, expected " << (sum[i] / l).transpose()); mon::seen(deg[i] > 2 ? "normals.many" : "normals.few"); } }
        LOGOP(t->faces.size() << " faces"); if (k) mon::seen("normals.again");
    }
    mon::distinct(mon::hashStr(mon::currentLog()) ^ (uint64_t)(sum[0].x() * 1e9));
}

// ---- laser scans ----
static void cmpScan(LaserScan* a, LaserScan* b, const char* how) {
    REQUIRE(memcmp(&a->delta_psi, &b->delta_psi, 4) == 0 && memcmp(&a->origin_psi, &b->origin_psi, 4) == 0 && memcmp(&a->origin_phi, &b->origin_phi, 4) == 0, "scan:angles", how << ": angles changed from " << a->delta_psi << " " << a->origin_psi << " " << a->origin_phi << " to " << b->delta_psi << " " << b->origin_psi << " " << b->origin_phi);
    REQUIRE(a->center_offset == b->center_offset, "scan:offset", how << ": centre offset changed"); REQUIRE(a->lines.size() == b->lines.size(), "scan:lines", how << ": " << b->lines.size() << " of " << a->lines.size() << " lines");
    for (size_t i = 0; i < a->lines.size(); i++) { auto &x = a->lines[i], &y = b->lines[i]; REQUIRE(x.delta_phi == y.delta_phi, "scan:phi", how << ": tilt of line " << i << " changed from " << x.delta_phi << " to " << y.delta_phi); REQUIRE(x.ranges == y.ranges, "scan:ranges", how << ": ranges of line " << i); REQUIRE(x.remissions == y.remissions, "scan:remissions", how << ": remissions of line " << i); }
    if (!a->lines.empty()) REQUIRE(b->points_per_line == (int)b->lines.back().ranges.size(), "scan:points", how << ": " << b->points_per_line << " points per line");
}
SECTION(scan, 6000, 80000) {
    mon::Rng& r = c.rng; Environment env; LaserScan* a = new LaserScan; env.attachItem(a); REQUIRE(a->points_per_line == 0 && a->lines.empty() && a->delta_psi == 0 && a->origin_psi == 0 && a->origin_phi == 0 && !a->x_forward && a->center_offset == Vector3d::Zero(), "scan:new", "a new scan is not empty");
    if (r.chance(.5)) a->setXForward(); else if (r.chance(.5)) { a->setXForward(); a->setYForward(); } bool fw = a->x_forward;
    int n = r.range(0, 6), pts = r.range(1, 20); bool rem = r.chance(.5); a->origin_phi = r.real(-3, 3); a->center_offset = vec(r); base::samples::LaserScan s; s.start_angle = (float)r.real(-3, 3); s.angular_resolution = (float)r.real(.001, .1);
    for (int i = 0; i < n; i++) { double tilt = r.real(-1.5, 1.5); s.ranges.clear(); s.remission.clear(); for (int k = 0; k < pts; k++) { s.ranges.push_back(r.chance(.2) ? r.u(6) : r.chance(.1) ? 4294967295u : r.u(80000)); if (rem) s.remission.push_back(r.u(5000)); } a->addScanLine(tilt, s);
        REQUIRE(a->lines.size() == (size_t)i + 1 && a->lines.back().delta_phi == (float)tilt && a->lines.back().ranges == std::vector<unsigned>(s.ranges.begin(), s.ranges.end()) && a->lines.back().remissions.size() == s.remission.size() && a->points_per_line == pts && a->origin_psi == (float)s.start_angle && a->delta_psi == (float)s.angular_resolution, "scan:add", "line " << i << " is not the one added"); mon::seen("scan.line"); }
    LOGOP(n << " lines of " << pts << " points" << (rem ? " with remissions" : ""));
    std::stringstream ss; ss.precision(r.one({3, 6})); a->writeScan(ss); std::string bytes = ss.str(); LaserScan::Ptr b(new LaserScan); b->readScan(ss); cmpScan(a, b.get(), "file"); mon::seen(rem ? "scan.remission" : "scan.plain"); if (n) mon::distinct(mon::hashStr(bytes));
    BinarySerialization so, rd; EnvireBinaryEvent ev(event::ITEM, event::ADD, a->getUniqueId(), ""); so.serializeBinaryEvent(a, ev); LaserScan::Ptr q = dynamic_cast<LaserScan*>(rd.unserializeBinaryEvent(ev)); REQUIRE(q.get(), "scan:binary", "not read"); cmpScan(a, q.get(), "binary"); REQUIRE(q->x_forward == fw, "scan:forward", "the forward direction was lost"); mon::seen("scan.binary");
    if (r.chance(.05)) { Dir d; env.serialize(d.d); std::unique_ptr<Environment> e(Environment::unserialize(d.d)); LaserScan* l = e->getItem<LaserScan>(a->getUniqueId()).get(); REQUIRE(l, "scan:scene", "missing"); cmpScan(a, l, "scene"); REQUIRE(l->x_forward == fw, "scan:forward", "the forward direction was lost"); mon::seen("scan.scene"); }
    // imported files place the scan in a frame; malformed ones are refused and leave nothing
    if (r.chance(.3)) { Dir d; std::ostringstream o; o.precision(9); Eigen::Quaterniond rot = Eigen::Quaterniond(r.gauss(), r.gauss(), r.gauss(), r.gauss()).normalized(); Vector3d pos(r.range(-99, 99) / 4.0, r.range(-99, 99) / 4.0, r.range(-99, 99) / 4.0); bool place = r.chance(.7), bad = r.chance(.4);
        if (place) o << "orientation " << rot.w() << " " << rot.x() << " " << rot.y() << " " << rot.z() << "\norigin " << pos.x() << " " << pos.y() << " " << pos.z() << "\n"; if (r.chance(.5)) o << "unknown 1 2 3\n\n"; o << bytes; if (bad) o << r.one<const char*>({"line 0.5 12 x 3\n", "remission 7.25 1 2\n", "line 0.1 1 2 -x 5\n", "line 0.25 7\nremission 0.25 q\n"}); LOGOP(o.str()); { std::ofstream f(d.d + "/s.scan"); f << o.str(); }
        FrameNode* fn = new FrameNode(pose(r, 5)); env.addChild(env.getRootNode(), fn); size_t items = env.getItems<EnvironmentItem>().size(); LaserScan* l = 0; bool thrown = mon::throws([&] { l = LaserScan::importScanFile(d.d + "/s.scan", fn); });
        if (bad) { REQUIRE(thrown && env.getItems<EnvironmentItem>().size() == items, "scan:malformed", "a malformed scan was imported or left items behind"); mon::seen("scan.malformed"); }
        else { REQUIRE(!thrown && l && l->getFrameNode() && l->getFrameNode()->getParent() == fn, "scan:import", "the scan is not in a frame below the given one"); cmpScan(a, l, "import"); Affine3d w = Affine3d::Identity(); if (place) { w.linear() = rot.toRotationMatrix(); w.translation() = pos; } REQUIRE((l->getFrameNode()->getTransform().matrix() - w.matrix()).cwiseAbs().maxCoeff() < 1e-5, "scan:pose", "the frame of the scan has another pose than the file"); mon::seen(place ? "scan.import.placed" : "scan.import"); }
        REQUIRE(mon::throws([&] { LaserScan::importScanFile(d.d + "/none.scan", fn); }) , "scan:absent", "an absent file was imported"); }
}
