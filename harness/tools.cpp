// P42: the command line tools, started as programs on stored scenes.
#include "mon.hpp"
#include <envire/Core.hpp>
#include <envire/core/Serialization.hpp>
#include <envire/maps/ElevationGrid.hpp>
#include <envire/maps/Grids.hpp>
#include <envire/maps/MLSGrid.hpp>
#include <envire/maps/TriMesh.hpp>
#include <envire/maps/TraversabilityGrid.hpp>
#include <envire/operators/GridFloatToMLS.hpp>
#include <envire/operators/GridIllumination.hpp>
#include <envire/operators/MLSProjection.hpp>
#include <envire/operators/MLSSlope.hpp>
#include <envire/operators/MLSToGrid.hpp>
#include <envire/operators/MergePointcloud.hpp>
#include <envire/operators/Projection.hpp>
#include <envire/operators/SimpleTraversability.hpp>
#include <envire/operators/SimplifyPointcloud.hpp>
#include <envire/tools/GraphViz.hpp>
#include <boost/filesystem.hpp>
#include <boost/scoped_ptr.hpp>
#include <gdal/gdal_priv.h>
#include <sys/wait.h>
#include <fstream>
#include <memory>
using namespace envire;
using namespace Eigen;
namespace fs = boost::filesystem;

namespace {
typedef std::map<std::string, std::string> Dump;
typedef std::unique_ptr<Environment> EnvPtr;
struct Quiet { std::ostringstream s; std::streambuf *o, *e; Quiet() : o(std::cout.rdbuf(s.rdbuf())), e(std::cerr.rdbuf(s.rdbuf())) {} ~Quiet() { std::cout.rdbuf(o); std::cerr.rdbuf(e); } };
struct Dir { fs::path p; Dir() { static int n = 0; p = fs::path(mon::st().outdir) / ("tools" + std::to_string(getpid()) + "_" + std::to_string(n++)); fs::create_directories(p); } ~Dir() { boost::system::error_code ec; fs::remove_all(p, ec); } std::string operator/(const std::string& s) const { return (p / s).string(); } };
std::string slurp(const std::string& p) { std::ifstream f(p.c_str(), std::ios::binary); return std::string(std::istreambuf_iterator<char>(f), std::istreambuf_iterator<char>()); }

struct Res { std::string tool; int rc; bool broken; std::string out, err; std::string id() const { std::istringstream s(out); std::string l, k; while (std::getline(s, l)) if (!l.empty()) k = l; return k; } };
Res run(const Dir& d, std::vector<std::string> a)
{
    std::string line; for (auto& x : a) line += " [" + x + "]"; LOGOP("run" << line);
    std::string bin = std::string(getenv("VERIF_TOOLS") ? getenv("VERIF_TOOLS") : ".") + "/" + a[0], so = d / "stdout", se = d / "stderr";
    std::vector<char*> av; for (auto& x : a) av.push_back((char*)x.c_str()); av.push_back(0);
    pid_t p = fork();
    if (p == 0) {
        mon::arm(0); struct rlimit rl = {30, 31}; setrlimit(RLIMIT_CPU, &rl); rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl);
        int o = open(so.c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0644), e = open(se.c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0644); dup2(o, 1); dup2(e, 2); if (chdir(d.p.c_str()) != 0) _exit(126);
        setenv("ASAN_OPTIONS", "detect_leaks=0:exitcode=99:handle_abort=0:max_malloc_fill_size=16777216:malloc_fill_byte=247:max_allocation_size_mb=8192", 1);
        execv(bin.c_str(), av.data()); _exit(127);
    }
    int st = 0; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    Res r; r.tool = a[0]; r.out = slurp(so); r.err = slurp(se); r.rc = WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st);
    // an exception that leaves main is a refusal; anything else that kills the program is not
    r.broken = r.rc == 99 || r.rc == 127 || r.rc == 126 || (r.rc >= 128 && !(r.rc == 128 + SIGABRT && r.err.find("terminate called") != std::string::npos));
    return r;
}
#define RAN(res) REQUIRE(!(res).broken, "crash:" + (res).tool, "the program died (" << (res).rc << "): " << (res).err.substr((res).err.find("ERROR") == std::string::npos ? 0 : (res).err.find("ERROR"), 1500))
#define WORKED(res) do { RAN(res); REQUIRE((res).rc == 0, "failed:" + (res).tool, "exit code " << (res).rc << ": " << (res).err.substr(0, 600)); } while (0)
#define REFUSED(res) do { RAN(res); REQUIRE((res).rc != 0, "accepted:" + (res).tool, "accepted: " << (res).out.substr(0, 300)); mon::seen("refused"); } while (0)

EnvPtr load(const std::string& p) { Quiet q; return EnvPtr(Environment::unserialize(p)); }
std::string ids(const std::list<Layer*>& l) { std::set<std::string> s; for (Layer* x : l) s.insert(x->getUniqueId()); std::string r; for (auto& x : s) r += x + ","; return r; }
template <class T> bool grid(std::ostream& o, EnvironmentItem* i)
{
    Grid<T>* g = dynamic_cast<Grid<T>*>(i); if (!g) return false;
    static const std::set<std::string> names{"height", "z", "light", "data", "old", "band0", "band1", "band2", "mean_slope", "max_step", "corrected_max_step", "max_slope", "traversability_class"};
    std::set<std::string> b = names; for (auto& k : g->getBands()) b.insert(k);
    for (auto& k : b) { if (!g->hasBand(k)) continue; o << " band " << k << ":"; const auto& a = g->getGridData(k); for (size_t y = 0; y < g->getHeight(); y++) for (size_t x = 0; x < g->getWidth(); x++) o << " " << double(a[y][x]); auto n = g->getNoData(k); if (n.second) o << " nodata " << double(n.first); }
    return true;
}
std::string text(Environment& env, EnvironmentItem* i)
{
    std::ostringstream o; o << std::setprecision(8) << i->getClassName() << " label '" << i->getLabel() << "'";
    if (FrameNode* f = dynamic_cast<FrameNode*>(i)) { Matrix4d m = f->getTransform().matrix(); o << " parent " << (f->getParent() ? f->getParent()->getUniqueId() : "-") << " at"; for (int k = 0; k < 16; k++) o << " " << (std::abs(m(k)) < 1e-9 ? 0. : m(k)); }
    if (Operator* op = dynamic_cast<Operator*>(i)) o << " in " << ids(env.getInputs(op)) << " out " << ids(env.getOutputs(op));
    if (Layer* l = dynamic_cast<Layer*>(i)) o << " parents " << ids(env.getParents(l)) << (l->isImmutable() ? " immutable" : "");
    if (CartesianMap* m = dynamic_cast<CartesianMap*>(i)) o << " frame " << (m->getFrameNode() ? m->getFrameNode()->getUniqueId() : "-");
    if (GridBase* g = dynamic_cast<GridBase*>(i)) o << " " << g->getWidth() << "x" << g->getHeight() << " cells " << g->getScaleX() << " " << g->getScaleY() << " offset " << g->getOffsetX() << " " << g->getOffsetY();
    if (!(grid<double>(o, i) || grid<float>(o, i) || grid<uint8_t>(o, i) || grid<int16_t>(o, i) || grid<uint16_t>(o, i) || grid<int32_t>(o, i) || grid<uint32_t>(o, i))) {}
    if (MLSGrid* g = dynamic_cast<MLSGrid*>(i)) { o << " gap " << g->getConfig().gapSize << " thick " << g->getConfig().thickness;
        for (size_t y = 0; y < g->getHeight(); y++) for (size_t x = 0; x < g->getWidth(); x++) { std::multiset<std::string> s; for (auto it = g->beginCell(x, y); it != g->endCell(); ++it) { std::ostringstream q; q << std::setprecision(5) << it->mean << "/" << it->stdev << "/" << it->height << "/" << it->isHorizontal(); s.insert(q.str()); } if (!s.empty()) { o << " " << x << "," << y << ":"; for (auto& q : s) o << " " << q; } } }
    if (Pointcloud* p = dynamic_cast<Pointcloud*>(i)) { o << " points"; for (auto& v : p->vertices) o << " " << v.transpose() << ";"; }
    return o.str();
}
Dump dump(Environment& env) { Dump d; for (EnvironmentItem* i : env.getItems<EnvironmentItem>()) d[i->getUniqueId()] = text(env, i); return d; }
std::string diff(const Dump& a, const Dump& b) { for (auto& k : a) { auto it = b.find(k.first); if (it == b.end()) return "item " + k.first + " is gone"; if (it->second != k.second) return "item " + k.first + " is " + it->second.substr(0, 700) + ", expected " + k.second.substr(0, 700); } for (auto& k : b) if (!a.count(k.first)) return "item " + k.first + " appeared: " + k.second.substr(0, 300); return ""; }
#define SAME(want, got, key) do { std::string _d = diff(want, got); REQUIRE(_d.empty(), key, _d); } while (0)

Affine3d pose(mon::Rng& r, bool flat) { Affine3d t = Affine3d::Identity(); if (r.chance(.2)) return t; t.translation() = Vector3d(r.real(-4, 4), r.real(-4, 4), r.real(-4, 4)); if (r.chance(.8)) t.linear() = AngleAxisd(r.real(-3, 3), flat ? Vector3d(0, 0, 1) : Vector3d(r.gauss(), r.gauss(), r.gauss() + 1e-3).normalized()).toRotationMatrix(); return t; }
// a stored scene with a tree of frames and what the case adds to it
struct Scene { Dir d; Environment env; std::vector<FrameNode*> frames; std::string path; mon::Rng& r; int n;
    Scene(mon::Rng& r, bool flat = true) : path(d / "scene"), r(r), n(0) {
        frames.push_back(env.getRootNode());
        for (int k = r.range(0, 4); k-- > 0;) { FrameNode* f = new FrameNode; name(f, "f"); env.attachItem(f); r.pick(frames)->addChild(f); f->setTransform(pose(r, flat)); frames.push_back(f); }
        if (r.chance(.3)) { FrameNode* f = new FrameNode; f->setLabel("a label"); env.attachItem(f); env.getRootNode()->addChild(f); }
    }
    void name(EnvironmentItem* i, const std::string& k) { if (r.chance(.6)) i->setUniqueId("/" + k + std::to_string(n++)); if (r.chance(.2)) i->setLabel("label " + k); }
    FrameNode* frame() { return r.pick(frames); }
    template <class T> T* place(T* m, const std::string& k) { name(m, k); env.attachItem(m); m->setFrameNode(frame()); return m; }
    void geometry(int& w, int& h, double& sx, double& sy, double& ox, double& oy, int max = 7) { w = r.range(1, max); h = r.range(1, max); sx = r.one({.25, .5, 1.}); sy = r.chance(.7) ? sx : r.one({.25, .5, 1.}); ox = r.chance(.5) ? 0 : r.range(-6, 6) * .5; oy = r.chance(.5) ? 0 : r.range(-6, 6) * .5; }
    template <class T> Grid<T>* band(Grid<T>* g, const std::string& k, double lo, double hi) { auto& a = g->getGridData(k); for (size_t y = 0; y < g->getHeight(); y++) for (size_t x = 0; x < g->getWidth(); x++) a[y][x] = T(r.real(lo, hi)); return g; }
    MLSGrid* mls(bool terrain = false, int max = 7) { int w, h; double sx, sy, ox, oy; geometry(w, h, sx, sy, ox, oy, max); MLSGrid* m = place(new MLSGrid(w, h, sx, sy, ox, oy), "mls"); for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) for (int k = terrain ? r.chance(.9) : r.range(0, 2); k-- > 0;) m->insertTail(x, y, MLSGrid::SurfacePatch(r.real(-1, 1) + 4 * k, r.real(.01, .2))); return m; }
    Pointcloud* cloud(int max = 20) { Pointcloud* p = place(r.chance(.2) ? new TriMesh : new Pointcloud, "pc"); for (int k = r.range(1, max); k-- > 0;) p->vertices.push_back(Vector3d(r.real(-3, 3), r.real(-3, 3), r.real(-1, 1))); return p; }
    Dump save() { { Quiet q; env.serialize(path); } EnvPtr e = load(path); return dump(*e); }
    Dump now() { EnvPtr e = load(path); return dump(*e); }
    std::string id(EnvironmentItem* i) { return i->getUniqueId(); }
};
std::string num(double v) { std::ostringstream o; o << v; return o.str(); }
Dump without(Dump d, const std::string& k) { d.erase(k); return d; }
const char* UNKNOWN = "/nowhere/77";
}

SECTION(basic, 450, 3000)
{
    auto& r = c.rng; int k = r.u(4);
    if (k == 0) { Dir d; Res x = run(d, {"env_create", d / "scene"}); WORKED(x); EnvPtr e = load(d / "scene"); Environment ref; SAME(dump(ref), dump(*e), "create"); mon::seen("create"); return; }
    Scene s(r); for (int n = r.range(0, 2); n-- > 0;) s.mls(); for (int n = r.range(0, 2); n-- > 0;) s.cloud();
    if (k == 1) { // every operator runs, in an environment of its own
        std::vector<std::pair<std::string, std::string>> io; MLSGrid* m = s.mls(true);
        Grid<double>* g = new Grid<double>(m->getWidth(), m->getHeight(), m->getScaleX(), m->getScaleY(), m->getOffsetX(), m->getOffsetY()); s.name(g, "g"); s.env.attachItem(g); g->setFrameNode(m->getFrameNode()); s.band(g, "height", 50, 60);
        MLSToGrid* op = new MLSToGrid; s.env.attachItem(op); op->setInput(m); op->setOutput(g, "height");
        Pointcloud* p = s.cloud(); Pointcloud* out = s.place(new Pointcloud, "out"); MergePointcloud* mp = new MergePointcloud; s.env.attachItem(mp); mp->addInput(p); mp->addOutput(out); out->vertices.push_back(Vector3d(99, 99, 99));
        Dump before = s.save(); Res x = run(s.d, {"env_update", s.path}); WORKED(x); Dump after = s.now();
        Dump a = without(without(before, s.id(g)), s.id(out)), b = without(without(after, s.id(g)), s.id(out)); SAME(a, b, "update:others");
        EnvPtr e = load(s.path); auto g2 = e->getItem<Grid<double>>(s.id(g)); auto p2 = e->getItem<Pointcloud>(s.id(out)); REQUIRE(g2 && p2, "update:outputs", "an output is gone");
        for (size_t y = 0; y < g->getHeight(); y++) for (size_t xx = 0; xx < g->getWidth(); xx++) { auto it = m->beginCell(xx, y); double want = it == m->endCell() ? g->getGridData("height")[y][xx] : it->mean; REQUIRE(mon::close(g2->getGridData("height")[y][xx], want, 1e-5), "update:grid", "cell " << xx << "," << y << " is " << g2->getGridData("height")[y][xx] << ", expected " << want); }
        REQUIRE(p2->vertices.size() == p->vertices.size(), "update:cloud", p2->vertices.size() << " of " << p->vertices.size() << " points merged"); mon::seen("update"); mon::distinct(mon::hashStr(after.begin()->second + text(*e, g2.get()))); return; }
    Dump before = s.save();
    if (k == 2) { // removal of items, with what hangs below them
        std::vector<std::string> a{"env_delete_item", s.path}; EnvPtr e = load(s.path); std::vector<std::string> all; for (auto& i : before) if (i.first != e->getRootNode()->getUniqueId()) all.push_back(i.first);
        for (int n = r.range(1, 3); n-- > 0;) a.push_back(all.empty() || r.chance(.2) ? UNKNOWN : r.pick(all));
        for (size_t i = 2; i < a.size(); i++) if (EnvironmentItem* it = e->getItem(a[i]).get()) { e->detachItem(it, true); mon::seen("delete"); } else mon::seen("delete.unknown");
        Dump want = dump(*e); Res x = run(s.d, a); WORKED(x); SAME(want, s.now(), "delete"); mon::distinct(mon::hashStr(mon::currentLog())); return; }
    std::string f1 = s.d / "a.dot", f2 = s.d / "b.dot"; Res x = run(s.d, {"env_graphviz", s.path, f1}); WORKED(x); { EnvPtr e = load(s.path); GraphViz gv; gv.writeToFile(e.get(), f2); }
    REQUIRE(!slurp(f1).empty() && slurp(f1).size() == slurp(f2).size(), "graphviz", "the drawing of the program differs from that of the library"); SAME(before, s.now(), "graphviz:scene"); mon::seen("graphviz");
}

SECTION(create_grid, 600, 4000)
{
    auto& r = c.rng; Scene s(r); MLSGrid* m = r.chance(.5) ? s.mls() : 0; if (m && r.chance(.15)) m->getFrameNode()->getEnvironment()->detachFrameNode(m, m->getFrameNode()); Dump before = s.save();
    static const char* types[] = {"Grid_d", "Grid_f", "Grid_h", "Grid_s", "Grid_t", "Grid_i", "Grid_j", "envire::ElevationGrid", "envire::MLSGrid", "envire::TraversabilityGrid", "envire::Grid_d"};
    std::string type = types[r.u(11)]; int w, h; double sx, sy, ox = 0, oy = 0, dx, dy; s.geometry(w, h, sx, sy, dx, dy); FrameNode* f = s.env.getRootNode(); std::vector<std::string> bands, a{"env_create_grid", s.path, type}; bool bad = false; std::string why;
    if (m && r.chance(.3)) { a.push_back("-map"); a.push_back(r.chance(.15) ? (bad = true, UNKNOWN) : s.id(m)); w = m->getWidth(); h = m->getHeight(); sx = m->getScaleX(); sy = m->getScaleY(); ox = m->getOffsetX(); oy = m->getOffsetY(); if (m->getFrameNode()) f = m->getFrameNode(); why = m->getFrameNode() ? "grid.map" : "grid.map.frameless"; }
    else {
        for (double v : {double(w), double(h), sx, sy}) a.push_back(num(v));
        why = "grid.plain"; bool off = r.chance(.4); if (off) { ox = dx; oy = dy; a.push_back(num(ox)); a.push_back(num(oy)); why = "grid.offset"; }
        if (r.chance(.5)) { f = s.frame(); a.push_back("-frame"); why += ".frame"; if (r.chance(.08)) { bad = true; if (r.chance(.6)) a.push_back(UNKNOWN); } else { a.push_back(s.id(f)); if (type.substr(0, 5) == "Grid_" && r.chance(.4)) { a.push_back("-bands"); for (int n = r.range(1, 3); n-- > 0;) { bands.push_back("band" + std::to_string(n)); a.push_back(bands.back()); } why += ".bands"; } } }
        if (!bad && r.chance(.06)) { bad = true; while (a.size() > 6) a.pop_back(); }   // an argument is missing
    }
    if (!bad && r.chance(.06)) { bad = true; a[2] = r.chance(.5) ? "FrameNode" : "NoSuchGrid"; }
    Res x = run(s.d, a);
    if (bad) { REFUSED(x); SAME(before, s.now(), "create_grid:refused"); return; }
    WORKED(x); Dump after = s.now(); SAME(before, without(after, x.id()), "create_grid:others"); REQUIRE(after.count(x.id()), "create_grid:id", "the printed id '" << x.id() << "' does not exist");
    EnvPtr e = load(s.path); auto g = e->getItem<GridBase>(x.id()); REQUIRE(g, "create_grid:type", "no grid"); std::string cn = g->getClassName(), tn = type.substr(0, 8) == "envire::" ? type.substr(8) : type;
    REQUIRE(cn == tn || cn == "envire::" + tn, "create_grid:type", "a " << cn << " instead of a " << type);
    REQUIRE(int(g->getWidth()) == w && int(g->getHeight()) == h && mon::close(g->getScaleX(), sx, 1e-9) && mon::close(g->getScaleY(), sy, 1e-9) && mon::close(g->getOffsetX(), ox, 1e-9) && mon::close(g->getOffsetY(), oy, 1e-9), "create_grid:geometry", g->getWidth() << "x" << g->getHeight() << " cells " << g->getScaleX() << " " << g->getScaleY() << " offset " << g->getOffsetX() << " " << g->getOffsetY());
    REQUIRE(g->getFrameNode() && s.id(g->getFrameNode()) == s.id(f), "create_grid:frame", "in the frame " << (g->getFrameNode() ? s.id(g->getFrameNode()) : "-") << ", expected " << s.id(f));
    for (auto& b : bands) REQUIRE(text(*e, g.get()).find(" band " + b + ":") != std::string::npos, "create_grid:band", "no band " << b);
    mon::seen(why); mon::distinct(mon::hashStr(after[x.id()]));
}

namespace {
template <class T> void raster(Scene& s, const std::string& file, int w, int h, double sx, double sy, double tx, double ty, std::vector<double>& v, GDALDataType gt)
{
    GDALDataset* d = GetGDALDriverManager()->GetDriverByName("GTiff")->Create(file.c_str(), w, h, 1, gt, 0); double g[6] = {tx, sx, 0, ty, 0, sy}; d->SetGeoTransform(g); std::vector<T> b;
    for (int i = 0; i < w * h; i++) { b.push_back(T(s.r.range(0, 200))); v.push_back(b.back()); } d->GetRasterBand(1)->RasterIO(GF_Write, 0, 0, w, h, b.data(), w, h, gt, 0, 0); GDALClose(d);
}
template <class T> bool values(EnvironmentItem* i, const std::string& band, const std::vector<double>& v) { Grid<T>* g = dynamic_cast<Grid<T>*>(i); if (!g) return false; REQUIRE(g->hasBand(band), "add_grid:band", "no band " << band); auto& a = g->getGridData(band); for (size_t k = 0; k < v.size(); k++) REQUIRE(a[k / g->getWidth()][k % g->getWidth()] == v[k], "add_grid:value", "cell " << k << " is " << double(a[k / g->getWidth()][k % g->getWidth()]) << ", expected " << v[k]); return true; }
}
SECTION(add_grid, 600, 4000)
{
    auto& r = c.rng; Scene s(r); int w, h; double sx, sy, tx, ty; s.geometry(w, h, sx, sy, tx, ty); std::string file = s.d / "in.tiff"; std::vector<double> v; int kind = r.u(3); static const char* types[] = {"Grid_d", "Grid_f", "Grid_h"};
    if (kind == 0) raster<double>(s, file, w, h, sx, sy, tx, ty, v, GDT_Float64); else if (kind == 1) raster<float>(s, file, w, h, sx, sy, tx, ty, v, GDT_Float32); else raster<uint8_t>(s, file, w, h, sx, sy, tx, ty, v, GDT_Byte);
    bool off = tx != 0 || ty != 0; GridBase* target = 0; bool other = r.chance(.15);   // a map of another type or size
    { double ox = r.range(0, 3), oy = r.range(0, 3); int k2 = other && r.chance(.5) ? (kind + 1) % 3 : kind; int w2 = other && k2 == kind ? w + r.range(1, 2) : w; if (k2 == 0) target = s.band(new Grid<double>(w2, h, sx, sy, ox, oy), "old", 0, 9); else if (k2 == 1) target = s.band(new Grid<float>(w2, h, sx, sy, ox, oy), "old", 0, 9); else target = s.band(new Grid<uint8_t>(w2, h, sx, sy, ox, oy), "old", 0, 9); s.place(target, "target"); }
    Dump before = s.save(); std::vector<std::string> a{"env_add_grid", s.path, file, "data"}; int form = r.u(5); FrameNode* f = s.frame(); bool typed = form == 3 || form == 4, bad = false; int wrong = r.chance(.15) ? r.range(1, 4) : 0;
    if (typed) a.push_back(wrong == 1 ? (bad = true, "FrameNode") : types[kind]);
    if (form == 1 || form == 3) { a.push_back("-frame"); if (wrong == 2) { bad = true; a.push_back(UNKNOWN); } else if (wrong == 3) bad = true; else a.push_back(s.id(f)); }
    if (form == 2) { a.push_back("-map"); if (wrong == 2) { bad = true; a.push_back(UNKNOWN); } else if (wrong == 3) bad = true; else { a.push_back(s.id(target)); if (other) bad = true; } }
    if (wrong == 4) { bad = true; a[2] = s.d / "absent.tiff"; }
    Res x = run(s.d, a);
    if (bad) { REFUSED(x); SAME(before, s.now(), "add_grid:refused"); mon::seen("add.refused"); return; }
    WORKED(x); Dump after = s.now(); EnvPtr e = load(s.path); auto g = e->getItem<GridBase>(x.id()); REQUIRE(g, "add_grid:id", "the printed id '" << x.id() << "' is no grid");
    Dump rest = without(after, x.id());
    if (form == 2) { REQUIRE(x.id() == s.id(target), "add_grid:id", "printed " << x.id()); SAME(without(before, x.id()), rest, "add_grid:others"); REQUIRE(after[x.id()].find(before[x.id()].substr(before[x.id()].find(" band old"))) != std::string::npos, "add_grid:old", "the other bands changed: " << after[x.id()]); mon::seen("add.map"); }
    else {
        FrameNode* gf = g->getFrameNode(); REQUIRE(gf, "add_grid:frame", "in no frame");
        if (form == 1 || form == 3) { REQUIRE(s.id(gf) == s.id(f), "add_grid:frame", "in the frame " << s.id(gf) << ", expected " << s.id(f)); mon::seen("add.frame"); }
        else if (!off) { REQUIRE(gf == e->getRootNode(), "add_grid:frame", "in the frame " << s.id(gf) << ", expected the root"); mon::seen("add.root"); }
        else { REQUIRE(!before.count(s.id(gf)) && gf->getParent() == e->getRootNode(), "add_grid:frame", "in the frame " << s.id(gf)); REQUIRE((gf->getTransform().matrix() - Affine3d(Translation3d(tx, ty, 0)).matrix()).norm() < 1e-9, "add_grid:place", "placed at " << gf->getTransform().translation().transpose() << ", expected " << tx << " " << ty); rest.erase(s.id(gf)); mon::seen("add.offset"); }
        SAME(before, rest, "add_grid:others"); REQUIRE(int(g->getWidth()) == w && int(g->getHeight()) == h && mon::close(g->getScaleX(), sx, 1e-9) && mon::close(g->getScaleY(), sy, 1e-9), "add_grid:geometry", g->getWidth() << "x" << g->getHeight()); if (typed) mon::seen("add.typed"); }
    REQUIRE(values<double>(g.get(), "data", v) || values<float>(g.get(), "data", v) || values<uint8_t>(g.get(), "data", v), "add_grid:type", "of type " << g->getClassName()); mon::distinct(mon::hashStr(after[x.id()]));
}

SECTION(convert, 750, 5000)
{
    auto& r = c.rng; Scene s(r); int k = r.u(4); bool bad = r.chance(.12); std::vector<std::string> a; MLSGrid* m = s.mls(k == 3, k == 3 ? 5 : 7); EnvPtr e; std::string opid;
    auto expect = [&](const Dump& before, Res& x) { WORKED(x); Dump after = s.now(); opid = x.id(); REQUIRE(after.count(opid) && !before.count(opid), "convert:id", "the printed id '" << opid << "' is no new item"); return after; };
    if (k == 0) { // grid to surface
        Grid<float>* g = s.band(new Grid<float>(m->getWidth(), m->getHeight(), m->getScaleX(), m->getScaleY(), m->getOffsetX(), m->getOffsetY()), "z", -2, 2); s.name(g, "g"); s.env.attachItem(g); g->setFrameNode(m->getFrameNode()); m->clear(); Dump before = s.save();
        a = {"env_grid_to_mls", s.path, s.id(g), "z", s.id(m)}; if (bad) a[r.one({2, 4})] = r.chance(.5) ? UNKNOWN : s.id(s.env.getRootNode()); Res x = run(s.d, a); if (bad) { REFUSED(x); SAME(before, s.now(), "convert:refused"); return; }
        Dump after = expect(before, x); e = load(s.path); auto g2 = e->getItem<Grid<float>>(s.id(g)); auto m2 = e->getItem<MLSGrid>(s.id(m)); REQUIRE(g2 && m2, "convert:items", "an item is gone");
        for (size_t y = 0; y < m2->getHeight(); y++) for (size_t xx = 0; xx < m2->getWidth(); xx++) { auto it = m2->beginCell(xx, y); REQUIRE(it != m2->endCell() && mon::close(it->mean, g->getGridData("z")[y][xx], 1e-5), "convert:surface", "cell " << xx << "," << y << " has the wrong height"); }
        SAME(without(before, s.id(m)), without(without(after, opid), s.id(m)), "convert:others"); REQUIRE(e->getItem<GridFloatToMLS>(opid), "convert:op", "no operator"); mon::seen("convert.grid_to_mls"); }
    else if (k == 1) { // surface to grid
        Grid<double>* g = s.band(new Grid<double>(m->getWidth(), m->getHeight(), m->getScaleX(), m->getScaleY(), m->getOffsetX(), m->getOffsetY()), "z", 50, 60); s.name(g, "g"); s.env.attachItem(g); g->setFrameNode(m->getFrameNode()); Dump before = s.save();
        a = {"env_mls_to_grid", s.path, s.id(m), s.id(g), "z"}; if (bad) a[r.one({2, 3})] = r.chance(.5) ? UNKNOWN : s.id(s.env.getRootNode()); Res x = run(s.d, a); if (bad) { REFUSED(x); SAME(before, s.now(), "convert:refused"); return; }
        Dump after = expect(before, x); e = load(s.path); auto g2 = e->getItem<Grid<double>>(s.id(g)); REQUIRE(g2 && e->getItem<MLSToGrid>(opid), "convert:items", "an item is gone");
        for (size_t y = 0; y < m->getHeight(); y++) for (size_t xx = 0; xx < m->getWidth(); xx++) { double top = -1e9; for (auto it = m->beginCell(xx, y); it != m->endCell(); ++it) top = std::max<double>(top, it->mean); double want = top < -1e8 ? g->getGridData("z")[y][xx] : top; REQUIRE(mon::close(g2->getGridData("z")[y][xx], want, 1e-5), "convert:grid", "cell " << xx << "," << y << " is " << g2->getGridData("z")[y][xx] << ", expected " << want); }
        SAME(without(before, s.id(g)), without(without(after, opid), s.id(g)), "convert:others"); mon::seen("convert.mls_to_grid"); }
    else if (k == 2) { // light
        int w, h; double sx, sy, ox, oy; s.geometry(w, h, sx, sy, ox, oy); ElevationGrid* g = s.place(new ElevationGrid(w, h, sx, sy, ox, oy), "dem"); s.band<double>(g, ElevationGrid::ELEVATION_MAX, 0, 1); s.band<double>(g, ElevationGrid::ELEVATION_MIN, 0, 1); Dump before = s.save(); Vector3d light(r.range(-20, 20), r.range(-20, 20), r.range(1, 9)); double dia = r.range(0, 3);
        a = {"env_grid_illumination", s.path, s.id(g), "light", num(light.x()), num(light.y()), num(light.z()), num(dia)}; if (bad) a[2] = r.chance(.5) ? UNKNOWN : s.id(s.env.getRootNode()); Res x = run(s.d, a); if (bad) { REFUSED(x); SAME(before, s.now(), "convert:refused"); return; }
        Dump after = expect(before, x); { EnvPtr e2 = load(s.path); REQUIRE(e2->getItem<GridIllumination>(opid), "convert:op", "no operator"); SAME(without(before, s.id(g)), without(without(after, opid), s.id(g)), "convert:others"); }
        GridIllumination* op = new GridIllumination; s.env.attachItem(op); op->setOutputBand("light"); op->setLightSource(light, dia); op->addOutput(g); { Quiet q; op->updateAll(); s.env.serialize(s.d / "ref"); } e = load(s.d / "ref"); REQUIRE(dump(*e)[s.id(g)] == after[s.id(g)], "convert:light", "the band is " << after[s.id(g)].substr(0, 500) << ", expected " << dump(*e)[s.id(g)].substr(0, 500)); mon::seen("convert.light"); }
    else { // cloud of a surface
        if (r.chance(.2)) for (size_t y = 0; y < m->getHeight(); y++) for (size_t x = 0; x < m->getWidth(); x++) m->insertTail(x, y, MLSGrid::SurfacePatch(9, .1)); bool explicitId = r.chance(.5); MLSGrid* second = r.chance(.3) ? s.mls() : 0; Dump before = s.save(); a = {"env_mls_to_pointcloud", s.path}; if (explicitId) a.push_back(bad ? UNKNOWN : s.id(m));
        Res x = run(s.d, a); if ((explicitId && bad) || (!explicitId && second)) { REFUSED(x); SAME(before, s.now(), "convert:refused"); mon::seen("convert.ambiguous"); return; }
        WORKED(x); e = load(s.path); Dump after = s.now(); std::vector<Pointcloud*> pc; for (Pointcloud* p : e->getItems<Pointcloud>()) if (!before.count(s.id(p))) pc.push_back(p); REQUIRE(pc.size() == 1, "convert:cloud", pc.size() << " clouds were added"); SAME(before, without(after, s.id(pc[0])), "convert:others");
        REQUIRE(pc[0]->getFrameNode() && s.id(pc[0]->getFrameNode()) == s.id(m->getFrameNode()), "convert:frame", "in another frame"); std::vector<Vector3d> want; for (size_t y = 0; y < m->getHeight(); y++) for (size_t xx = 0; xx < m->getWidth(); xx++) for (auto it = m->beginCell(xx, y); it != m->endCell(); ++it) want.push_back(Vector3d((xx + .5) * m->getScaleX() + m->getOffsetX(), (y + .5) * m->getScaleY() + m->getOffsetY(), it->mean));
        REQUIRE(want.size() == pc[0]->vertices.size(), "convert:points", pc[0]->vertices.size() << " points, expected " << want.size()); for (auto& p : want) { bool ok = false; for (auto& q : pc[0]->vertices) ok = ok || (p - q).norm() < 1e-4; REQUIRE(ok, "convert:point", "no point at " << p.transpose()); } mon::seen("convert.cloud"); }
    mon::distinct(mon::hashStr(mon::currentLog() + opid));
}

SECTION(terrain, 600, 4000)
{
    auto& r = c.rng; Scene s(r); bool flat = r.chance(.5);
    if (flat) { // slopes
        MLSGrid* m = s.mls(true); bool explicitId = r.chance(.5), second = r.chance(.2); if (second) s.mls(); bool bad = r.chance(.1); Dump before = s.save(); std::vector<std::string> a{"env_mls_slopes", s.path}; if (explicitId) a.push_back(bad ? UNKNOWN : s.id(m)); Res x = run(s.d, a);
        if ((explicitId && bad) || (!explicitId && second)) { REFUSED(x); SAME(before, s.now(), "slopes:refused"); return; }
        WORKED(x); EnvPtr e = load(s.path); Dump after = dump(*e); std::vector<GridBase*> g; std::string op; for (EnvironmentItem* i : e->getItems<EnvironmentItem>()) if (!before.count(s.id(i))) { if (GridBase* q = dynamic_cast<GridBase*>(i)) g.push_back(q); else if (dynamic_cast<MLSSlope*>(i)) op = s.id(i); }
        REQUIRE(g.size() == 1 && !op.empty(), "slopes:items", g.size() << " grids were added"); SAME(before, without(without(after, op), s.id(g[0])), "slopes:others");
        REQUIRE(g[0]->getWidth() == m->getWidth() && g[0]->getHeight() == m->getHeight() && g[0]->getScaleX() == m->getScaleX() && g[0]->getScaleY() == m->getScaleY() && g[0]->getOffsetX() == m->getOffsetX() && g[0]->getOffsetY() == m->getOffsetY() && g[0]->getFrameNode() && s.id(g[0]->getFrameNode()) == s.id(m->getFrameNode()), "slopes:geometry", "the grid does not lie on the surface");
        Grid<float>* ref = new Grid<float>(m->getWidth(), m->getHeight(), m->getScaleX(), m->getScaleY(), m->getOffsetX(), m->getOffsetY()); s.env.attachItem(ref); ref->setFrameNode(m->getFrameNode()); MLSSlope* ro = new MLSSlope; s.env.attachItem(ro); ro->addInput(m); ro->addOutput(ref); { Quiet q; ro->updateAll(); }
        Grid<float>* gf = dynamic_cast<Grid<float>*>(g[0]); REQUIRE(gf, "slopes:type", "a " << g[0]->getClassName());
        for (const std::string& b : {"mean_slope", "max_step", "corrected_max_step"}) for (size_t y = 0; y < m->getHeight(); y++) for (size_t xx = 0; xx < m->getWidth(); xx++) { REQUIRE(gf->hasBand(b), "slopes:band", "no band " << b); float p = gf->getGridData(b)[y][xx], q = ref->getGridData(b)[y][xx]; REQUIRE(p == q || (std::isnan(p) && std::isnan(q)) || mon::close(p, q, 1e-4), "slopes:value", b << " of " << xx << "," << y << " is " << p << ", expected " << q); }
        mon::seen("slopes"); mon::distinct(mon::hashStr(after[s.id(g[0])])); return; }
    int w, h; double sx, sy, ox, oy; s.geometry(w, h, sx, sy, ox, oy); Grid<float>* g = s.place(new Grid<float>(w, h, sx, sy, ox, oy), "g"); bool slope = r.chance(.8), step = r.chance(.8); if (slope) s.band(g, "mean_slope", 0, 1); if (step) s.band(g, "corrected_max_step", 0, .5);
    Dump before = s.save(); double maxSlope = r.real(.3, .9), minWidth = r.one({0., .5, 1.5}), clear = r.one({.1, .3, 0.}); int classes = r.range(1, 12), n = r.range(0, 3); std::vector<std::string> a{"env_traversability", s.path, num(maxSlope)};
    if (n > 0) a.push_back(num(classes)); else classes = 10; if (n > 1) a.push_back(num(minWidth)); else minWidth = .5; if (n > 2) a.push_back(num(clear)); else clear = 0; maxSlope = atof(a[2].c_str());
    Res x = run(s.d, a); if (!slope && !step) { RAN(x); mon::seen("trav.nothing"); return; } WORKED(x); EnvPtr e = load(s.path); Dump after = dump(*e); std::vector<TraversabilityGrid*> t; std::string op; for (EnvironmentItem* i : e->getItems<EnvironmentItem>()) if (!before.count(s.id(i))) { if (TraversabilityGrid* q = dynamic_cast<TraversabilityGrid*>(i)) t.push_back(q); else if (dynamic_cast<SimpleTraversability*>(i)) op = s.id(i); }
    REQUIRE(t.size() == 1 && !op.empty(), "trav:items", t.size() << " grids were added"); SAME(before, without(without(after, op), s.id(t[0])), "trav:others");
    REQUIRE(int(t[0]->getWidth()) == w && int(t[0]->getHeight()) == h && t[0]->getScaleX() == sx && t[0]->getScaleY() == sy && t[0]->getOffsetX() == ox && t[0]->getOffsetY() == oy && t[0]->getFrameNode() && s.id(t[0]->getFrameNode()) == s.id(g->getFrameNode()), "trav:geometry", "the map does not lie on its source");
    TraversabilityGrid* ref = new TraversabilityGrid(w, h, sx, sy, ox, oy); s.env.attachItem(ref); ref->setFrameNode(g->getFrameNode()); SimpleTraversability* ro = new SimpleTraversability(maxSlope, classes, minWidth, clear); s.env.attachItem(ro); if (slope) ro->setSlope(g, "mean_slope"); if (step) ro->setMaxStep(g, "corrected_max_step"); ro->setOutput(ref, "traversability_class"); { Quiet q; ro->updateAll(); }
    for (int y = 0; y < h; y++) for (int xx = 0; xx < w; xx++) { int p = t[0]->getGridData("traversability_class")[y][xx], q = ref->getGridData("traversability_class")[y][xx]; REQUIRE(p == q, "trav:class", "cell " << xx << "," << y << " is of class " << p << ", expected " << q); }
    mon::seen("trav.args" + std::to_string(n)); mon::distinct(mon::hashStr(after[s.id(t[0])]));
}

SECTION(clouds, 600, 4000)
{
    auto& r = c.rng; int k = r.u(4); Scene s(r, k != 3); std::vector<Pointcloud*> pcs; if (r.chance(.3)) s.env.getRootNode()->setTransform(pose(r, true));
    std::string out = s.d / "out"; auto toRoot = [&](CartesianMap* m, const Vector3d& v) { Vector3d p = v; for (FrameNode* f = m->getFrameNode(); f && f != s.env.getRootNode(); f = const_cast<FrameNode*>(f->getParent())) p = f->getTransform() * p; return p; };
    if (k == 0) { // surface of clouds
        for (int n = r.range(1, 3); n-- > 0;) pcs.push_back(s.cloud()); if (r.chance(.3)) { auto& u = pcs[0]->getVertexData<double>(Pointcloud::VERTEX_VARIANCE); u.assign(pcs[0]->vertices.size(), .01); } s.save(); double res = r.one({.1, .25, .5}), var = r.one({.01, .1}), gap = r.one({.3, .5, 1.}), thick = r.one({.05, .2}); int n = r.range(0, 5); std::vector<std::string> a{"env_mls", s.path, out}; bool area = n == 5; double ex[4];
        if (n > 0) a.push_back(num(res)); else { res = .05; } if (n > 1) a.push_back(num(var)); else var = res; if (n > 2) a.push_back(num(gap)); else gap = .5; if (n > 3) a.push_back(num(thick)); else thick = res; if (area) { ex[0] = r.range(-4, 0); ex[1] = r.range(-4, 0); ex[2] = ex[0] + r.range(1, 6); ex[3] = ex[1] + r.range(1, 6); std::ostringstream o; o << ex[0] << " " << ex[1] << " " << ex[2] << " " << ex[3]; a.push_back(o.str()); }
        Res x = run(s.d, a); WORKED(x); EnvPtr e = load(out); std::vector<MLSGrid*> m = e->getItems<MLSGrid>(); REQUIRE(m.size() == 1 && m[0]->getFrameNode() && m[0]->getFrameNode()->getParent() == e->getRootNode() && e->getItems<Pointcloud>().empty(), "mls:items", m.size() << " surfaces"); MLSGrid* g = m[0];
        if (!area) { ex[0] = ex[1] = 1e9; ex[2] = ex[3] = -1e9; }
        Vector3d at = g->getFrameNode()->getTransform().translation(); double x1 = at.x() + g->getOffsetX() + g->getWidth() * g->getScaleX(), y1 = at.y() + g->getOffsetY() + g->getHeight() * g->getScaleY(), x0 = at.x() + g->getOffsetX(), y0 = at.y() + g->getOffsetY();
        REQUIRE(mon::close(g->getScaleX(), res, 1e-9) && mon::close(g->getScaleY(), res, 1e-9) && mon::close(g->getConfig().gapSize, gap, 1e-6) && mon::close(g->getConfig().thickness, thick, 1e-6), "mls:settings", "cells of " << g->getScaleX() << ", gap " << g->getConfig().gapSize << ", thickness " << g->getConfig().thickness << ", expected " << res << ", " << gap << ", " << thick);
        if (area) REQUIRE(mon::close(x0, ex[0], 1e-6) && mon::close(y0, ex[1], 1e-6) && x1 > ex[2] - res - 1e-6 && y1 > ex[3] - res - 1e-6 && x1 < ex[2] + 1.01 * res && y1 < ex[3] + 1.01 * res, "mls:area", "the surface covers " << x0 << ".." << x1 << " and " << y0 << ".." << y1);
        for (Pointcloud* p : pcs) for (auto& v : p->vertices) { Vector3d q = toRoot(p, v); if (area && !(q.x() > x0 + 1e-6 && q.x() < x1 - 1e-6 && q.y() > y0 + 1e-6 && q.y() < y1 - 1e-6)) continue; int cx = std::floor((q.x() - x0) / res + (area ? 0 : 0)), cy = std::floor((q.y() - y0) / res); if (!area) { cx = std::max(cx, 0); cy = std::max(cy, 0); }
            REQUIRE(cx < int(g->getWidth()) && cy < int(g->getHeight()), "mls:cover", "the point " << q.transpose() << " lies outside of the surface, which covers " << x0 << ".." << x1 << " and " << y0 << ".." << y1);
            if (q.x() - x0 < 1e-6 || q.y() - y0 < 1e-6) continue;   // inside or outside by rounding
            // the only point of its cell is the surface there; several are joined if they are close to each other
            int near = 0; for (Pointcloud* p2 : pcs) for (auto& v2 : p2->vertices) { Vector3d q2 = toRoot(p2, v2); near += q2.x() > x0 + cx * res - 1e-5 && q2.x() < x0 + (cx + 1) * res + 1e-5 && q2.y() > y0 + cy * res - 1e-5 && q2.y() < y0 + (cy + 1) * res + 1e-5; } double tol = near <= 1 ? 1e-4 : 2 * gap + 2 * (thick + 3 * std::sqrt(std::max(var, .01))); if (near <= 1) mon::seen("mls.single");
            bool ok = false; for (int ux = std::max(0, cx - 1); ux <= std::min<int>(cx + 1, g->getWidth() - 1); ux++) for (int uy = std::max(0, cy - 1); uy <= std::min<int>(cy + 1, g->getHeight() - 1); uy++) { if ((ux != cx && std::abs(q.x() - x0 - std::max(ux, cx) * res) > 1e-6) || (uy != cy && std::abs(q.y() - y0 - std::max(uy, cy) * res) > 1e-6)) continue; for (auto it = g->beginCell(ux, uy); it != g->endCell(); ++it) ok = ok || (q.z() <= it->mean + tol && q.z() >= it->mean - (it->isHorizontal() ? 0 : it->height) - tol); }
            REQUIRE(ok, "mls:point", "no surface near the point " << q.transpose() << " in cell " << cx << "," << cy << ", remainder " << (q.x() - x0) / res - cx << "," << (q.y() - y0) / res - cy << " (" << near << " points, of " << g->getWidth() << "x" << g->getHeight() << " cells, root at " << s.env.getRootNode()->getTransform().translation().transpose() << ")"); mon::seen("mls.point"); }
        mon::seen(area ? "mls.area" : "mls"); mon::distinct(mon::hashStr(text(*e, g))); }
    else if (k == 1) { // elevation of clouds
        for (int n = r.range(1, 3); n-- > 0;) pcs.push_back(s.cloud()); Dump before = s.save(); Res x = run(s.d, {"env_dem", s.path, out}); WORKED(x); EnvPtr e = load(out); std::vector<ElevationGrid*> m = e->getItems<ElevationGrid>(); REQUIRE(m.size() == 1 && m[0]->getFrameNode() && m[0]->getFrameNode()->getParent() == e->getRootNode(), "dem:items", m.size() << " grids"); ElevationGrid* g = m[0]; SAME(before, s.now(), "dem:source");
        Vector3d at = g->getFrameNode()->getTransform().translation(); std::map<std::pair<int, int>, double> top; for (Pointcloud* p : pcs) for (auto& v : p->vertices) { Vector3d q = toRoot(p, v) - at; int cx = std::floor(q.x() / g->getScaleX()), cy = std::floor(q.y() / g->getScaleY()); bool edge = std::abs(q.x() / g->getScaleX() - std::round(q.x() / g->getScaleX())) < 1e-5 || std::abs(q.y() / g->getScaleY() - std::round(q.y() / g->getScaleY())) < 1e-5;
            REQUIRE(cx < int(g->getWidth()) && cy < int(g->getHeight()) && cx >= -1 && cy >= -1, "dem:cover", "the point " << q.transpose() << " lies outside of the grid of " << g->getWidth() << "x" << g->getHeight()); if (edge) continue; auto key = std::make_pair(cx, cy); if (!top.count(key) || top[key] < q.z()) top[key] = q.z(); }
        for (auto& t : top) { double v = g->getGridData(ElevationGrid::ELEVATION_MAX)[t.first.second][t.first.first]; REQUIRE(v >= t.second - at.z() * 0 - 1e-6, "dem:height", "cell " << t.first.first << "," << t.first.second << " is at " << v << ", expected " << t.second); mon::seen("dem.cell"); } mon::distinct(mon::hashStr(mon::currentLog() + num(top.size()))); }
    else if (k == 2) { // one simplified cloud
        for (int n = r.range(1, 3); n-- > 0;) pcs.push_back(s.cloud(30)); Dump before = s.save(); double cell = .05; std::vector<std::string> a{"env_simplify", s.path, out}; if (r.chance(.6)) { cell = r.one({.05, .5, 1.5}); a.push_back(num(cell)); } else mon::seen("simplify.default"); Res x = run(s.d, a); WORKED(x); EnvPtr e = load(out); std::vector<Pointcloud*> m = e->getItems<Pointcloud>(); REQUIRE(m.size() == 1 && m[0]->getFrameNode() == e->getRootNode(), "simplify:items", m.size() << " clouds"); SAME(before, s.now(), "simplify:source");
        std::vector<Vector3d> all; { EnvPtr e0 = load(s.path); for (Pointcloud* p0 : e0->getItems<Pointcloud>()) for (Pointcloud* p : pcs) if (s.id(p) == s.id(p0)) for (auto& v : p->vertices) all.push_back(toRoot(p, v)); }
        Environment ref; Pointcloud* in = new Pointcloud; Pointcloud* rout = new Pointcloud; in->vertices = all; ref.attachItem(in); ref.attachItem(rout); in->setFrameNode(ref.getRootNode()); rout->setFrameNode(ref.getRootNode()); SimplifyPointcloud* op = new SimplifyPointcloud; ref.attachItem(op); op->addInput(in); op->addOutput(rout); op->setSimplifyCellSize(cell); { Quiet q; op->updateAll(); }
        REQUIRE(rout->vertices.size() == m[0]->vertices.size(), "simplify:points", m[0]->vertices.size() << " points, expected " << rout->vertices.size()); for (size_t i = 0; i < rout->vertices.size(); i++) REQUIRE((rout->vertices[i] - m[0]->vertices[i]).norm() < 1e-6, "simplify:point", "point " << i << " is at " << m[0]->vertices[i].transpose() << ", expected " << rout->vertices[i].transpose());
        mon::seen("simplify"); mon::distinct(mon::hashStr(text(*e, m[0]))); }
    else { // poses for and from a registration program
        int n = r.range(1, 4); for (int i = 0; i < n; i++) { Pointcloud* p = new Pointcloud; if (r.chance(.5)) p->setUniqueId("/" + std::to_string(50 + 7 * i)); FrameNode* f = new FrameNode; s.env.attachItem(f); s.frame()->addChild(f); f->setTransform(pose(r, false)); s.env.attachItem(p); p->setFrameNode(f); p->vertices.push_back(Vector3d(1, 2, 3)); pcs.push_back(p); }
        Dump before = s.save(); std::vector<std::string> a{"env_slam6d", "generate", s.path, s.d / "slam"}; std::vector<Pointcloud*> order = pcs; if (r.chance(.5)) { std::random_shuffle(order.begin(), order.end(), [&](int k) { return int(r.u(k)); }); order.resize(r.range(1, n)); std::string l; for (Pointcloud* p : order) l += s.id(p) + " "; if (r.chance(.2)) l += UNKNOWN; a.push_back(l); mon::seen("slam.ids"); } else std::sort(order.begin(), order.end(), [](Pointcloud* p, Pointcloud* q) { return p->getUniqueIdNumericalSuffix() < q->getUniqueIdNumericalSuffix(); });
        Res x = run(s.d, a); WORKED(x); SAME(before, s.now(), "slam:source"); Matrix3d S = Matrix3d::Zero(); S(0, 1) = S(1, 2) = S(2, 0) = 1;
        auto pre = [&](size_t i) { char b[32]; snprintf(b, 32, "slam/scan%03d", int(i)); return s.d / b; };
        for (size_t i = 0; i < order.size(); i++) { Affine3d t = order[i]->getFrameNode()->getTransform(); std::ifstream f((pre(i) + ".pose").c_str()); Vector3d p, o; f >> p[0] >> p[1] >> p[2] >> o[0] >> o[1] >> o[2]; REQUIRE(f, "slam:pose", "no pose of scan " << i); REQUIRE((p - S * t.translation()).norm() < 1e-4, "slam:position", "scan " << i << " at " << p.transpose() << ", expected " << (S * t.translation()).transpose());
            Matrix3d R = (AngleAxisd(o[0], Vector3d::UnitX()) * AngleAxisd(o[1], Vector3d::UnitY()) * AngleAxisd(o[2], Vector3d::UnitZ())).toRotationMatrix(); REQUIRE((R - S * t.linear() * S.transpose()).norm() < 1e-4, "slam:orientation", "scan " << i << " is turned otherwise"); std::istringstream id(slurp(pre(i) + ".id")); std::string sid; id >> sid; REQUIRE(sid == s.id(order[i]), "slam:id", "scan " << i << " is " << sid << ", expected " << s.id(order[i]));
            Pointcloud q; std::ifstream ply((pre(i) + ".ply").c_str()); REQUIRE(ply && q.readPly(pre(i) + ".ply", ply) && q.vertices == order[i]->vertices, "slam:link", "scan " << i << " has no points"); mon::seen("slam.scan"); }
        REQUIRE(!fs::exists(pre(order.size()) + ".pose"), "slam:more", "more scans than clouds"); Dump want = before; std::set<size_t> moved;
        for (size_t i = 0; i < order.size(); i++) if (r.chance(.7)) { Affine3d t = pose(r, false), last = t; last.translation() = S * t.translation(); last.linear() = S * t.linear() * S.transpose(); std::ofstream f((pre(i) + ".frames").c_str()); f << std::setprecision(17); for (int l = r.range(0, 2); l-- > 0;) f << "1 0 0 0 0 1 0 0 0 0 1 0 9 9 9 1 2\n"; for (int m = 0; m < 16; m++) f << last.matrix()(m) << " "; f << "2\n"; order[i]->getFrameNode()->setTransform(t); moved.insert(i); }
        if (r.chance(.2)) { std::ofstream((s.d / "slam/scan777.frames").c_str()) << "1 0 0 0 0 1 0 0 0 0 1 0 9 9 9 1 2\n"; if (r.chance(.7)) std::ofstream((s.d / "slam/scan777.id").c_str()) << UNKNOWN << "\n"; mon::seen("slam.stranger"); }
        x = run(s.d, {"env_slam6d", "update", s.path, s.d / "slam"}); WORKED(x); Dump after = s.now(); { Quiet q; s.env.serialize(s.d / "ref"); } { EnvPtr e = load(s.d / "ref"); SAME(dump(*e), after, "slam:update"); } if (!moved.empty()) mon::seen("slam.moved"); mon::distinct(mon::hashStr(mon::currentLog() + num(moved.size()))); }
}

SECTION(paths, 450, 3000)
{
    auto& r = c.rng; int k = r.u(3); Scene s(r);
    if (k == 0) { // heights below a path
        std::vector<MLSGrid*> ms; for (int n = r.range(1, 3); n-- > 0;) ms.push_back(s.mls()); Dump before = s.save(); std::string file = s.d / "path"; std::vector<Vector3d> pts; for (int n = r.range(0, 6); n-- > 0;) { pts.push_back(Vector3d(r.real(-3, 5), r.real(-3, 5), r.real(-1, 1))); if (r.chance(.6)) { MLSGrid* m = r.pick(ms); Vector3d v(m->getOffsetX() + r.real(0, m->getWidth()) * m->getScaleX(), m->getOffsetY() + r.real(0, m->getHeight()) * m->getScaleY(), 0); for (FrameNode const* f = m->getFrameNode(); f && !f->isRoot(); f = f->getParent()) v = f->getTransform() * v; pts.back() = v; } } { std::ofstream f(file.c_str()); f << std::setprecision(17); for (size_t i = 0; i < pts.size(); i++) f << pts[i].transpose() << (i + 1 == pts.size() && r.chance(.3) ? "" : "\n"); }
        Res x = run(s.d, {"env_mls_trajectory", s.path, file}); WORKED(x); EnvPtr e = load(s.path); std::vector<MLSGrid*> ls = e->getItems<MLSGrid>(); std::istringstream in(x.out); std::string line; size_t n = 0;
        while (std::getline(in, line)) { REQUIRE(n < pts.size(), "path:lines", "more lines than the " << pts.size() << " points of the path: " << line); std::istringstream l(line); for (MLSGrid* m : ls) { double got; REQUIRE(l >> got, "path:columns", "too few columns: " << line); Vector3d p = pts[n]; std::vector<FrameNode const*> chain; for (FrameNode const* f = m->getFrameNode(); f; f = f->getParent()) chain.push_back(f); for (size_t i = chain.size(); i-- > 0;) if (i + 1 < chain.size()) p = Affine3d(chain[i]->getTransform()).inverse() * p;
                double ux = (p.x() - m->getOffsetX()) / m->getScaleX(), uy = (p.y() - m->getOffsetY()) / m->getScaleY(); if (std::abs(ux - std::round(ux)) < 1e-6 || std::abs(uy - std::round(uy)) < 1e-6) continue; double top = -1e9; if (ux >= 0 && uy >= 0 && ux < m->getWidth() && uy < m->getHeight()) for (auto it = m->beginCell(int(ux), int(uy)); it != m->endCell(); ++it) top = std::max<double>(top, it->mean);
                REQUIRE(mon::close(got, top, 1e-4, 1e-4), "path:height", "height " << got << " below " << pts[n].transpose() << ", expected " << top); mon::seen(top > -1e8 ? "path.hit" : "path.none"); } n++; }
        REQUIRE(n == pts.size(), "path:lines", n << " lines for " << pts.size() << " points"); SAME(before, s.now(), "path:scene"); mon::distinct(mon::hashStr(x.out)); return; }
    if (k == 1) { // text to ply
        std::string in = s.d / "a.asc", out = s.d / "a.ply"; std::vector<Vector3d> v; { std::ofstream f(in.c_str()); f << std::setprecision(17); for (int n = r.range(0, 30); n-- > 0;) { v.push_back(Vector3d(r.real(-9, 9), r.real(-9, 9), r.real(-9, 9))); f << v.back().transpose() << " " << r.range(0, 255) << "\n"; } } std::vector<std::string> a{"asc2ply", in, out}; bool absent = r.chance(.1); if (absent) a[1] = s.d / "no.asc"; int sampling = 1; if (r.chance(.4)) { sampling = r.range(1, 3); a.push_back(num(sampling)); }
        Res x = run(s.d, a); RAN(x); if (absent) return; WORKED(x); Pointcloud q; std::ifstream f(out.c_str()); REQUIRE(q.readPly(out, f), "asc2ply:file", "not readable"); if (sampling == 1) REQUIRE(q.vertices.size() == v.size(), "asc2ply:points", q.vertices.size() << " of " << v.size() << " points"); size_t j = 0; for (auto& p : q.vertices) { while (j < v.size() && (v[j] - p).norm() > 1e-6) j++; REQUIRE(j < v.size(), "asc2ply:point", "a point at " << p.transpose() << " that was not read"); j++; } mon::seen(sampling == 1 ? "asc2ply" : "asc2ply.sampled"); mon::distinct(mon::hashStr(mon::currentLog()) + v.size()); return; }
    // heights added to an elevation grid; the edges of the area are those of cells
    int w, h; double sx, sy, ox, oy; s.geometry(w, h, sx, sy, ox, oy, 9); ElevationGrid* g = s.place(new ElevationGrid(w, h, sx, sy, ox, oy), "dem"); s.band<double>(g, ElevationGrid::ELEVATION_MAX, 0, 1); s.band<double>(g, ElevationGrid::ELEVATION_MIN, 0, 1); Dump before = s.save(); std::string out = s.d / "out"; std::vector<std::string> a{"env_grid_add_noise", "--input-env=" + s.path, "--output-env=" + out};
    double scale = 1; if (r.chance(.5)) { scale = r.one({.5, 2., -1.}); a.push_back("--scale=" + num(scale)); } int ax = r.range(-2, w), bx = ax + r.range(1, w + 1), ay = r.range(-2, h), by = ay + r.range(1, h + 1); double x0 = ox + ax * sx, x1 = ox + bx * sx, y0 = oy + ay * sy, y1 = oy + by * sy, cx = (x0 + x1) / 2, cy = (y0 + y1) / 2;
    a.push_back("--center=" + num(cx) + "," + num(cy)); a.push_back("--window=" + num(x1 - x0) + "," + num(y1 - y0)); bool cst = r.chance(.4), slope = r.chance(.4), normal = r.chance(.4), sphere = r.chance(.4), noise = r.chance(.15); double angle = r.range(-180, 180), sigma = r.one({.5, 1., 3.}), radius = r.one({.6, 1.3, 4.1});
    if (cst) a.push_back("--const"); if (slope) a.push_back("--slope=" + num(angle)); if (normal) a.push_back("--normal=" + num(sigma)); if (sphere) a.push_back("--sphere=" + num(radius)); if (noise) a.push_back("--noise");
    Res x = run(s.d, a); WORKED(x); SAME(before, s.now(), "noise:source"); EnvPtr e = load(out); Dump after = dump(*e); SAME(without(before, s.id(g)), without(after, s.id(g)), "noise:others"); auto g2 = e->getItem<ElevationGrid>(s.id(g)); REQUIRE(g2, "noise:grid", "the grid is gone"); int changed = 0;
    for (int y = 0; y < h; y++) for (int xx = 0; xx < w; xx++) { double px = ox + (xx + .5) * sx, py = oy + (y + .5) * sy, old = g->getGridData(ElevationGrid::ELEVATION)[y][xx], now = g2->getGridData(ElevationGrid::ELEVATION)[y][xx], want = old; bool in = xx >= ax && xx < bx && y >= ay && y < by;
        if (in) { double d = std::hypot(px - cx, py - cy), al = angle / 180 * M_PI; if (cst) want += scale; if (slope) want += (std::cos(al) * px + std::sin(al) * py) * scale; if (normal) want += std::exp(-d * d / (2 * sigma * sigma)) * scale; if (sphere && d < radius) want += std::sqrt(radius * radius - d * d) * scale; }
        if (noise && in) { REQUIRE(std::abs(now - want) < 7 * std::abs(scale), "noise:noise", "cell " << xx << "," << y << " is " << now << ", without noise " << want); changed += now != want; } else REQUIRE(mon::close(now, want, 2e-4), "noise:height", "cell " << xx << "," << y << " of " << w << "x" << h << (in ? " inside" : " outside") << " is " << now << ", expected " << want); mon::seen(in ? "noise.in" : "noise.out"); }
    mon::distinct(mon::hashStr(after[s.id(g)]));
}
