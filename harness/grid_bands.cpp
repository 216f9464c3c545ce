// Banded grids: storage, copies, min/max, binary and file round trips, GDAL orientation.
#include "mon.hpp"
#include <envire/Core.hpp>
#include <envire/maps/Grids.hpp>
#include <envire/maps/ElevationGrid.hpp>
#include <envire/core/Serialization.hpp>
#include <boost/filesystem.hpp>
#include <memory>
#include <fstream>
using namespace envire;
namespace fs = boost::filesystem;

namespace {
struct Dir { std::string path; Dir() { char t[] = "/tmp/verif-grid-XXXXXX"; path = mkdtemp(t); } ~Dir() { boost::system::error_code e; fs::remove_all(path, e); } };

template <class T> T val(mon::Rng& r) {
    if (r.chance(0.1)) return std::numeric_limits<T>::max();
    if (r.chance(0.1)) return std::numeric_limits<T>::lowest();
    if (std::numeric_limits<T>::is_integer) return (T)r.next();
    return (T)r.real(-1000, 1000) * (r.chance(0.1) ? (T)1e20 : (T)1);
}
template <class T> struct Model { size_t w, h; std::map<std::string, std::vector<T> > bands; std::map<std::string, T> nodata; };

template <class T> void fill(mon::Rng& r, Grid<T>& g, Model<T>& m, const std::string& b) {
    std::vector<T>& v = m.bands[b]; v.resize(m.w * m.h);
    int sign = r.range(0, 3);
    for (size_t i = 0; i < v.size(); i++) { v[i] = val<T>(r); if (sign == 0 && v[i] > T(0)) v[i] = std::numeric_limits<T>::is_signed ? T(-(v[i] / 2)) : v[i]; }
    int how = r.range(0, 2);
    double ox = g.getOffsetX(), oy = g.getOffsetY(), sx = g.getScaleX(), sy = g.getScaleY();
    if (how == 0) { auto& a = g.getGridData(b); for (size_t y = 0; y < m.h; y++) for (size_t x = 0; x < m.w; x++) a[y][x] = v[y * m.w + x]; }
    else if (how == 1) { for (size_t y = 0; y < m.h; y++) for (size_t x = 0; x < m.w; x++) g.getFromRaster(b, x, y) = v[y * m.w + x]; }
    else { for (size_t y = 0; y < m.h; y++) for (size_t x = 0; x < m.w; x++) g.get(b, ox + (x + r.real(0.05, 0.95)) * sx, oy + (y + r.real(0.05, 0.95)) * sy) = v[y * m.w + x]; }
    LOGOP("fill " << b << " by " << how);
}
template <class T> bool eq(T a, T b) { return memcmp(&a, &b, sizeof(T)) == 0; }
template <class T> void same(mon::Rng& r, const Grid<T>& g, const Model<T>& m, const std::string& who, bool geometry = true) {
    REQUIRE(!geometry || (g.getCellSizeX() == m.w && g.getCellSizeY() == m.h), "band:size", who << ": size " << g.getCellSizeX() << "x" << g.getCellSizeY() << " expected " << m.w << "x" << m.h);
    for (auto& b : m.bands) {
        REQUIRE(g.hasBand(b.first), "band:lost", who << ": band '" << b.first << "' is gone");
        auto& a = g.getGridData(b.first);
        REQUIRE(a.shape()[0] == m.h && a.shape()[1] == m.w, "band:shape", who << ": band '" << b.first << "' is " << a.shape()[1] << "x" << a.shape()[0]);
        for (size_t y = 0; y < m.h; y++) for (size_t x = 0; x < m.w; x++) {
            T want = b.second[y * m.w + x];
            REQUIRE(eq<T>(a[y][x], want), "band:value", who << ": band '" << b.first << "' cell " << x << "," << y << " is " << +a[y][x] << " expected " << +want);
            REQUIRE(eq<T>(a.data()[y * m.w + x], want), "band:layout", who << ": memory layout");
        }
        for (int k = 0; k < 5; k++) {
            size_t x = r.u(m.w), y = r.u(m.h); T want = b.second[y * m.w + x];
            REQUIRE(eq<T>(g.getFromRaster(b.first, x, y), want), "band:raster", who << ": getFromRaster " << x << "," << y);
            REQUIRE(eq<T>(g.get(b.first, g.getOffsetX() + (x + r.real(0.05, 0.95)) * g.getScaleX(), g.getOffsetY() + (y + r.real(0.05, 0.95)) * g.getScaleY()), want), "band:get", who << ": get at cell " << x << "," << y);
        }
        auto nd = g.getNoData(b.first); auto it = m.nodata.find(b.first);
        REQUIRE(nd.second == (it != m.nodata.end()), "band:nodata", who << ": nodata of '" << b.first << "' defined " << nd.second);
        if (nd.second) REQUIRE(eq<T>(nd.first, it->second), "band:nodata", who << ": nodata of '" << b.first << "' is " << +nd.first << " expected " << +it->second);
    }
    mon::seen("compared");
}
template <class T> void geoSame(const GridBase& a, const GridBase& b, const std::string& who) {
    REQUIRE(a.getCellSizeX() == b.getCellSizeX() && a.getCellSizeY() == b.getCellSizeY() && a.getScaleX() == b.getScaleX() && a.getScaleY() == b.getScaleY() && a.getOffsetX() == b.getOffsetX() && a.getOffsetY() == b.getOffsetY(), "band:geometry", who << ": geometry differs");
}
const char* names[] = {"grid_data", "b", "elevation_max", "class 2", "42"};

template <class T> void history(mon::Ctx& c) {
    auto& r = c.rng; shim_gdal::open() = 0;
    Model<T> m; m.w = r.range(1, 12); m.h = r.range(1, 12);
    double sx = r.real(0.05, 2), sy = r.real(0.05, 2), ox = r.chance(0.4) ? 0 : r.real(-9, 9), oy = r.chance(0.4) ? 0 : r.real(-9, 9);
    LOGOP("Grid<" << typeid(T).name() << "> " << m.w << "x" << m.h << " " << sx << "," << sy << " " << ox << "," << oy);
    typename Grid<T>::Ptr g(new Grid<T>(m.w, m.h, sx, sy, ox, oy));
    Dir d;
    for (int op = r.range(3, 14); op > 0; op--) {
        int k = r.range(0, 12); std::string b = names[r.u(5)];
        if (k <= 2) { fill(r, *g, m, b); mon::seen("fill"); }
        else if (k == 3) { g->createBand(b); LOGOP("createBand " << b); if (!m.bands.count(b)) { m.bands[b].assign(m.w * m.h, T()); mon::seen("createBand"); } }
        else if (k == 4) { T v = val<T>(r); g->setNoData(b, v); m.nodata[b] = v; LOGOP("nodata " << b); }
        else if (k == 5) { T v = val<T>(r); g->setNoData(v); for (auto& q : m.bands) m.nodata[q.first] = v; LOGOP("nodata all"); }
        else if (k == 6 && m.bands.count(b)) { // references stay valid while others are looked up
            T& x = g->getFromRaster(b, 0, 0); T& y = g->getFromRaster(b, m.w - 1, m.h - 1); T v = val<T>(r), u = val<T>(r); LOGOP("refs " << b);
            (void)g->getGridData(b); x = v; y = u; m.bands[b][0] = v; m.bands[b][m.w * m.h - 1] = u; mon::seen("references");
        }
        else if (k == 7 && m.bands.count(b)) {
            T lo, hi; g->getMinMaxValues(b, lo, hi);
            auto mm = std::minmax_element(m.bands[b].begin(), m.bands[b].end());
            REQUIRE(lo == *mm.first && hi == *mm.second, "band:minmax", "min " << +lo << " max " << +hi << " expected " << +*mm.first << " " << +*mm.second);
            mon::seen(*mm.second < T(0) ? "minmax.negative" : "minmax");
        }
        else if (k == 8 && m.bands.count(b)) { // from another grid
            typename Grid<T>::Ptr o(new Grid<T>(m.w, m.h, sx, sy, ox, oy)); Model<T> om; om.w = m.w; om.h = m.h; std::string s = names[r.u(5)]; fill(r, *o, om, s); if (r.chance(0.5)) { T v = val<T>(r); o->setNoData(s, v); om.nodata[s] = v; }
            if (r.chance(0.4)) b = s;
            GridBase& base = *g; if (b == s) base.copyBandFrom(*o, s); else base.copyBandFrom(*o, s, b);
            m.bands[b] = om.bands[s]; if (om.nodata.count(s)) m.nodata[b] = om.nodata[s];
            fill(r, *o, om, s); LOGOP("copyBandFrom"); mon::seen("copyBand");
            Grid<int16_t> i16(m.w, m.h, sx, sy); Grid<float> f32(m.w, m.h, sx, sy); i16.getGridData("q"); f32.getGridData("q");
            bool bad = mon::throws([&] { if (sizeof(T) == 2) base.copyBandFrom(f32, "q"); else base.copyBandFrom(i16, "q"); });
            REQUIRE(bad && !g->hasBand("q"), "band:copy-type", "a band of another type was copied");
        }
        else if (k == 9) { // copies are independent
            typename Grid<T>::Ptr o; int how = r.range(0, 2);
            if (how == 0) o = g->clone(); else if (how == 1) { o = new Grid<T>(*g); } else { o = new Grid<T>(); o->set(g.get()); }
            same(r, *g, m, "before copy"); same(r, *o, m, std::string("copy") + char(48 + how)); geoSame<T>(*g, *o, "copy"); Model<T> om = m;
            if (r.chance(0.5)) std::swap(o, g);
            fill(r, *o, om, b); LOGOP("copy " << how); same(r, *o, om, "changed copy"); mon::seen("copy");
        }
        else if (k == 10) { // binary event
            g->setUniqueId(r.one({"/g", "/a/b_c"})); EnvireBinaryEvent e(event::ITEM, event::ADD, g->getUniqueId(), ""); BinarySerialization bs, rd;
            REQUIRE(bs.serializeBinaryEvent(g.get(), e), "band:binary", "grid cannot be written");
            EnvironmentItem::Ptr it(rd.unserializeBinaryEvent(e)); Grid<T>* o = dynamic_cast<Grid<T>*>(it.get());
            REQUIRE(o, "band:binary", "grid cannot be read back"); LOGOP("binary");
            size_t n = 0; for (auto& q : m.bands) { (void)q; n++; } REQUIRE(e.binaryStreams.size() == n, "band:binary", e.binaryStreams.size() << " streams for " << n << " bands");
            same(r, *o, m, "binary event"); geoSame<T>(*g, *o, "binary event"); mon::seen("binary");
            if (n && r.chance(0.4)) { EnvireBinaryEvent s = e; size_t q = r.u(n); if (r.chance(0.5)) { s.binaryStreams[q].resize(r.u(s.binaryStreams[q].size())); } else s.binaryStreamNames[q] += "x";
                bool refused = mon::throws([&] { EnvironmentItem::Ptr z(rd.unserializeBinaryEvent(s)); if (!z) throw 1; });
                REQUIRE(refused, "band:truncated", "a grid whose band data is incomplete was read"); mon::seen("binary.truncated"); }
            g->setUniqueId("");
        }
        else if (k == 11 && !m.bands.empty()) { // scene on disk
            Environment env; typename Grid<T>::Ptr o(g->clone()); env.attachItem(o.get()); FrameNode* f = new FrameNode(Eigen::Affine3d(Eigen::Translation3d(1, 2, 3))); env.addChild(env.getRootNode(), f); env.setFrameNode(o.get(), f);
            LOGOP("scene"); env.serialize(d.path + "/s"); std::unique_ptr<Environment> rd(Environment::unserialize(d.path + "/s"));
            Grid<T>* q = rd->getItem<Grid<T> >(o->getUniqueId()).get(); REQUIRE(q, "band:scene", "grid is missing in the scene"); same(r, *q, m, "scene"); geoSame<T>(*o, *q, "scene"); mon::seen("scene");
        }
        else if (k == 12) { // points outside, bands that are not there
            const Grid<T>& cg = *g; std::string q = m.bands.empty() ? b : m.bands.begin()->first;
            REQUIRE(mon::throws([&] { cg.get(q, ox - sx * r.real(0.1, 3), oy + sy * 0.5); }) && mon::throws([&] { g->get(q, ox, oy + sy * (m.h + r.real(0.1, 3))); }), "band:outside", "a value outside the grid was read");
            if (m.bands.empty() && !mon::throws([&] { cg.get(q, ox - sx, oy); })) REQUIRE(false, "band:outside", "read");
            for (auto& nm : names) { REQUIRE(cg.hasBand(nm) == (m.bands.count(nm) || (m.bands.empty() && g->hasBand(nm))), "band:has", "hasBand('" << nm << "') is wrong"); if (!m.bands.count(nm) && !g->hasBand(nm)) { REQUIRE(mon::throws([&] { cg.getGridData(nm); }), "band:absent", "an absent band was read"); mon::seen("absent"); } }
            if (m.bands.empty() && g->hasBand(q)) m.bands[q].assign(m.w * m.h, T());
            REQUIRE(cg.inGrid(0, 0) && cg.inGrid(m.w - 1, m.h - 1) && !cg.inGrid(m.w, 0) && !cg.inGrid(0, m.h) && !cg.inGrid(-0.5, 0), "band:inGrid", "inGrid is wrong");
        }
        same(r, *g, m, "after operation");
        REQUIRE(shim_gdal::open() == 0, "raster:left-open", shim_gdal::open() << " raster files were left open");
    }
    mon::distinct(mon::hashStr(mon::currentLog()));
}

// a raster file made by hand: gt[1], gt[5] signs decide the orientation
template <class T> void makeRaster(const std::string& path, int w, int h, const std::vector<std::vector<T> >& bands, GDALDataType t, double gx, double gy, double x0, double y0, bool geo, bool nd, double ndv) {
    GDALDataset* ds = GetGDALDriverManager()->GetDriverByName("GTiff")->Create(path.c_str(), w, h, bands.size(), t, 0);
    double gt[6] = {x0, gx, 0, y0, 0, gy}; if (geo) ds->SetGeoTransform(gt);
    for (size_t i = 0; i < bands.size(); i++) { auto* b = ds->GetRasterBand(i + 1); b->RasterIO(GF_Write, 0, 0, w, h, (void*)bands[i].data(), w, h, t, 0, 0); if (nd) b->SetNoDataValue(ndv); }
    GDALClose(ds);
}
template <class T> void raster(mon::Ctx& c, GDALDataType t) {
    auto& r = c.rng; Dir d; std::string p = d.path + "/r.tiff";
    int w = r.range(1, 9), h = r.range(1, 9), n = r.range(1, 3); std::vector<std::vector<T> > bands(n);
    for (auto& b : bands) for (int i = 0; i < w * h; i++) b.push_back(val<T>(r));
    double gx = r.real(0.1, 2) * (r.chance(0.4) ? -1 : 1), gy = r.real(0.1, 2) * (r.chance(0.5) ? -1 : 1), x0 = r.real(-50, 50), y0 = r.real(-50, 50); bool nd = r.chance(0.4); T ndv = (T)r.range(0, 100);
    LOGOP("raster " << w << "x" << h << " bands " << n << " steps " << gx << "," << gy << " origin " << x0 << "," << y0 << " type " << t);
    makeRaster<T>(p, w, h, bands, t, gx, gy, x0, y0, true, nd, ndv);
    int band = r.range(1, n);
    shim_gdal::open() = 0;
    auto closed = [&](const char* what) { REQUIRE(shim_gdal::open() == 0, "raster:left-open", shim_gdal::open() << " raster files were left open by " << what); };
    auto pr = GridBase::readGridFromGdal(p, "band", band); closed("reading");
    Grid<T>* g = dynamic_cast<Grid<T>*>(pr.first.get());
    REQUIRE(g, "raster:type", "a raster of type " << t << " is read as " << pr.first->getClassName());
    REQUIRE((int)g->getCellSizeX() == w && (int)g->getCellSizeY() == h && g->getScaleX() == fabs(gx) && g->getScaleY() == fabs(gy), "raster:geometry", "size or scale of the raster");
    auto check = [&](Grid<T>& q, const std::string& name, int b, Eigen::Vector3d shift) {
        for (int row = 0; row < h; row++) for (int col = 0; col < w; col++) { // pixel centre in the world
            double X = x0 + (col + 0.5) * gx - shift.x(), Y = y0 + (row + 0.5) * gy - shift.y(); T got;
            try { got = q.get(name, X, Y); } catch (const std::exception& e) { REQUIRE(false, "raster:position", "pixel " << col << "," << row << " lies outside of the grid"); }
            REQUIRE(eq<T>(got, bands[b][row * w + col]), "raster:orientation", "pixel " << col << "," << row << " is " << +got << " expected " << +bands[b][row * w + col]);
        }
        auto v = q.getNoData(name); REQUIRE(v.second == nd && (!nd || v.first == ndv), "raster:nodata", "nodata of the raster"); };
    check(*g, "band", band - 1, pr.second.translation());
    mon::seen(gx < 0 ? gy < 0 ? "raster.xy" : "raster.x" : gy < 0 ? "raster.y" : "raster.plain");
    { Grid<T> q; std::vector<std::string> ns; for (int i = 0; i < n; i++) ns.push_back("n" + std::to_string(i)); q.readGridData(ns, p); for (int i = 0; i < n; i++) check(q, ns[i], i, pr.second.translation()); mon::seen("raster.multi"); }
    closed("reading several bands");
    // what does not fit is refused
    REQUIRE(mon::throws([&] { GridBase::readGridFromGdal(p, "band", r.range(-1, 0)); }), "raster:band", "a band that is not there was read"); closed("refusing band 0");
    REQUIRE(mon::throws([&] { GridBase::readGridFromGdal(p, "band", n + r.range(1, 3)); }), "raster:band", "a band that is not there was read"); closed("refusing a band");
    REQUIRE(mon::throws([&] { GridBase::readGridFromGdal(d.path + "/none", "band"); }), "raster:file", "a file that is not there was read");
    REQUIRE(mon::throws([&] { Grid<T> q(w + 1, h, 1, 1); q.readGridData("a", p); }) && mon::throws([&] { Grid<T> q(w, h + 1, 1, 1); q.readGridData("a", p); }), "raster:size", "a raster of another size was read"); closed("refusing");
    REQUIRE(mon::throws([&] { if (sizeof(T) == 2) { Grid<double> q(w, h, 1, 1); q.readGridData("a", p); } else { Grid<int16_t> q(w, h, 1, 1); q.readGridData("a", p); } }), "raster:datatype", "a raster of another type was read"); closed("refusing");
    REQUIRE(mon::throws([&] { Grid<T> q; std::vector<std::string> ns(n + 1, "x"); q.readGridData(ns, p); }), "raster:bands", "more bands than the file has were read"); closed("refusing");
    { double gt[6] = {0, fabs(gx), fabs(gx) * 0.4, 0, -fabs(gy) * 0.4, fabs(gy)}; GDALDataset* ds = (GDALDataset*)GDALOpen(p.c_str(), GA_ReadOnly); ds->write = true; ds->SetGeoTransform(gt); GDALClose(ds); REQUIRE(mon::throws([&] { GridBase::readGridFromGdal(p, "b"); }), "raster:rotated", "a rotated raster was read"); } closed("refusing");
    makeRaster<T>(p, w, h, bands, t, gx, gy, x0, y0, false, nd, ndv);
    REQUIRE(mon::throws([&] { Grid<T> q; q.readGridData("a", p); }), "raster:nogeo", "a raster without reference was read into a grid without scale"); closed("refusing");
    { Grid<T> q(w, h, 0.5, 0.5); q.readGridData("a", p); for (int row = 0; row < h; row++) for (int col = 0; col < w; col++) REQUIRE(eq<T>(q.getFromRaster("a", col, row), bands[0][row * w + col]), "raster:plain", "pixel " << col << "," << row); }
    // a written band carries the geometry of the grid
    { Model<T> m; m.w = w; m.h = h; Grid<T> q(w, h, fabs(gx), fabs(gy), x0, y0); fill(r, q, m, "z"); q.writeGridData("z", p);
      auto pr2 = GridBase::readGridFromGdal(p, "z"); Grid<T>* o = dynamic_cast<Grid<T>*>(pr2.first.get()); REQUIRE(o, "raster:write", "cannot be read back");
      REQUIRE((pr2.second.translation() - Eigen::Vector3d(x0, y0, 0)).norm() < 1e-9 && o->getScaleX() == fabs(gx) && o->getScaleY() == fabs(gy), "raster:write-geometry", "written raster has another geometry"); for (size_t i = 0; i < m.bands["z"].size(); i++) REQUIRE(eq<T>(o->getGridData("z").data()[i], m.bands["z"][i]), "raster:write-value", "written raster has other values"); mon::seen("raster.written"); }
    mon::distinct(mon::hashStr(mon::currentLog()));
}
}

SECTION(histories, 7000, 15000)
{
    switch (c.idx % 7) {
    case 0: history<double>(c); break; case 1: history<float>(c); break; case 2: history<uint8_t>(c); break; case 3: history<int16_t>(c); break;
    case 4: history<uint16_t>(c); break; case 5: history<int32_t>(c); break; case 6: history<uint32_t>(c); break;
    }
}
SECTION(rasters, 2800, 7000)
{
    switch (c.idx % 7) {
    case 0: raster<double>(c, GDT_Float64); break; case 1: raster<float>(c, GDT_Float32); break; case 2: raster<uint8_t>(c, GDT_Byte); break; case 3: raster<int16_t>(c, GDT_Int16); break;
    case 4: raster<uint16_t>(c, GDT_UInt16); break; case 5: raster<int32_t>(c, GDT_Int32); break; case 6: raster<uint32_t>(c, GDT_UInt32); break;
    }
}

SECTION(special, 1500, 5000)
{
    auto& r = c.rng; size_t w = r.range(1, 9), h = r.range(1, 9);
    LOGOP("special " << w << "x" << h << " case " << c.idx);
    // images
    ImageRGB24* im = new ImageRGB24(w, h, 0.5, 0.25, 1, 2); Environment env; env.attachItem(im);
    base::samples::frame::Frame f(w, h, 8, base::samples::frame::MODE_RGB); for (auto& b : f.image) b = r.u(256);
    im->copyFromFrame(f);
    auto cmp = [&](ImageRGB24* q, const char* who) { for (size_t y = 0; y < h; y++) for (size_t x = 0; x < w; x++) for (int k = 0; k < 3; k++) REQUIRE(q->getFromRaster(k == 0 ? ImageRGB24::R : k == 1 ? ImageRGB24::G : ImageRGB24::B, x, y) == f.image[(y * w + x) * 3 + k], "image:pixel", who << ": pixel " << x << "," << y << " channel " << k); };
    cmp(im, "frame"); REQUIRE(im->getWidth() == w && im->getHeight() == h && im->getScaleX() == 0.5 && im->getScaleY() == 0.25 && im->getOffsetX() == 1 && im->getOffsetY() == 2, "image:geometry", "geometry of the image"); { ConfidenceGrid cg(w, h, 0.5, 0.25); OccupancyGrid og(w, h, 0.5, 0.25); DistanceGrid gg(w, h, 0.5, 0.25, 1, 2); for (GridBase* b : std::vector<GridBase*>{&cg, &og, &gg}) REQUIRE(b->getWidth() == w && b->getHeight() == h && b->getScaleX() == 0.5 && b->getScaleY() == 0.25, "special:geometry", "geometry of a " << b->getClassName()); REQUIRE(gg.getOffsetX() == 1 && gg.getOffsetY() == 2, "special:geometry", "offset"); } Dir d; env.serialize(d.path + "/s"); std::unique_ptr<Environment> rd(Environment::unserialize(d.path + "/s"));
    ImageRGB24* q = rd->getItem<ImageRGB24>(im->getUniqueId()).get(); REQUIRE(q, "image:scene", "image is missing"); cmp(q, "scene"); mon::seen("image");
    { int tiffs = 0; for (fs::directory_iterator it(d.path + "/s"), e; it != e; ++it) if (it->path().extension() == ".tiff") tiffs++; REQUIRE(tiffs == 1, "image:files", tiffs << " raster files for one image"); }
    // distance images
    base::samples::DistanceImage di(w, h); di.scale_x = 0.5; di.scale_y = 0.25; di.center_x = -1; di.center_y = 2; for (auto& v : di.data) v = r.real(0, 9);
    DistanceGrid dg(di); dg.copyFromDistanceImage(di);
    REQUIRE(dg.getCellSizeX() == w && dg.getCellSizeY() == h && dg.getScaleX() == 0.5 && dg.getScaleY() == 0.25 && dg.getOffsetX() == -1 && dg.getOffsetY() == 2, "distance:geometry", "geometry of the distance image");
    for (size_t i = 0; i < w * h; i++) REQUIRE(dg.getFromRaster(DistanceGrid::DISTANCE, i % w, i / w) == di.data[i], "distance:pixel", "pixel " << i);
    mon::seen("distance");
    // frames
    OccupancyGrid og(w, h, 1, 1); for (size_t i = 0; i < w * h; i++) og.getGridData(OccupancyGrid::OCCUPANCY).data()[i] = r.u(256);
    base::samples::frame::Frame of; og.convertToFrame(OccupancyGrid::OCCUPANCY, of); REQUIRE(of.width == w && of.height == h && of.image.size() == w * h, "frame:size", "frame " << of.width << "x" << of.height);
    REQUIRE(memcmp(of.image.data(), og.getGridData().data(), w * h) == 0, "frame:data", "frame has other data"); mon::seen("frame");
    ConfidenceGrid cg(w, h, 1, 1); REQUIRE(cg.getBands().size() == 1 && dg.getBands().size() == 2 && q->getBands().size() == 3, "band:names", "bands of the grid classes");
    mon::distinct(mon::hashStr(mon::currentLog()));
}
