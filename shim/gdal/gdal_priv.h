#ifndef SHIM_GDAL
#define SHIM_GDAL
// raster files behind the part of the GDAL interface that is used
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <fstream>
#ifndef TRUE
#define TRUE 1
#define FALSE 0
#endif
enum GDALDataType { GDT_Unknown = 0, GDT_Byte = 1, GDT_UInt16 = 2, GDT_Int16 = 3, GDT_UInt32 = 4, GDT_Int32 = 5, GDT_Float32 = 6, GDT_Float64 = 7 };
enum CPLErr { CE_None = 0, CE_Failure = 3 };
enum GDALRWFlag { GF_Read = 0, GF_Write = 1 };
enum GDALAccess { GA_ReadOnly = 0, GA_Update = 1 };
typedef void* GDALDatasetH;
namespace shim_gdal {
inline int& open() { static int n = 0; return n; }   // data sets that are open
inline size_t size(GDALDataType t) { switch (t) { case GDT_Byte: return 1; case GDT_UInt16: case GDT_Int16: return 2; case GDT_UInt32: case GDT_Int32: case GDT_Float32: return 4; default: return 8; } }
inline double get(GDALDataType t, const char* p) { switch (t) { case GDT_Byte: return *(const uint8_t*)p; case GDT_UInt16: { uint16_t v; memcpy(&v, p, 2); return v; } case GDT_Int16: { int16_t v; memcpy(&v, p, 2); return v; } case GDT_UInt32: { uint32_t v; memcpy(&v, p, 4); return v; } case GDT_Int32: { int32_t v; memcpy(&v, p, 4); return v; } case GDT_Float32: { float v; memcpy(&v, p, 4); return v; } default: { double v; memcpy(&v, p, 8); return v; } } }
inline void put(GDALDataType t, char* p, double d) { switch (t) { case GDT_Byte: *(uint8_t*)p = (uint8_t)d; break; case GDT_UInt16: { uint16_t v = (uint16_t)d; memcpy(p, &v, 2); break; } case GDT_Int16: { int16_t v = (int16_t)d; memcpy(p, &v, 2); break; } case GDT_UInt32: { uint32_t v = (uint32_t)d; memcpy(p, &v, 4); break; } case GDT_Int32: { int32_t v = (int32_t)d; memcpy(p, &v, 4); break; } case GDT_Float32: { float v = (float)d; memcpy(p, &v, 4); break; } default: memcpy(p, &d, 8); } }
}
class GDALRasterBand {
public:
    int w, h; GDALDataType type; double nodata; int has; std::vector<char> data;
    GDALDataType GetRasterDataType() { return type; }
    double GetNoDataValue(int* p) { if (p) *p = has; return has ? nodata : 0; }
    CPLErr SetNoDataValue(double v) { nodata = v; has = 1; return CE_None; }
    CPLErr RasterIO(GDALRWFlag rw, int x0, int y0, int xs, int ys, void* buf, int bx, int by, GDALDataType bt, int64_t px, int64_t ln) {
        if (x0 != 0 || y0 != 0 || xs != w || ys != h || bx != w || by != h) return CE_Failure;
        if (px == 0) px = shim_gdal::size(bt);
        if (ln == 0) ln = px * bx;
        size_t es = shim_gdal::size(type);
        for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) {
            char* b = (char*)buf + y * ln + x * px; char* d = &data[(size_t(y) * w + x) * es];
            if (bt == type) { if (rw == GF_Read) memcpy(b, d, es); else memcpy(d, b, es); }
            else if (rw == GF_Read) shim_gdal::put(bt, b, shim_gdal::get(type, d));
            else shim_gdal::put(type, d, shim_gdal::get(bt, b));
        }
        return CE_None; }
};
class GDALDataset {
public:
    std::string path; bool write; int w, h; double gt[6]; int hasGt; std::vector<GDALRasterBand> bands;
    GDALDataset() { shim_gdal::open()++; } ~GDALDataset() { shim_gdal::open()--; }
    GDALDataset(const GDALDataset&) = delete;
    int GetRasterXSize() { return w; } int GetRasterYSize() { return h; } int GetRasterCount() { return bands.size(); }
    GDALRasterBand* GetRasterBand(int i) { return i < 1 || i > (int)bands.size() ? 0 : &bands[i - 1]; }
    CPLErr SetGeoTransform(double* g) { memcpy(gt, g, sizeof gt); hasGt = 1; return CE_None; }
    CPLErr GetGeoTransform(double* g) { if (!hasGt) { double d[6] = {0,1,0,0,0,1}; memcpy(g, d, sizeof d); return CE_Failure; } memcpy(g, gt, sizeof gt); return CE_None; }
    CPLErr SetProjection(const char*) { return CE_None; }
    bool save() { std::ofstream f(path.c_str(), std::ios::binary); if (!f) return false; int n = bands.size(); f.write("SHIMTIFF", 8); f.write((char*)&w, 4); f.write((char*)&h, 4); f.write((char*)&n, 4); f.write((char*)&hasGt, 4); f.write((char*)gt, 48);
        for (auto& b : bands) { int t = b.type; f.write((char*)&t, 4); f.write((char*)&b.has, 4); f.write((char*)&b.nodata, 8); f.write(b.data.data(), b.data.size()); } return bool(f); }
    bool load() { std::ifstream f(path.c_str(), std::ios::binary); if (!f) return false; char m[8]; int n = 0; if (!f.read(m, 8) || memcmp(m, "SHIMTIFF", 8)) return false; f.read((char*)&w, 4); f.read((char*)&h, 4); f.read((char*)&n, 4); f.read((char*)&hasGt, 4); f.read((char*)gt, 48); if (!f) return false; bands.resize(n);
        for (auto& b : bands) { int t; f.read((char*)&t, 4); f.read((char*)&b.has, 4); f.read((char*)&b.nodata, 8); b.type = (GDALDataType)t; b.w = w; b.h = h; b.data.resize(size_t(w) * h * shim_gdal::size(b.type)); f.read(b.data.data(), b.data.size()); if (!f) return false; } return true; }
};
class GDALDriver { public:
    GDALDataset* Create(const char* path, int x, int y, int n, GDALDataType t, char**) { if (x <= 0 || y <= 0) return 0; { std::ofstream f(path, std::ios::binary); if (!f) return 0; }
        GDALDataset* d = new GDALDataset; d->path = path; d->write = true; d->w = x; d->h = y; d->hasGt = 0; memset(d->gt, 0, sizeof d->gt); d->bands.resize(n); for (auto& b : d->bands) { b.w = x; b.h = y; b.type = t; b.has = 0; b.nodata = 0; b.data.assign(size_t(x) * y * shim_gdal::size(t), 0); } return d; } };
class GDALDriverManager { public: GDALDriver drv; GDALDriver* GetDriverByName(const char* n) { return std::string(n) == "GTiff" ? &drv : 0; } };
inline GDALDriverManager* GetGDALDriverManager() { static GDALDriverManager m; return &m; }
inline void GDALAllRegister() {}
inline GDALDatasetH GDALOpen(const char* p, GDALAccess) { GDALDataset* d = new GDALDataset; d->path = p; d->write = false; if (!d->load()) { delete d; return 0; } return d; }
inline void GDALClose(GDALDatasetH h) { GDALDataset* d = (GDALDataset*)h; if (d && d->write) d->save(); delete d; }
inline void CPLFree(void* p) { free(p); }
class OGRSpatialReference { public: int SetUTM(int, int) { return 0; } int SetWellKnownGeogCS(const char*) { return 0; } int exportToWkt(char** p) { *p = strdup("WKT"); return 0; } };
#endif
