#ifndef SHIM_OGR
#define SHIM_OGR
#include <gdal/gdal_priv.h>
#endif
