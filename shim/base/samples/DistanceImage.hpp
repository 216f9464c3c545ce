#ifndef SHIM_DISTIMG
#define SHIM_DISTIMG
#include <base/Time.hpp>
#include <vector>
#include <cstdint>
namespace base { namespace samples {
struct DistanceImage { typedef float scalar; Time time; uint16_t width, height; scalar scale_x, scale_y, center_x, center_y; std::vector<scalar> data;
    DistanceImage() : width(0), height(0), scale_x(0), scale_y(0), center_x(0), center_y(0) {}
    DistanceImage(uint16_t w, uint16_t h) : width(w), height(h), scale_x(0), scale_y(0), center_x(0), center_y(0), data(w * h) {} };
} }
#endif
