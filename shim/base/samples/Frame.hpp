#ifndef SHIM_FRAME
#define SHIM_FRAME
#include <base/Time.hpp>
#include <vector>
#include <string>
#include <map>
#include <sstream>
#include <cstdint>
namespace base { namespace samples { namespace frame {
enum frame_mode_t { MODE_UNDEFINED = 0, MODE_GRAYSCALE = 1, MODE_RGB = 2 };
enum frame_status_t { STATUS_EMPTY = 0, STATUS_VALID, STATUS_INVALID };
struct Frame {
    Time time; std::vector<uint8_t> image; std::map<std::string, std::string> attributes; uint16_t width, height; uint32_t data_depth; frame_mode_t frame_mode; frame_status_t frame_status;
    Frame() : width(0), height(0), data_depth(0), frame_mode(MODE_UNDEFINED), frame_status(STATUS_EMPTY) {}
    Frame(uint16_t w, uint16_t h, uint8_t depth, frame_mode_t m) { init(w, h, depth, m); }
    void init(uint16_t w, uint16_t h, uint8_t depth, frame_mode_t m) { width = w; height = h; data_depth = depth; frame_mode = m; frame_status = STATUS_EMPTY; image.assign(size_t(w) * h * ((depth + 7) / 8) * (m == MODE_RGB ? 3 : 1), 0); }
    frame_mode_t getFrameMode() const { return frame_mode; }
    const uint8_t* getImageConstPtr() const { return image.data(); }
    uint8_t* getImagePtr() { return image.data(); }
    size_t getNumberOfBytes() const { return image.size(); }
    uint16_t getWidth() const { return width; }
    uint16_t getHeight() const { return height; }
    template<class T> void setAttribute(const std::string& n, const T& v) { std::stringstream s; s << v; attributes[n] = s.str(); }
};
} } }
#endif
