#ifndef SHIM_BASE_TIME
#define SHIM_BASE_TIME
#include <cstdint>
#include <ostream>
#include <string>
#include <sys/time.h>
namespace base {
struct Time {
    int64_t microseconds;
    Time() : microseconds(0) {}
    static Time now() { timeval t; gettimeofday(&t, 0); Time r; r.microseconds = int64_t(t.tv_sec) * 1000000 + t.tv_usec; return r; }
    static Time fromMicroseconds(int64_t v) { Time r; r.microseconds = v; return r; }
    static Time fromSeconds(double v) { return fromMicroseconds(int64_t(v * 1e6)); }
    double toSeconds() const { return microseconds / 1e6; }
    int64_t toMicroseconds() const { return microseconds; }
    bool isNull() const { return microseconds == 0; }
    bool operator<(const Time& o) const { return microseconds < o.microseconds; }
    bool operator>(const Time& o) const { return microseconds > o.microseconds; }
    bool operator==(const Time& o) const { return microseconds == o.microseconds; }
    bool operator!=(const Time& o) const { return microseconds != o.microseconds; }
    Time operator-(const Time& o) const { return fromMicroseconds(microseconds - o.microseconds); }
    Time operator+(const Time& o) const { return fromMicroseconds(microseconds + o.microseconds); }
};
inline std::ostream& operator<<(std::ostream& o, const Time& t) { return o << t.toSeconds(); }
}
#endif
