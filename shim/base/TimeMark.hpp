#ifndef SHIM_BASE_TIMEMARK
#define SHIM_BASE_TIMEMARK
#include <base/Time.hpp>
namespace base { struct TimeMark { std::string label; Time mark; TimeMark(const std::string& l) : label(l), mark(Time::now()) {} Time passed() const { return Time::now() - mark; } };
inline std::ostream& operator<<(std::ostream& o, const TimeMark& t) { return o << t.label; } }
#endif
