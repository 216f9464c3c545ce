#ifndef SHIM_BASE_FLOAT
#define SHIM_BASE_FLOAT
#include <limits>
#include <cmath>
namespace base {
template<class T> inline T unset() { return std::numeric_limits<T>::quiet_NaN(); }
template<class T> inline bool isUnset(T v) { return std::isnan(v); }
template<class T> inline T unknown() { return std::numeric_limits<T>::quiet_NaN(); }
template<class T> inline bool isUnknown(T v) { return std::isnan(v); }
template<class T> inline T infinity() { return std::numeric_limits<T>::infinity(); }
}
#endif
