#ifndef SHIM_LOGGING
#define SHIM_LOGGING
#include <ostream>
namespace shim { struct NullStream { template<class T> NullStream& operator<<(const T&) { return *this; } NullStream& operator<<(std::ostream& (*)(std::ostream&)) { return *this; } }; inline NullStream& null() { static thread_local NullStream n; return n; } }
#define LOG_DEBUG(...) do {} while (0)
#define LOG_INFO(...) do {} while (0)
#define LOG_WARN(...) do {} while (0)
#define LOG_ERROR(...) do {} while (0)
#define LOG_FATAL(...) do {} while (0)
#define LOG_DEBUG_S ::shim::null()
#define LOG_INFO_S ::shim::null()
#define LOG_WARN_S ::shim::null()
#define LOG_ERROR_S ::shim::null()
#define LOG_FATAL_S ::shim::null()
#endif
