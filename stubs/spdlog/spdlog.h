// stand-in for the logging library: logging has no effect on the verified state
#ifndef VC_SPDLOG
#define VC_SPDLOG
#include <string>
#include <memory>
namespace spdlog {
namespace level { enum level_enum { trace, debug, info, warn, err, critical, off }; }
namespace sinks { struct stdout_sink_st {}; struct stdout_sink_mt {}; struct null_sink_st {}; }
struct logger { template <class... A> logger(A &&...) {} };
template <class... A> inline void trace(A &&...) {}
template <class... A> inline void debug(A &&...) {}
template <class... A> inline void info(A &&...) {}
template <class... A> inline void warn(A &&...) {}
template <class... A> inline void error(A &&...) {}
template <class... A> inline void critical(A &&...) {}
inline void set_level(level::level_enum) {}
inline level::level_enum get_level() { return level::info; }
template <class P> inline void set_default_logger(P) {}
template <class... A> inline void set_pattern(A &&...) {}
}
#endif
