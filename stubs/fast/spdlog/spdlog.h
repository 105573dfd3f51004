// Silent logging: the environment of the code under test, and a much faster build.  If the code needs
// more of spdlog than this, the build falls back to the real one (engine/build.py).
#pragma once
#include <map>
#include <memory>
#include <string>
#include <vector>
namespace spdlog {
namespace level { enum level_enum : int { trace = 0, debug, info, warn, err, critical, off, n_levels }; }
namespace sinks { struct sink { virtual ~sink() = default; void set_pattern(const std::string &) {} void set_level(level::level_enum) {} }; }
using sink_ptr = std::shared_ptr<sinks::sink>;
class logger {
  std::vector<sink_ptr> s_; level::level_enum l_ = level::info; std::string n_;
public:
  explicit logger(std::string n = "") : n_(n) {}
  template <class... A> void trace(A &&...) {}
  template <class... A> void debug(A &&...) {}
  template <class... A> void info(A &&...) {}
  template <class... A> void warn(A &&...) {}
  template <class... A> void error(A &&...) {}
  template <class... A> void critical(A &&...) {}
  template <class... A> void log(A &&...) {}
  void set_level(level::level_enum l) { l_ = l; }
  level::level_enum level() const { return l_; }
  bool should_log(level::level_enum l) const { return l >= l_; }
  std::vector<sink_ptr> &sinks() { return s_; }
  void set_pattern(const std::string &) {}
  void flush() {}
  const std::string &name() const { return n_; }
};
inline std::map<std::string, std::shared_ptr<logger>> &reg_() { static std::map<std::string, std::shared_ptr<logger>> r; return r; }
inline std::shared_ptr<logger> get(const std::string &n) { return reg_()[n]; }
inline std::shared_ptr<logger> stdout_color_mt(const std::string &n) { return reg_()[n] = std::make_shared<logger>(n); }
inline std::shared_ptr<logger> default_logger() { return stdout_color_mt(""); }
template <class... A> void info(A &&...) {}
template <class... A> void warn(A &&...) {}
template <class... A> void error(A &&...) {}
template <class... A> void debug(A &&...) {}
}
