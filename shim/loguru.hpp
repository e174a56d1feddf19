// Minimal stand-in for emilk/loguru (the submodule is empty in this sandbox).
// LOG_S(X) << ... ; FATAL throws vshim::Fatal at the end of the statement, so that a
// harness can observe "the program refused to go on" without losing the process.
#ifndef VSHIM_LOGURU_HPP
#define VSHIM_LOGURU_HPP
#include <atomic>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <exception>
#include <iostream>
#include <mutex>
#include <sstream>
#include <stdexcept>
#include <string>

// loguru's own header pulls these in
#include <algorithm>
#include <cctype>
#include <chrono>
#include <cstring>
#include <ctime>
#include <fstream>
#include <functional>
#include <memory>
#include <thread>
#include <vector>

namespace vshim
{
  struct Fatal : public std::runtime_error
  {
    using std::runtime_error::runtime_error;
  };
  inline std::atomic<long> n_error{0};
  inline std::atomic<long> n_warning{0};
  inline std::atomic<long> n_fatal{0};
  inline bool echo = (getenv("VSHIM_ECHO") != nullptr);
  inline bool fatal_aborts = false; // true: print and abort() as the real loguru does
  inline void (*on_tick)() = nullptr; // called at every log message and every operation on the data file
  inline void tick() { if (on_tick) on_tick(); }
  inline std::mutex log_mutex;
  inline std::string last_error;

  inline void emit(int sev, const std::string &s)
  {
    if (sev == -2)
    {
      ++n_error;
      std::lock_guard<std::mutex> l(log_mutex);
      last_error = s;
    }
    if (sev == -1) ++n_warning;
    if (sev == -3) ++n_fatal;
    if (echo || (sev == -3 && fatal_aborts))
    {
      std::lock_guard<std::mutex> l(log_mutex);
      std::cerr << "[" << sev << "] " << s << std::endl;
    }
  }

  class StreamLogger
  {
    int sev;
    std::ostringstream ss;
  public:
    explicit StreamLogger(int s) : sev(s) {}
    ~StreamLogger() noexcept(false)
    {
      emit(sev, ss.str());
      tick();
      if (sev == -3)
      {
        if (fatal_aborts) abort();
        if (!std::uncaught_exceptions()) throw Fatal(ss.str());
      }
    }
    template <typename T> StreamLogger &operator<<(const T &t) { ss << t; return *this; }
    StreamLogger &operator<<(std::ostream &(*f)(std::ostream &)) { f(ss); return *this; }
  };
  struct Voidify { template <class T> void operator&(const T &) {} };
}

namespace loguru
{
  typedef int Verbosity;
  enum NamedVerbosity : int
  {
    Verbosity_INVALID = -10, Verbosity_OFF = -9, Verbosity_FATAL = -3, Verbosity_ERROR = -2,
    Verbosity_WARNING = -1, Verbosity_INFO = 0, Verbosity_0 = 0, Verbosity_1 = 1,
    Verbosity_9 = 9, Verbosity_MAX = 9
  };
  enum FileMode { Truncate, Append };
  inline int g_stderr_verbosity = 0;
  inline bool g_preamble = true, g_preamble_header = true, g_preamble_date = true,
    g_preamble_time = true, g_preamble_uptime = true, g_preamble_thread = true,
    g_preamble_file = true, g_preamble_verbose = true, g_preamble_pipe = true,
    g_colorlogtostderr = false;
  inline std::string last_log_file;
  inline bool add_file(const char *p, FileMode, Verbosity) { last_log_file = p ? p : ""; return true; }
  struct SignalOptions
  {
    bool unsafe_signal_handler = true, sigabrt = true, sigbus = true, sigfpe = true, sigill = true,
      sigint = true, sigsegv = true, sigterm = true;
    static SignalOptions none() { return SignalOptions(); }
  };
  struct Options
  {
    const char *verbosity_flag = "-v";
    const char *main_thread_name = "main thread";
    SignalOptions signals;
  };
  inline void init(int &, char *[], const Options & = {}) {}
  inline void shutdown() {}
  inline void flush() {}
  inline void remove_all_callbacks() {}
  inline void set_thread_name(const char *) {}
  inline void vlog(int sev, const char *fmt, ...)
  {
    char buf[2048];
    va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
    vshim::StreamLogger(sev) << buf;
  }
}

#define LOG_S(name) \
  if ((int)loguru::Verbosity_##name > 0 && !vshim::echo) { vshim::tick(); } else vshim::StreamLogger((int)loguru::Verbosity_##name)
#define VLOG_S(v) if ((int)(v) > 0 && !vshim::echo) { vshim::tick(); } else vshim::StreamLogger((int)(v))
#define LOG_IF_S(name, cond) if (!(cond)) {} else vshim::StreamLogger((int)loguru::Verbosity_##name)
#define LOG_F(name, ...) loguru::vlog((int)loguru::Verbosity_##name, __VA_ARGS__)
#define VLOG_F(v, ...) loguru::vlog((int)(v), __VA_ARGS__)
#define ABORT_S() vshim::StreamLogger(-3)
#define ABORT_F(...) loguru::vlog(-3, __VA_ARGS__)
#define CHECK_S(cond) if (cond) {} else vshim::StreamLogger(-3) << "CHECK FAILED: " #cond " "
#define CHECK_F(cond, ...) do { if (!(cond)) loguru::vlog(-3, "CHECK FAILED: " #cond); } while (0)
#define LOG_SCOPE_F(...)
#define LOG_SCOPE_FUNCTION(...)
#endif
