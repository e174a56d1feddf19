// Choice-sequence property-based testing engine.
//
// A case is a function of a finite sequence of integer choices. Random search draws the choices,
// failures are shrunk by editing the sequence (deleting, zeroing and lowering choices) and the
// minimal sequence is the replay. Cases run in forked workers: a crash, a sanitizer abort or a hang
// of the code under test is a failing case like any other, and its choices survive in shared memory.
#ifndef PBT_HPP
#define PBT_HPP
#include <cerrno>
#include <chrono>
#include <cinttypes>
#include <cmath>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <fcntl.h>
#include <sys/prctl.h>
#include <unistd.h>
#include <vector>

namespace vrand { void seed(uint64_t s); }

namespace pbt
{
  struct Fail : std::runtime_error { using std::runtime_error::runtime_error; };
  struct Discard {};

  static const size_t MAXC = 1 << 18;
  struct Shm
  {
    volatile uint64_t n;          // choices recorded for the running case
    volatile uint64_t case_no;
    volatile uint64_t heartbeat;
    volatile uint64_t started_ms; // wall clock of the running case's start
    volatile int state;           // 0 running, 1 done ok, 2 failed (message below)
    char msg[4096];
    char desc[16384];
    uint64_t c[MAXC];
  };

  class Src
  {
  public:
    Shm *shm = nullptr;
    bool replaying = false;
    std::vector<uint64_t> tape; // when replaying
    std::vector<uint64_t> rec;
    size_t pos = 0;
    uint64_t s = 1;
    uint64_t raw()
    {
      uint64_t z = (s += 0x9E3779B97F4A7C15ULL);
      z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
      z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
      return z ^ (z >> 31);
    }
    uint64_t draw(uint64_t n) // uniform in [0, n)
    {
      uint64_t v;
      if (n <= 1) v = 0;
      else if (replaying) v = pos < tape.size() ? (tape[pos] < n ? tape[pos] : tape[pos] % n) : 0;
      else v = raw() % n;
      ++pos;
      if (rec.size() < MAXC)
      {
        rec.push_back(v);
        if (shm) { shm->c[rec.size() - 1] = v; shm->n = rec.size(); }
      }
      return v;
    }
    // an integer in [lo, hi]; shrinks towards lo
    long range(long lo, long hi) { return hi <= lo ? lo : lo + (long)draw((uint64_t)(hi - lo) + 1); }
    bool flip() { return draw(2) == 1; }
    bool chance(int num, int den) { return (int)draw(den) >= den - num; }
    // [0,1), 2^-26 resolution; shrinks towards 0
    double unit() { return (double)draw(1u << 26) / (double)(1u << 26); }
    double real(double lo, double hi) { return lo + (hi - lo) * unit(); }
    // open interval, never the ends
    double open(double lo, double hi) { return lo + (hi - lo) * ((double)draw(1u << 26) + 0.5) / (double)(1u << 26); }
    // magnitude spread over decades [10^a, 10^b]
    double decade(double a, double b) { return std::pow(10., a + (b - a) * unit()); }
    double sgn() { return flip() ? -1. : 1.; }
    template <class T> const T &pick(const std::vector<T> &v) { return v[draw(v.size())]; }
    uint64_t seed64() { return draw(1ULL << 32); }
  };

  class Ctx
  {
  public:
    std::ostringstream d;
    bool nontriv = false;
    std::string key;
    std::map<std::string, long> *labels = nullptr;
    void nontrivial(const std::string &k) { nontriv = true; key = k; }
    void label(const std::string &l) { if (labels) ++(*labels)[l]; }
  };

  [[noreturn]] inline void fail(const std::string &m) { throw Fail(m); }
  template <class... A> [[noreturn]] void failf(const char *f, A... a)
  {
    char b[2048]; snprintf(b, sizeof b, f, a...); throw Fail(b);
  }
  inline void require(bool c, const std::string &m) { if (!c) throw Fail(m); }
  inline bool close(double a, double b, double rel, double abs_)
  {
    if (std::isnan(a) || std::isnan(b)) return false;
    if (a == b) return true;
    return std::fabs(a - b) <= abs_ + rel * std::max(std::fabs(a), std::fabs(b));
  }
  inline void require_close(double got, double want, double rel, double abs_, const std::string &m)
  {
    if (!close(got, want, rel, abs_))
    {
      char b[256]; snprintf(b, sizeof b, ": got %.17g, expected %.17g (rel tol %g, abs tol %g)", got, want, rel, abs_);
      throw Fail(m + b);
    }
  }

  typedef std::function<void(Src &, Ctx &)> Prop;
  struct Registry
  {
    std::map<std::string, Prop> props;
    std::map<std::string, std::string> rules;
    static Registry &get() { static Registry r; return r; }
  };
  struct Reg
  {
    Reg(const char *name, const char *rule, Prop p)
    { Registry::get().props[name] = p; Registry::get().rules[name] = rule; }
  };

  inline uint64_t now_ms()
  {
    return (uint64_t)std::chrono::duration_cast<std::chrono::milliseconds>(
      std::chrono::steady_clock::now().time_since_epoch()).count();
  }
  inline std::string js(const std::string &s)
  {
    std::string o = "\"";
    for (unsigned char c : s)
      if (c == '"') o += "\\\""; else if (c == '\\') o += "\\\\"; else if (c == '\n') o += "\\n";
      else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += (char)c;
    return o + "\"";
  }

  // 0 pass, 1 fail (msg, desc), 2 discarded
  inline int run_one(const Prop &p, Src &s, Ctx &c, std::string &msg)
  {
    try { p(s, c); return 0; }
    catch (Discard &) { return 2; }
    catch (Fail &e) { msg = e.what(); return 1; }
    catch (std::exception &e) { msg = std::string("unexpected exception: ") + e.what(); return 1; }
    catch (...) { msg = "unexpected exception"; return 1; }
  }
  inline Shm *mkshm()
  {
    void *m = mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (m == MAP_FAILED) { perror("mmap"); exit(3); }
    return (Shm *)m;
  }
  inline uint64_t mix(uint64_t a, uint64_t b)
  {
    uint64_t z = a * 0x9E3779B97F4A7C15ULL + b * 0xD1B54A32D192ED03ULL + 0x632BE59BD9B4E019ULL;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL; z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
    return z ^ (z >> 31);
  }
  inline void setmsg(Shm *m, const std::string &msg, const std::string &desc)
  {
    snprintf(m->msg, sizeof m->msg, "%s", msg.c_str());
    snprintf(m->desc, sizeof m->desc, "%s", desc.c_str());
  }

  inline void mute()
  {
    if (!getenv("PBT_VERBOSE")) { if (!freopen("/dev/null", "w", stderr)) {} if (!freopen("/dev/null", "w", stdout)) {} }
  }
  inline void cap_memory()
  {
#if !defined(__SANITIZE_ADDRESS__) && !defined(__SANITIZE_THREAD__)
    struct rlimit r; r.rlim_cur = r.rlim_max = 6ul << 30; setrlimit(RLIMIT_AS, &r);
#endif
  }

  struct Crash { Shm *m = nullptr; Ctx *c = nullptr; static Crash &get() { static Crash x; return x; } };
  inline void on_crash(int sig)
  {
    Crash &x = Crash::get(); signal(sig, SIG_DFL);
    if (x.m && x.c) { std::string d = x.c->d.str(); snprintf(x.m->desc, sizeof x.m->desc, "%s", d.c_str()); }
    raise(sig);
  }
  // run a fixed tape in a fork; returns 0 pass, 1 fail
  inline int trial1(const Prop &p, const std::vector<uint64_t> &tape, Shm *m, int limit_s, std::vector<uint64_t> *used)
  {
    m->n = 0; m->state = 0; m->msg[0] = 0; m->desc[0] = 0;
    fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0)
    {
      prctl(PR_SET_PDEATHSIG, SIGKILL);
      mute(); cap_memory();
      Src s; s.shm = m; s.replaying = true; s.tape = tape;
      Ctx c; std::string msg;
      Crash::get().m = m; Crash::get().c = &c;
      for (int sg : {SIGABRT, SIGFPE, SIGBUS, SIGILL}) signal(sg, on_crash);
#if !defined(__SANITIZE_ADDRESS__) && !defined(__SANITIZE_THREAD__)
      signal(SIGSEGV, on_crash);
#endif
      int r = run_one(p, s, c, msg);
      setmsg(m, msg, c.d.str());
      m->state = r == 1 ? 2 : 1;
      _exit(0);
    }
    uint64_t t0 = now_ms();
    int st = 0;
    for (;;)
    {
      pid_t w = waitpid(pid, &st, WNOHANG);
      if (w == pid) break;
      if (now_ms() - t0 > (uint64_t)limit_s * 1000)
      {
        kill(pid, SIGKILL); waitpid(pid, &st, 0);
        setmsg(m, "the case does not terminate within " + std::to_string(limit_s) + " s", m->desc);
        m->state = 2; break;
      }
      usleep(200);
    }
    if (m->state == 0)
    {
      char b[128];
      if (WIFSIGNALED(st)) snprintf(b, sizeof b, "the code under test crashed with signal %d", WTERMSIG(st));
      else snprintf(b, sizeof b, "the code under test ended the process with status %d", WEXITSTATUS(st));
      setmsg(m, b, m->desc);
      m->state = 2;
    }
    if (used) used->assign(m->c, m->c + m->n);
    return m->state == 2 ? 1 : 0;
  }

  // the thread sanitizer reports only races it happens to witness, and every report is one: several attempts
  inline int trial(const Prop &p, const std::vector<uint64_t> &tape, Shm *m, int limit_s, std::vector<uint64_t> *used)
  {
#ifdef __SANITIZE_THREAD__
    uint64_t t0 = now_ms();
    for (int i = 0; i < 11; ++i) { if (trial1(p, tape, m, limit_s, used)) return 1; if (now_ms() - t0 > 20000) return 0; }
#endif
    return trial1(p, tape, m, limit_s, used);
  }
  inline std::vector<uint64_t> shrink(const Prop &p, std::vector<uint64_t> best, Shm *m, int budget_s, int limit_s)
  {
    uint64_t t0 = now_ms();
    auto left = [&]() { return now_ms() - t0 < (uint64_t)budget_s * 1000; };
    std::vector<uint64_t> used;
    auto better = [&](const std::vector<uint64_t> &a)
    {
      if (a.size() > best.size() || a == best) return false;
      if (!trial(p, a, m, limit_s, &used)) return false;
      if (used.size() < a.size()) best = used; else best = a;
      return true;
    };
    bool progress = true;
    while (progress && left())
    {
      progress = false;
      for (size_t len = std::max<size_t>(1, best.size() / 2); len >= 1 && left(); len /= 2)
      {
        for (size_t i = 0; i + len <= best.size() && left();)
        {
          std::vector<uint64_t> a = best;
          a.erase(a.begin() + i, a.begin() + i + len);
          if (better(a)) { progress = true; continue; }
          a = best; bool nz = false;
          for (size_t k = i; k < i + len; ++k) { nz |= a[k] != 0; a[k] = 0; }
          if (nz && better(a)) progress = true;
          i += len;
        }
        if (len == 1) break;
      }
      for (size_t i = 0; i < best.size() && left(); ++i)
      {
        uint64_t lo = 0, hi = best[i];
        while (lo < hi && left())
        {
          uint64_t mid = lo + (hi - lo) / 2;
          std::vector<uint64_t> a = best; a[i] = mid;
          if (better(a)) { progress = true; if (i >= best.size()) break; hi = mid; } else lo = mid + 1;
        }
      }
    }
    return best;
  }

  struct WorkerOut
  {
    uint64_t evals = 0, discarded = 0, nontriv = 0;
    std::set<std::string> keys;
    std::map<std::string, long> labels;
    std::vector<std::string> samples;
  };

  inline long rss_mb()
  {
    long a = 0, b = 0; FILE *f = fopen("/proc/self/statm", "r");
    if (f) { if (fscanf(f, "%ld %ld", &a, &b) != 2) b = 0; fclose(f); }
    return b * 4 / 1024;
  }
  // the code under test leaks some of what it allocates: a worker that has grown hands over to a fresh one
  inline void worker(const Prop &p, Shm *m, uint64_t seed, uint64_t t_end, uint64_t max_cases, int fd)
  {
    WorkerOut o; uint64_t first = m->case_no; bool more = false; long base = rss_mb();
    for (uint64_t n = first; n < max_cases; ++n)
    {
      if (n && now_ms() > t_end) break;
      if ((n & 15) == 15 && rss_mb() > base + 300) { more = true; break; }
      m->n = 0; m->case_no = n; m->started_ms = now_ms();
      Src s; s.shm = m; s.s = mix(seed, n);
      Ctx c; c.labels = &o.labels; std::string msg;
      int r = run_one(p, s, c, msg);
      if (r == 1) { setmsg(m, msg, c.d.str()); m->state = 2; break; }
      if (r == 2) { ++o.discarded; continue; }
      ++o.evals;
      if (c.nontriv)
      {
        ++o.nontriv;
        if (o.keys.size() < 200000) o.keys.insert(c.key.empty() ? std::to_string(mix(seed, n)) : c.key);
        if (o.samples.size() < 3) o.samples.push_back(c.d.str().substr(0, 1500));
      }
    }
    std::ostringstream js_;
    js_ << o.evals << "\n" << o.discarded << "\n" << o.nontriv << "\n" << o.samples.size() << "\n";
    for (auto &x : o.samples) js_ << js(x) << "\n";
    js_ << o.labels.size() << "\n";
    for (auto &x : o.labels) js_ << x.second << " " << x.first << "\n";
    js_ << o.keys.size() << "\n";
    for (auto &x : o.keys) js_ << std::hash<std::string>()(x) << "\n";
    std::string t = js_.str();
    size_t off = 0;
    while (off < t.size()) { ssize_t w = write(fd, t.data() + off, t.size() - off); if (w <= 0) break; off += (size_t)w; }
    m->case_no = m->case_no + 1; if (m->state == 0) m->state = more ? 4 : 1;
  }

  inline std::vector<uint64_t> load_tape(const std::string &f)
  {
    std::ifstream in(f); std::vector<uint64_t> t; std::string w; bool on = false;
    while (in >> w) { if (w == "choices:") { on = true; continue; } if (on) t.push_back(strtoull(w.c_str(), nullptr, 10)); }
    return t;
  }
  inline void save_tape(const std::string &f, const std::string &prop, const std::string &msg, const std::string &desc,
                        const std::vector<uint64_t> &t)
  {
    std::ofstream o(f);
    o << "property-harness: " << prop << "\nfailure: " << msg << "\ncase: " << desc << "\nchoices:\n";
    for (size_t i = 0; i < t.size(); ++i) o << t[i] << ((i + 1) % 16 ? ' ' : '\n');
    o << "\n";
  }

  inline int main_(int argc, char **argv)
  {
    std::map<std::string, std::string> a;
    for (int i = 1; i + 1 < argc; i += 2) a[argv[i]] = argv[i + 1];
    auto &R = Registry::get();
    if (!a.count("--prop")) { for (auto &x : R.props) std::cout << x.first << "\n"; return 0; }
    std::string name = a["--prop"];
    if (!R.props.count(name)) { std::cerr << "no such property " << name << "\n"; return 3; }
    Prop p = R.props[name];
    int limit = a.count("--limit") ? atoi(a["--limit"].c_str()) : 25;
    if (a.count("--replay"))
    {
      Shm *m = mkshm();
      auto t = load_tape(a["--replay"]);
      int bad = 0;
      for (int i = 0; i < 3; ++i) bad += trial(p, t, m, limit, nullptr);
      std::cout << "replay: " << bad << "/3 fail\ncase: " << m->desc << "\nfailure: " << m->msg << std::endl;
      return bad == 3 ? 1 : 0;
    }
    uint64_t seed = a.count("--seed") ? strtoull(a["--seed"].c_str(), nullptr, 10) : 1;
    double time_s = a.count("--time") ? atof(a["--time"].c_str()) : 10;
    uint64_t maxc = a.count("--max-cases") ? strtoull(a["--max-cases"].c_str(), nullptr, 10) : UINT64_MAX;
    int W = a.count("--workers") ? atoi(a["--workers"].c_str()) : 4;
    std::string out = a.count("--out") ? a["--out"] : "/dev/stdout";
    std::string replay = a.count("--save") ? a["--save"] : "";
    uint64_t nh = 0; for (char ch : name) nh = mix(nh, (uint64_t)ch);
    std::vector<Shm *> sh; std::vector<pid_t> pids; std::vector<std::string> buf;
    std::vector<bool> alive(W, true);
    struct Pipe { int fd; std::string t; bool open; };
    std::vector<Pipe> pipes; // drained by this process' only thread: thread sanitizers do not survive forks of threaded processes
    auto drain = [&]()
    {
      char b[65536];
      for (auto &q : pipes) while (q.open)
      {
        ssize_t n = read(q.fd, b, sizeof b);
        if (n > 0) { q.t.append(b, (size_t)n); continue; }
        if (n < 0 && (errno == EAGAIN || errno == EINTR)) break;
        ::close(q.fd); q.open = false;
      }
    };
    uint64_t t_end = now_ms() + (uint64_t)(time_s * 1000);
    auto launch = [&](int w)
    {
      Shm *m = sh[w]; int fd[2]; if (pipe(fd)) { perror("pipe"); exit(3); }
      m->started_ms = now_ms(); m->state = 0; m->n = 0;
      fflush(nullptr);
      pid_t pid = fork();
      if (pid == 0)
      {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        ::close(fd[0]);
        mute(); cap_memory();
        worker(p, m, mix(seed, mix(nh, (uint64_t)w)), t_end, maxc, fd[1]);
        ::close(fd[1]);
        _exit(0);
      }
      ::close(fd[1]);
      pids[w] = pid;
      fcntl(fd[0], F_SETFL, fcntl(fd[0], F_GETFL) | O_NONBLOCK);
      pipes.push_back({fd[0], "", true});
    };
    for (int w = 0; w < W; ++w) { sh.push_back(mkshm()); pids.push_back(0); }
    for (int w = 0; w < W; ++w) launch(w);
    int running = W; int failed = -1;
    while (running > 0)
    {
      drain();
      for (int w = 0; w < W; ++w)
      {
        if (!alive[w]) continue;
        int st; pid_t r = waitpid(pids[w], &st, WNOHANG);
        if (r == pids[w])
        {
          if (sh[w]->state == 4) { launch(w); continue; }
          alive[w] = false; --running;
          if (sh[w]->state != 1) // failed or crashed
          {
            if (sh[w]->state == 0) sh[w]->state = 3;
            if (failed < 0) failed = w;
          }
        }
        else if (now_ms() > sh[w]->started_ms + (uint64_t)limit * 1000)
        {
          kill(pids[w], SIGKILL);
          waitpid(pids[w], &st, 0); alive[w] = false; --running;
          sh[w]->state = 3; if (failed < 0) failed = w;
        }
      }
      if (failed >= 0)
        for (int w = 0; w < W; ++w)
          if (alive[w]) { int st; kill(pids[w], SIGKILL); waitpid(pids[w], &st, 0); alive[w] = false; --running; }
      usleep(5000);
    }
    drain(); for (auto &q : pipes) buf.push_back(q.t);
    // aggregate
    uint64_t ev = 0, disc = 0, nt = 0; std::set<uint64_t> keys; std::vector<std::string> samples; std::map<std::string, long> labels;
    for (size_t w = 0; w < buf.size(); ++w)
    {
      std::istringstream is(buf[w]); uint64_t x; std::string line;
      if (!(is >> x)) continue;
      ev += x; is >> x; disc += x; is >> x; nt += x; size_t k; is >> k; std::getline(is, line);
      for (size_t i = 0; i < k; ++i) { std::getline(is, line); if (samples.size() < 6) samples.push_back(line); }
      is >> k; for (size_t i = 0; i < k; ++i) { long c; is >> c; std::getline(is, line); labels[line.substr(1)] += c; }
      is >> k; for (size_t i = 0; i < k; ++i) { is >> x; keys.insert(x); }
    }
    int verdict = 0; std::string msg, desc; size_t tape_n = 0, orig_n = 0; bool unreproduced = false;
    if (failed >= 0)
    {
      Shm *m = mkshm();
      std::vector<uint64_t> orig(sh[failed]->c, sh[failed]->c + sh[failed]->n), best = orig;
      orig_n = orig.size();
      int bad = 0;
      for (int i = 0; i < 3; ++i) bad += trial(p, orig, m, limit, nullptr);
      if (bad == 3)
      {
        best = shrink(p, orig, m, a.count("--shrink") ? atoi(a["--shrink"].c_str()) : 40, limit);
        bad = 0; for (int i = 0; i < 3; ++i) bad += trial(p, best, m, limit, nullptr);
        if (bad < 3) { best = orig; trial(p, best, m, limit, nullptr); }
        verdict = 1; msg = m->msg; desc = m->desc; tape_n = best.size();
        if (!replay.empty()) save_tape(replay, name, msg, desc, best);
      }
      else { unreproduced = true; msg = sh[failed]->msg; desc = sh[failed]->desc; }
    }
    std::ofstream o(out);
    o << "{\"prop\":" << js(name) << ",\"rule\":" << js(R.rules[name]) << ",\"evaluations\":" << ev << ",\"discarded\":" << disc
      << ",\"nontrivial\":" << nt << ",\"distinct_nontrivial\":" << keys.size() << ",\"labels\":{";
    bool f = true; for (auto &x : labels) { o << (f ? "" : ",") << js(x.first) << ":" << x.second; f = false; }
    o << "},\"samples\":["; f = true;
    for (auto &x : samples) { o << (f ? "" : ",") << x; f = false; }
    o << "],\"verdict\":" << verdict << ",\"unreproduced\":" << (unreproduced ? "true" : "false")
      << ",\"message\":" << js(msg) << ",\"case\":" << js(desc) << ",\"choices\":" << tape_n << ",\"choices_before_shrink\":" << orig_n << "}\n";
    o.close();
    return verdict;
  }
}
#define PBT_PROP(NAME, RULE) \
  static void prop_##NAME(pbt::Src &g, pbt::Ctx &ctx); \
  static pbt::Reg reg_##NAME(#NAME, RULE, prop_##NAME); \
  static void prop_##NAME(pbt::Src &g, pbt::Ctx &ctx)
#define PBT_MAIN int main(int argc, char **argv) { return pbt::main_(argc, argv); }
#endif
