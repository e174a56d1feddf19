// The whole program, from its command line to the closed data file: interrupted and continued runs,
// termination at any point, and whole runs under sanitizers or with different rubbish in fresh memory.
#include "smbkit.hpp"
#include <malloc.h>
#include <highfive/H5File.hpp>
#include "outController.hpp"
using namespace smbkit;
int picopic_main(int argc, char **argv);

namespace
{
  struct Event { long tick; int sig; int pause; }; // pause: how many naps before the next event during a pause
  // state of the running program (used in the child only)
  long ticks = 0, naps = 0, open_naps = 0; bool busy = false; std::vector<Event> plan; size_t next_ev = 0; std::string complaint; bool stopping = false;
  long all_naps = 0, pause_at = 0; bool paused = false, asked = false, unsure = false; // what the signals sent so far call for: a pause, its end, or one cannot tell
  bool file_open() { for (auto &s : HighFive::Store::all()) if (s.second->open) return true; return false; }
  void fire(int sig) { if (sig == SIGTERM || sig == SIGINT || sig == SIGQUIT || sig == SIGTSTP || sig == SIGPIPE || sig == SIGABRT || sig == SIGBUS || sig == SIGFPE || sig == SIGILL || sig == SIGSEGV) stopping = true; else if (sig == SIGUSR1) { if (!paused) { paused = true; asked = false; if (!pause_at) pause_at = ticks; } else if (asked) unsure = true; } else if (paused) asked = true; raise(sig); }
  void tick() { if (busy) return; ++ticks; open_naps = 0; busy = true; while (next_ev < plan.size() && plan[next_ev].tick <= ticks && !stopping) fire(plan[next_ev++].sig); busy = false; }
  void nap()
  {
    ++naps; ++all_naps; bool open = file_open(); if (open && (++open_naps > 1 || (paused && !asked && !unsure)) && complaint.empty()) complaint = "the data file is not released during a pause";
    if (open && asked) paused = asked = false;
    busy = true;
    if (next_ev < plan.size() && naps >= plan[next_ev].pause) { naps = 0; fire(plan[next_ev++].sig); }
    else if (next_ev >= plan.size() && naps >= 3) { if (naps > 50) { complaint = "the calculation does not continue"; _exit(77); } fire(SIGUSR2); }
    busy = false;
  }
  int out_fd = -1;
  void put(FILE *f, const void *p, size_t n) { fwrite(p, 1, n, f); }
  void put_s(FILE *f, const std::string &s) { size_t n = s.size(); put(f, &n, sizeof n); put(f, s.data(), n); }
  void dump()
  {
    busy = true; FILE *f = fdopen(out_fd, "wb"); if (!f) return; put_s(f, complaint); put(f, &ticks, sizeof ticks); long st[3] = {stopping, all_naps, pause_at}; put(f, st, sizeof st);
    auto &all = HighFive::Store::all(); long n = all.size(), op = file_open(); put(f, &n, sizeof n); put(f, &op, sizeof op);
    for (auto &st : all)
    {
      put_s(f, st.first); n = st.second->sattrs.size(); put(f, &n, sizeof n); for (auto &a : st.second->sattrs) { put_s(f, a.first); put_s(f, a.second); }
      n = st.second->dsets.size(); put(f, &n, sizeof n);
      for (auto &d : st.second->dsets)
      {
        put_s(f, d.first); n = d.second.dims.size(); put(f, &n, sizeof n); put(f, d.second.dims.data(), n * sizeof(size_t)); n = d.second.data.size(); put(f, &n, sizeof n); put(f, d.second.data.data(), n * sizeof(double));
        put(f, d.second.writes.data(), n * sizeof(long));
      }
    }
    fclose(f);
  }
  struct Set { std::vector<size_t> dims; std::vector<double> data; std::vector<long> writes; size_t frame() const { size_t n = 1; for (size_t i = 1; i < dims.size(); ++i) n *= dims[i]; return n; } };
  struct Result { int status = 0; bool complete = false; std::string complaint, err; long ticks = 0, open = 0, st[3] = {0, 0, 0}; std::map<std::string, std::map<std::string, std::string>> attrs; std::map<std::string, std::map<std::string, Set>> files; };
  bool get(FILE *f, void *p, size_t n) { return fread(p, 1, n, f) == n; }
  bool get_s(FILE *f, std::string &s) { size_t n; if (!get(f, &n, sizeof n) || n > (1 << 28)) return false; s.resize(n); return get(f, &s[0], n); }
  bool load(int fd, Result &r)
  {
    lseek(fd, 0, SEEK_SET); FILE *f = fdopen(dup(fd), "rb"); std::unique_ptr<FILE, int (*)(FILE *)> close(f, fclose); long n, m, k; if (!get_s(f, r.complaint) || !get(f, &r.ticks, sizeof(long)) || !get(f, r.st, sizeof r.st) || !get(f, &n, sizeof n) || !get(f, &r.open, sizeof(long))) return false;
    while (n-- > 0)
    {
      std::string name, a, b; if (!get_s(f, name) || !get(f, &m, sizeof m)) return false; r.files[name]; r.attrs[name]; while (m-- > 0) { if (!get_s(f, a) || !get_s(f, b)) return false; r.attrs[name][a] = b; }
      if (!get(f, &m, sizeof m)) return false;
      while (m-- > 0)
      {
        Set s; if (!get_s(f, a) || !get(f, &k, sizeof k)) return false; s.dims.resize(k); if (!get(f, s.dims.data(), k * sizeof(size_t)) || !get(f, &k, sizeof k)) return false;
        s.data.resize(k); s.writes.resize(k); if (!get(f, s.data.data(), k * sizeof(double)) || !get(f, s.writes.data(), k * sizeof(long))) return false; r.files[name][a] = s;
      }
    }
    return true;
  }
  struct Run { uint64_t seed = 1; int perturb = 0; std::vector<Event> plan; std::vector<std::string> args; bool existing = false, by_hand = false; std::string dir; };
  // what a run consists of, made of the library's own parts
  int by_hand(const std::string &path, const std::string &data_root)
  {
    Cfg cfg(path); TimeSim *t = cfg.time; SMB smb(&cfg, cfg.geometry, t, 0, 1); HighFive::File *file = new HighFive::File(data_root + "/data.h5", HighFive::File::Create | HighFive::File::Excl);
    OutController out(file, cfg.geometry, t, cfg.probes, &smb, cfg.cfg2value(), false); out.hdf5_file = file; smb.distribute();
    while (t->current <= t->end) { smb.inject_beam(); smb.solve_maxvell(); smb.advance_particles(); smb.solve_current(); out(); t->current += t->step; }
    delete file; return 0;
  }
  Result run(const World &w, const Run &o)
  {
    MemFile cfg(w.json()); int fd = (int)syscall(SYS_memfd_create, "out", 0); std::string errs; int ef = (int)syscall(SYS_memfd_create, "err", 0); pid_t pid = fork();
    if (pid == 0)
    {
      prctl(PR_SET_PDEATHSIG, SIGKILL);
      struct rlimit none = {0, 0}; setrlimit(RLIMIT_CORE, &none); alarm(20); int nul = open("/dev/null", O_RDWR); dup2(nul, 1); dup2(ef, 2); out_fd = fd; plan = o.plan; vrand::seed(o.seed); vshim::fatal_aborts = false; if (o.perturb) mallopt(M_PERTURB, o.perturb);
      HighFive::Store::all(); if (o.existing) { auto s = std::make_shared<HighFive::Store>(); s->name = w.data_root + "/data.h5"; s->sattrs["mine"] = "precious"; HighFive::Store::all()[s->name] = s; }
      atexit(dump); vshim::on_tick = tick; vshim::on_data = tick;
      std::vector<std::string> a = o.args.empty() ? std::vector<std::string>{"picopic", "-f", cfg.path} : o.args; std::vector<char *> v; for (auto &s : a) v.push_back(&s[0]); v.push_back(nullptr); int rc;
      try { if (!o.dir.empty() && chdir(o.dir.c_str())) _exit(96); rc = o.by_hand ? by_hand(cfg.path, w.data_root) : picopic_main((int)a.size(), v.data()); } catch (vshim::Fatal &e) { fprintf(stderr, "FATAL %s", e.what()); rc = 99; } catch (std::exception &e) { fprintf(stderr, "uncaught %s", e.what()); rc = 98; }
      exit(rc);
    }
    Result r; waitpid(pid, &r.status, 0); r.complete = load(fd, r); ::close(fd);
    char b[1500]; off_t n = lseek(ef, 0, SEEK_END); lseek(ef, 0, SEEK_SET); (void)n; ssize_t k = read(ef, b, sizeof b - 1); b[k > 0 ? k : 0] = 0; ::close(ef); r.err = k > 0 ? b : "";
    return r;
  }
  std::string status(const Result &r) { char b[64]; if (WIFEXITED(r.status)) snprintf(b, 64, "exit code %d", WEXITSTATUS(r.status)); else snprintf(b, 64, "killed by signal %d", WTERMSIG(r.status)); return std::string(b) + (r.complaint.empty() ? "" : ", " + r.complaint) + (r.err.empty() ? "" : ", " + r.err); }
  World gen_run(Src &g, int max_steps, bool busy_probes)
  {
    World w = gen_grid(g, 2, 4, 3, 6); w.data_root = g.flip() ? "run" : "run/deep"; w.macro = (double)g.range(20, 200); w.sp[0].density = w.sp[1].density = g.decade(13, 16); int n = (int)g.range(1, max_steps);
    if (g.chance(1, 4)) w.t_start = w.t_step * g.range(1, 12); w.t_end = w.t_start + w.t_step * (n + (g.flip() ? 0.5 : g.real(0.02, 0.98)));
    if (g.chance(1, 3)) { w.t_end = w.t_start; for (int i = 0; i < n; ++i) w.t_end += w.t_step; } // the last step falls on the end
    if (g.chance(1, 6)) w.t_end = w.t_start + w.t_step * n;
    if (g.chance(1, 2)) { Beam b; b.name = "electrons"; b.charge = -1; b.mass = 1; b.velocity = g.pick(std::vector<double>{1e7, 1e8, 2e8}); b.start_time = 0; b.amount = (int)g.range(1, 3); b.distance = w.longitude / 8; b.length = std::max(w.longitude / 4, b.velocity * w.t_step * 2); b.radius = w.radius / 2; b.density = 1e14; b.name = "beam"; w.bm.push_back(b); }
    int np = (int)g.range(1, 5); std::set<std::string> seen; static const std::vector<std::string> comps = {"E/r", "E/phi", "E/z", "H/r", "H/phi", "H/z", "J/r", "J/phi", "J/z", "density", "temperature", "energy", "momentum/r", "momentum/phi", "momentum/z"};
    for (int i = 0; i < np; ++i)
    {
      Probe p; p.component = g.pick(comps); if (p.component[0] >= 'a') p.specie = g.pick(std::vector<std::string>{"electrons", "ions"}); p.schedule = (int)g.range(1, busy_probes ? 3 : 5); p.shape = g.pick(std::vector<std::string>{"rec", "col", "row", "dot"});
      p.r0 = g.range(0, w.nr - 1); p.z0 = g.range(0, w.nz - 1); p.r1 = g.range(p.r0 + 1, w.nr); p.z1 = g.range(p.z0 + 1, w.nz); if (seen.insert(p.component + p.specie + p.shape + (p.shape == "col" ? "" : std::to_string(p.r0)) + "," + (p.shape == "row" ? "" : std::to_string(p.z0)) + (p.shape == "rec" ? "," + std::to_string(p.r1) + "," + std::to_string(p.z1) : "")).second) w.pr.push_back(p);
    }
#ifdef ENABLE_PML
    if (g.flip()) w.pml_l = g.real(0, 0.4); if (g.flip()) w.pml_r = g.real(0, 0.4); if (g.flip()) w.pml_o = g.real(0, 0.4);
#endif
#ifdef ENABLE_EXTERNAL_FIELDS
    if (g.flip()) { w.ef = "const_z"; w.ep = {1e3}; } if (g.flip()) { w.hf = "const_z"; w.hp = {10}; }
#endif
    return w;
  }
  std::string shown(const World &w) { std::ostringstream o; o << show(w) << ", " << (long)((w.t_end - w.t_start) / w.t_step) + 1 << " steps from step " << std::lround(w.t_start / w.t_step) << ", " << w.macro << " macroparticles, " << w.bm.size() << " beams"; for (auto &p : w.pr) o << "; " << p.component << " " << p.specie << " " << p.shape << " " << p.r0 << "," << p.z0 << "," << p.r1 << "," << p.z1 << " every " << p.schedule; return o.str(); }
  bool same_value(double a, double b) { return memcmp(&a, &b, sizeof a) == 0 || a == b; }
  void same_data(const Result &a, const Result &b, const char *what)
  {
    if (a.files.size() != b.files.size()) pbt::failf("%s: %zu files instead of %zu", what, a.files.size(), b.files.size());
    for (auto &f : b.files)
    {
      if (!a.files.count(f.first)) pbt::failf("%s: there is no file %s", what, f.first.c_str()); auto &g = a.files.at(f.first); if (a.attrs.at(f.first) != b.attrs.at(f.first)) pbt::failf("%s: attributes differ", what);
      if (g.size() != f.second.size()) pbt::failf("%s: %zu datasets instead of %zu", what, g.size(), f.second.size());
      for (auto &d : f.second)
      {
        if (!g.count(d.first)) pbt::failf("%s: there is no dataset %s", what, d.first.c_str()); auto &x = g.at(d.first), &y = d.second;
        if (x.dims != y.dims) pbt::failf("%s: %s has %zu frames instead of %zu", what, d.first.c_str(), x.dims[0], y.dims[0]);
        for (size_t i = 0; i < x.data.size(); ++i) { if (!same_value(x.data[i], y.data[i])) pbt::failf("%s: frame %zu of %s holds %.17g instead of %.17g", what, i / y.frame(), d.first.c_str(), x.data[i], y.data[i]); if (x.writes[i] != y.writes[i]) pbt::failf("%s: frame %zu of %s was written %ld times instead of %ld", what, i / y.frame(), d.first.c_str(), x.writes[i], y.writes[i]); }
      }
    }
  }
  int SIGS[] = {SIGTERM, SIGINT, SIGQUIT, SIGTSTP, SIGPIPE, SIGABRT, SIGFPE, SIGBUS, SIGILL, SIGSEGV};
}

PBT_PROP(signals, "whole runs with up to 6 signals (pause, continue, termination, repeated or out of order) at any log message or operation on the data file or nap of the pause, against the undisturbed run; non-trivial: a pause or a termination took place")
{
  World w = gen_run(g, 12, true); Run base; base.seed = g.seed64(); Result b = run(w, base); ctx.d << shown(w);
  if (!WIFEXITED(b.status) || WEXITSTATUS(b.status) || !b.complete) pbt::failf("undisturbed run: %s", status(b).c_str()); if (b.open) pbt::fail("undisturbed run: the data file was left open");
  Run o = base; int n = (int)g.range(1, 6); bool stop = false; int last = 0; bool pause = false;
  for (int i = 0; i < n && !stop; ++i)
  {
    Event e; e.tick = g.range(1, b.ticks + 20); e.pause = (int)g.range(1, 3); int k = (int)g.range(0, 5); if (k <= 2) e.sig = i % 2 ? SIGUSR2 : SIGUSR1; else if (k == 3) e.sig = SIGUSR1; else if (k == 4) e.sig = SIGUSR2; else { e.sig = SIGS[g.draw(g.flip() ? 5 : 10)]; }
    o.plan.push_back(e);
  }
  std::stable_sort(o.plan.begin(), o.plan.end(), [](const Event &a, const Event &b) { return a.tick < b.tick; });
  for (size_t i = 0; i < o.plan.size(); ++i) { ctx.d << "; " << strsignal(o.plan[i].sig) << " at " << o.plan[i].tick << "/" << b.ticks; if (o.plan[i].sig == SIGUSR1) pause = true; else if (o.plan[i].sig != SIGUSR2) { stop = true; last = o.plan[i].sig; o.plan.resize(i + 1); break; } }
  Result r = run(w, o);
  if (!WIFEXITED(r.status) || !r.complete) pbt::failf("disturbed run: %s", status(r).c_str()); if (!r.complaint.empty()) pbt::failf("disturbed run: %s", r.complaint.c_str()); if (r.open) pbt::fail("disturbed run: the data file was left open");
  int code = WEXITSTATUS(r.status); bool ended = stop && code == last; // the program may have ended before the signal
  if (r.st[0] && !ended) pbt::failf("terminated run: %s", status(r).c_str());
  long steps = (long)((w.t_end - w.t_start) / w.t_step) + 1; // a pause asked for so early comes before the last step
  if (steps >= 6 && r.st[2] && r.st[2] < b.ticks / 3 && !r.st[1] && !ended) pbt::fail("the calculation does not pause");
  if (!ended && code != 0) pbt::failf("disturbed run: %s", status(r).c_str());
  if (!ended) { same_data(r, b, "disturbed run"); if (pause) ctx.nontrivial(ctx.d.str()); ctx.label(pause ? "pause" : "none"); return; }
  // what was written before the termination is kept
  for (auto &f : r.files)
  {
    if (!b.files.count(f.first)) pbt::failf("there is an extra file %s", f.first.c_str());
    for (auto &d : f.second)
    {
      auto &y = b.files.at(f.first); if (!y.count(d.first)) pbt::failf("there is an extra dataset %s", d.first.c_str()); auto &x = d.second; auto &z = y.at(d.first); if (x.dims[0] > z.dims[0]) pbt::failf("%s has %zu frames, more than the undisturbed run", d.first.c_str(), x.dims[0]);
      size_t fr = x.frame(); for (size_t i = 0; i < x.data.size(); ++i) { bool unfinished = i / fr + 1 == x.dims[0] && x.writes[i] == 0; if (!unfinished && !same_value(x.data[i], z.data[i])) pbt::failf("terminated run: frame %zu of %s holds %.17g instead of %.17g", i / fr, d.first.c_str(), x.data[i], z.data[i]); }
    }
  }
  ctx.label("terminated"); ctx.nontrivial(ctx.d.str());
}

PBT_PROP(whole, "whole runs of random configurations with species, beams, probes of every kind, absorbing layers and decompositions; twice with different rubbish in fresh memory; every frame due is there, complete and finite; non-trivial: every case")
{
  World w = gen_run(g, 25, false); ctx.d << shown(w); Run a; a.seed = g.seed64(); a.perturb = 0x11; Run b = a; b.perturb = 0xee;
  Result x = run(w, a); if (!WIFEXITED(x.status) || WEXITSTATUS(x.status) || !x.complete) pbt::fail(status(x)); if (x.open) pbt::fail("the data file was left open");
  if (x.files.size() != 1) pbt::failf("%zu data files", x.files.size()); auto &f = x.files.begin()->second; if (x.files.begin()->first != w.data_root + "/data.h5") pbt::failf("the data file is %s", x.files.begin()->first.c_str());
  if (f.size() != w.pr.size()) pbt::failf("%zu datasets for %zu probes", f.size(), w.pr.size());
  long n = 0, n0 = std::lround(w.t_start / w.t_step); for (double t = w.t_start; t <= w.t_end; t += w.t_step) ++n;
  std::multiset<size_t> total, want; std::multiset<size_t> written, due; // frames count from time 0; those before the start stay empty
  for (auto &p : w.pr) { long k = 0, last = -1; for (long q = n0; q < n0 + n; ++q) if (q % p.schedule == 0) { ++k; last = q / p.schedule; } due.insert(k); if (k) want.insert(last + 1); }
  for (auto &d : f)
  {
    std::set<size_t> wr; for (size_t i = 0; i < d.second.data.size(); ++i) if (d.second.writes[i]) wr.insert(i / d.second.frame()); written.insert(wr.size()); if (!wr.empty()) total.insert(d.second.dims[0]);
    for (size_t i = 0; i < d.second.data.size(); ++i) { if (!std::isfinite(d.second.data[i])) pbt::failf("frame %zu of %s holds %g", i / d.second.frame(), d.first.c_str(), d.second.data[i]); if (d.second.writes[i] != (wr.count(i / d.second.frame()) ? 1 : 0)) pbt::failf("frame %zu of %s: an item was written %ld times", i / d.second.frame(), d.first.c_str(), d.second.writes[i]); }
  }
  if (written != due || total != want)
  {
    auto txt = [](const std::multiset<size_t> &m) { std::string t; for (auto v : m) t += (t.empty() ? "" : ",") + std::to_string(v); return t; };
    pbt::failf("%s frames are written to datasets of %s, %s to datasets of %s were due", txt(written).c_str(), txt(total).c_str(), txt(due).c_str(), txt(want).c_str());
  }
#ifndef NO_PERTURB
  Result y = run(w, b); if (!WIFEXITED(y.status) || WEXITSTATUS(y.status)) pbt::failf("with other rubbish in the memory: %s", status(y).c_str()); same_data(y, x, "with other rubbish in the memory");
#endif
  ctx.nontrivial(ctx.d.str());
}

PBT_PROP(faithful, "whole runs against the same steps done with the library's parts: filling, then in each step injection, fields, motion, currents and output, with the same random numbers; non-trivial: every case")
{
  World w = gen_run(g, 20, false); ctx.d << shown(w); Run a; a.seed = g.seed64(); Run b = a; b.by_hand = true;
  Result x = run(w, a), y = run(w, b); if (!WIFEXITED(x.status) || WEXITSTATUS(x.status) || !x.complete) pbt::fail(status(x)); if (!WIFEXITED(y.status) || WEXITSTATUS(y.status) || !y.complete) pbt::failf("steps by hand: %s", status(y).c_str());
  same_data(x, y, "the program, against steps by hand"); ctx.nontrivial(ctx.d.str());
}

PBT_PROP(command, "command lines with and without -f, -h and --version, missing and broken configuration files, an existing data file; non-trivial: every case")
{
  World w = gen_run(g, 2, true); Run o; int how = (int)g.range(0, 8); MemFile broken(g.flip() ? "" : w.json().substr(0, w.json().size() / 2)); int want = 0; ctx.d << "command line";
  switch (how)
  {
    case 0: o.args = {"picopic", "-h"}; want = 1; break; case 1: o.args = {"picopic", "--version"}; break; case 2: o.args = {"picopic", "-f"}; want = -1; break;
    case 3: o.args = {"picopic", "-f", "/nowhere/x.json"}; want = -1; break; case 4: o.args = {"picopic", "-f", broken.path}; want = -1; break; case 5: o.existing = true; want = -1; break;
    case 7: case 8: o.args = {"picopic"}; want = how == 7 ? 0 : -1; break; // PiCoPiC.json of the working directory
    case 6: o.args = {"picopic", "--version", "-f", "/nowhere/x.json"}; break;
  }
  for (auto &s : o.args) ctx.d << " " << s; if (how == 5) ctx.d << " with existing data file"; if (how >= 7) ctx.d << (how == 7 ? " with" : " without") << " PiCoPiC.json";
  std::string name; if (how >= 7) { char dir[] = "home-XXXXXX"; if (!mkdtemp(dir)) throw pbt::Discard(); o.dir = dir; w.data_root = "."; name = o.dir + "/PiCoPiC.json"; if (how == 7) { std::ofstream f(name); f << w.json(); } }
  Result r = run(w, o); if (!name.empty()) { unlink(name.c_str()); rmdir(o.dir.c_str()); }
  if (!WIFEXITED(r.status)) pbt::fail(status(r)); int rc = WEXITSTATUS(r.status); if (want >= 0 && rc != want) pbt::failf("%s, expected %d", status(r).c_str(), want); if (want < 0 && rc != 99) pbt::failf("%s, should have been refused", status(r).c_str());
  if (how == 5) { auto &a = r.attrs[w.data_root + "/data.h5"]; if (a["mine"] != "precious") pbt::fail("an existing data file was overwritten"); }
  ctx.nontrivial(ctx.d.str() + std::to_string(w.nr * 100 + w.nz));
}
extern "C" unsigned sleep(unsigned) { nap(); return 0; }
PBT_MAIN
