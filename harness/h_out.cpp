// Output: what the probes put into the data file, against the simulation's state at the time.
#include "smbkit.hpp"
#include "outController.hpp"
using namespace smbkit;

static long elapsed = 0; // the clock of the program under test: seconds since its start
extern "C" time_t time(time_t *p) { time_t t = 1600000000 + elapsed; if (p) *p = t; return t; }

namespace
{
  const L PI_ = 3.14159265358979323846L;
  static const std::vector<std::string> FIELD = {"E/r", "E/phi", "E/z", "H/r", "H/phi", "H/z", "J/r", "J/phi", "J/z"};
  static const std::vector<std::string> MAPS = {"density", "temperature", "energy", "momentum/r", "momentum/phi", "momentum/z"};
  bool specie_comp(const std::string &c) { return c[0] >= 'a'; }
  std::string path_of(const Probe &p)
  {
    std::string s = "/" + p.component + "/"; if (specie_comp(p.component)) s += p.specie + "/";
    auto n = [](long v) { return std::to_string(v); };
    if (p.shape == "rec") return s + "rec/" + n(p.r0) + "-" + n(p.r1) + "_" + n(p.z0) + "-" + n(p.z1);
    if (p.shape == "col") return s + "col/" + n(p.z0);
    if (p.shape == "row") return s + "row/" + n(p.r0);
    return s + "dot/" + n(p.r0) + "_" + n(p.z0);
  }
  long edge(Src &g, long n, long doms) // cells, often next to a domain's border
  {
    if (doms > 1 && g.chance(1, 2)) { long b = g.range(1, doms - 1) * (n / doms); return std::min(std::max(b - 1 + g.range(0, 2), 0L), n - 1); }
    return g.range(0, n - 1);
  }
  void place_probe(Src &g, const World &w, Probe &p, bool full)
  {
    p.shape = full ? "rec" : g.pick(std::vector<std::string>{"rec", "col", "row", "dot"});
    if (full) { p.r0 = p.z0 = 0; p.r1 = w.nr; p.z1 = w.nz; }
    else if (p.shape == "rec")
    {
      p.r0 = edge(g, w.nr, w.dr_n); p.z0 = edge(g, w.nz, w.dz_n);
      p.r1 = g.chance(1, 3) ? w.nr : std::max(edge(g, w.nr, w.dr_n), p.r0) + 1; p.z1 = g.chance(1, 3) ? w.nz : std::max(edge(g, w.nz, w.dz_n), p.z0) + 1;
    }
    else { p.r0 = edge(g, w.nr, w.dr_n); p.z0 = edge(g, w.nz, w.dz_n); p.r1 = p.z1 = 0; }
  }
  // cells a probe covers, in the order of its frame
  std::vector<std::pair<long, long>> cells(const Probe &p, const World &w, std::vector<size_t> &dims)
  {
    std::vector<std::pair<long, long>> o;
    if (p.shape == "rec") { dims = {(size_t)(p.r1 - p.r0), (size_t)(p.z1 - p.z0)}; for (long i = p.r0; i < p.r1; ++i) for (long k = p.z0; k < p.z1; ++k) o.push_back({i, k}); }
    else if (p.shape == "col") { dims = {(size_t)w.nr}; for (long i = 0; i < w.nr; ++i) o.push_back({i, p.z0}); }
    else if (p.shape == "row") { dims = {(size_t)w.nz}; for (long k = 0; k < w.nz; ++k) o.push_back({p.r0, k}); }
    else { dims = {1}; o.push_back({p.r0, p.z0}); }
    return o;
  }
  double val(uint64_t seed, long step, int c, long i, long k) // a field nobody else could have made
  {
    uint64_t z = seed + 0x9E3779B97F4A7C15ULL * (uint64_t)(((step * 16 + c) * 4096 + i) * 4096 + k + 1);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL; z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL; z ^= z >> 31;
    return (double)(z >> 11) / 9007199254740992. * 2 - 1 + 1e-3;
  }
  struct Frame { std::vector<double> v; };
  void check(HighFive::Store &st, const World &w, const Probe &p, const std::map<long, std::function<double(long, long, double &)>> &at)
  {
    std::string path = path_of(p); auto it = st.dsets.find(path); if (it == st.dsets.end()) pbt::failf("there is no dataset %s", path.c_str());
    auto &d = it->second; std::vector<size_t> dims; auto cs = cells(p, w, dims);
    size_t frames = at.size(); if (d.dims.size() != dims.size() + 1) pbt::failf("%s has %zu dimensions", path.c_str(), d.dims.size());
    if (d.dims[0] != frames) pbt::failf("%s has %zu frames, %zu were due", path.c_str(), d.dims[0], frames);
    for (size_t i = 0; i < dims.size(); ++i) if (d.dims[i + 1] != dims[i]) pbt::failf("%s: dimension %zu is %zu, %zu configured", path.c_str(), i, d.dims[i + 1], dims[i]);
    for (auto &f : at)
      for (size_t n = 0; n < cs.size(); ++n)
      {
        double tol = 0, want = f.second(cs[n].first, cs[n].second, tol), got = d.data[f.first * cs.size() + n];
        if (tol < 0) continue;
        if (!(fabs(got - want) <= tol)) pbt::failf("%s, frame %ld: cell %ld,%ld is %.12g, the simulation had %.12g", path.c_str(), f.first, cs[n].first, cs[n].second, got, want);
      }
  }
  struct Out
  {
    HighFive::File *file; OutController *oc; std::string name;
    Out(Sim &s, bool table = false) { name = "data" + std::to_string((long)getpid()) + ".h5"; HighFive::Store::all().erase(name); file = new HighFive::File(name, HighFive::File::Create | HighFive::File::Excl);
                  oc = new OutController(file, s.cfg->geometry, s.cfg->time, s.cfg->probes, s.smb, s.cfg->cfg2value(), table); oc->hdf5_file = file; }
    HighFive::Store &st() { return file->store(); }
    ~Out() { delete oc; delete file; HighFive::Store::all().erase(name); }
  };
}

PBT_PROP(frames, "0..7 field probes of every shape around domain borders, schedules of 1..100, 1..1500 steps of a clock that adds up as the simulation's does, over 1..64 domains; every frame against the fields of its step; non-trivial: more than one domain or frame")
{
  World w = gen_grid(g, 4, 4, 1, 6); w.t_step = g.pick(std::vector<double>{5e-13, 1e-12, 1e-13, 3e-13, 7e-14, 1e-14}) * (g.chance(1, 3) ? g.real(0.5, 2) : 1);
  int np = (int)g.range(0, 7); std::set<std::string> paths;
  for (int i = 0; i < np; ++i) { Probe p; p.component = g.pick(FIELD); p.schedule = (int)(g.chance(1, 10) ? g.range(13, 100) : g.range(1, 12)); if (i && g.chance(1, 3)) p.component = w.pr.empty() ? p.component : w.pr.back().component; place_probe(g, w, p, false); if (paths.insert(path_of(p)).second) w.pr.push_back(p); }
  w.comment = g.flip() ? "No comments" : "x"; w.data_root = "d";
  int steps = g.chance(1, 40) ? (int)g.range(151, 1500) : g.chance(1, 3) ? (int)g.range(1, 150) : (int)g.range(1, 40); uint64_t seed = g.seed64();
  ctx.d << show(w) << ", step " << w.t_step << ", " << steps << " steps"; for (auto &p : w.pr) ctx.d << "; " << path_of(p) << " every " << p.schedule;
  Sim s(w); Out o(s); TimeSim *t = s.cfg->time; t->current = 0; std::vector<std::map<long, std::function<double(long, long, double &)>>> at(w.pr.size());
  auto fld = [&](Domain *d, int c) -> Grid<double> & { return c < 3 ? d->maxwell_solver->field_e[c] : c < 6 ? d->maxwell_solver->field_h_at_et[c - 3] : d->current->current[c - 6]; };
  for (long n = 0; n < steps; ++n)
  {
    for (long a = 0; a < w.dr_n; ++a) for (long b = 0; b < w.dz_n; ++b) for (int c = 0; c < 9; ++c)
    {
      Grid<double> &G = fld(s.dom(a, b), c);
      for (long i = -1; i <= s.cr; ++i) for (long k = -1; k <= s.cz; ++k) G.set(i, k, i < 0 || k < 0 || i >= s.cr || k >= s.cz ? 7777. : val(seed, n, c, a * s.cr + i, b * s.cz + k));
      if (c >= 3 && c < 6) { Grid<double> &H = s.dom(a, b)->maxwell_solver->field_h[c - 3]; for (long i = 0; i < s.cr; ++i) for (long k = 0; k < s.cz; ++k) H.set(i, k, -5555.); }
    }
    (*o.oc)();
    for (size_t q = 0; q < w.pr.size(); ++q)
      if (n % w.pr[q].schedule == 0)
      {
        int c = (int)(std::find(FIELD.begin(), FIELD.end(), w.pr[q].component) - FIELD.begin());
        at[q][n / w.pr[q].schedule] = [=](long i, long k, double &) { return val(seed, n, c, i, k); };
      }
    t->current += t->step;
  }
  for (size_t q = 0; q < w.pr.size(); ++q) check(o.st(), w, w.pr[q], at[q]);
  if (o.st().dsets.size() != w.pr.size()) pbt::failf("%zu datasets for %zu probes", o.st().dsets.size(), w.pr.size());
  // the file says what it was made with
  picojson::value orig, meta; picojson::parse(orig, w.json()); std::string e = picojson::parse(meta, o.st().sattrs["metadata"]); if (!e.empty()) pbt::fail("the metadata is no JSON");
  for (const char *k : {"geometry", "time", "particles", "beams", "macro_amount", "comment"}) if (orig.get(k).serialize() != meta.get(k).serialize()) pbt::failf("item '%s' of the metadata differs from the configuration", k);
  const picojson::value cval = s.cfg->cfg2value(), bo = cval.get("build_options"); auto &sa = o.st().sattrs;
  auto at_ = [&](const char *a, const std::string &v) { if (!sa.count(a) || sa[a] != v) pbt::failf("attribute %s is '%s', expected '%s'", a, sa[a].c_str(), v.c_str()); };
  at_("software", PACKAGE_NAME); at_("softwareVersion", PACKAGE_VERSION); at_("comment", w.comment); at_("softwareConfigParticlesPusher", bo.get("particles_pusher").to_str());
  at_("softwareConfigCurrentDeposition", bo.get("current_deposition").to_str()); at_("softwareConfigFieldSolver", bo.get("maxwell_solver").to_str());
  at_("softwareConfigPlasmaSpatialDistribution", bo.get("plasma_spatial_distribution").to_str()); at_("softwareConfigPlasmaVelocityDistribution", bo.get("plasma_velocity_distribution").to_str());
  if (o.st().battrs["softwareConfigDebug"] != bo.get("debug").evaluate_as_boolean() || o.st().battrs["softwareConfigIEEE"] != bo.get("ieee").evaluate_as_boolean()) pbt::fail("debug or IEEE attribute differs");
  ctx.label(w.pr.empty() ? "no probes" : "probes"); if (!w.pr.empty() && (w.dr_n * w.dz_n > 1 || steps > 12)) ctx.nontrivial(ctx.d.str());
}

PBT_PROP(far, "1..3 field probes with schedules of 1..200000 steps, many around powers of 256, and areas of up to 80000 cells in a direction: frames of the steps that are due, of their neighbours and of others; non-trivial: a schedule above 255 or more than 255 cells")
{
  World w = gen_grid(g, 2, 2, 1, 6); w.data_root = "d"; w.t_step = g.pick(std::vector<double>{5e-13, 1e-12, 3e-13, 7e-14}); std::set<std::string> paths; bool big = g.chance(1, 4);
  if (big) { long &n = g.flip() ? w.nr : w.nz, d = &n == &w.nr ? w.dr_n : w.dz_n, was = n; n = d * (long)(g.chance(1, 4) ? g.range(30000, 40000) : g.decade(2, 3.5)); (&n == &w.nr ? w.radius : w.longitude) *= (double)n / was; }
  long S = g.chance(1, 2) ? g.pick(std::vector<long>{127, 128, 255, 256, 257, 32767, 32768, 65535, 65536, 65537, 131072}) : (long)g.decade(0, 5.3), top = S * g.range(1, 4) + 1; int np = (int)g.range(1, 3);
  for (int i = 0; i < np; ++i) { Probe p; p.component = g.pick(FIELD); p.schedule = (int)(i ? S * g.range(1, 3) + g.range(0, 1) : S); place_probe(g, w, p, false); if (paths.insert(path_of(p)).second) w.pr.push_back(p); }
  std::set<long> visit; for (int i = 0, k = (int)g.range(0, 4); i < k; ++i) visit.insert(g.range(0, top)); for (auto &p : w.pr) for (long n = 0; n <= top; n += p.schedule) for (long d = n ? -1 : 0; d <= 1; ++d) visit.insert(n + d);
  uint64_t seed = g.seed64(); ctx.d << show(w) << ", step " << w.t_step << ", up to step " << top; for (auto &p : w.pr) ctx.d << "; " << path_of(p) << " every " << p.schedule;
  Sim s(w); Out o(s); TimeSim *t = s.cfg->time; std::vector<std::map<long, std::function<double(long, long, double &)>>> at(w.pr.size());
  for (long n : visit)
  {
    t->current = n * t->step; std::set<int> used; for (auto &p : w.pr) used.insert((int)(std::find(FIELD.begin(), FIELD.end(), p.component) - FIELD.begin()));
    for (long a = 0; a < w.dr_n; ++a) for (long b = 0; b < w.dz_n; ++b) for (int c : used)
    {
      Domain *d = s.dom(a, b); Grid<double> &G = c < 3 ? d->maxwell_solver->field_e[c] : c < 6 ? d->maxwell_solver->field_h_at_et[c - 3] : d->current->current[c - 6];
      for (long i = 0; i < s.cr; ++i) for (long k = 0; k < s.cz; ++k) G.set(i, k, val(seed, n, c, a * s.cr + i, b * s.cz + k));
    }
    (*o.oc)();
    for (size_t q = 0; q < w.pr.size(); ++q) if (n % w.pr[q].schedule == 0) { int c = (int)(std::find(FIELD.begin(), FIELD.end(), w.pr[q].component) - FIELD.begin()); at[q][n / w.pr[q].schedule] = [=](long i, long k, double &) { return val(seed, n, c, i, k); }; }
  }
  for (size_t q = 0; q < w.pr.size(); ++q) check(o.st(), w, w.pr[q], at[q]);
  if (S > 255 || w.nr > 255 || w.nz > 255) ctx.nontrivial(ctx.d.str());
}

PBT_PROP(progress, "0..5 probes of fields and of species, schedules of 1..12 and rarely up to 100000, 1..60 steps and up to 40 days of elapsed time: rows of the progress table; non-trivial: more than one row")
{
  World w = gen_grid(g, 4, 4, 1, 6); w.data_root = "d"; w.t_step = g.decade(-15, -10); std::set<std::string> paths; w.macro = 200; bool on = !g.chance(1, 6);
  for (int i = 0, np = (int)g.range(0, 5); i < np; ++i)
  {
    Probe p; p.component = g.pick(g.chance(1, 4) ? MAPS : FIELD); if (specie_comp(p.component)) p.specie = g.pick(w.sp).name; p.schedule = (int)(g.chance(1, 8) ? g.decade(0, 5) : g.range(1, 12)); place_probe(g, w, p, false);
    if (paths.insert(path_of(p)).second) w.pr.push_back(p);
  }
  long first = g.chance(1, 3) ? (long)g.decade(0, 5) : 0; int steps = (int)g.range(1, 60); ctx.d << show(w) << ", step " << w.t_step << ", steps from " << first << " on, " << steps << " of them" << (on ? "" : ", no table"); for (auto &p : w.pr) ctx.d << "; " << path_of(p) << " every " << p.schedule;
  struct Row { long step, frame; std::string path, shape; double t; long el; }; std::vector<Row> want, got; std::ostringstream out; long heads = 0, rows = 0; elapsed = 0;
  {
    Sim s(w); Out o(s, on); TimeSim *t = s.cfg->time; struct Redirect { std::streambuf *b; Redirect(std::ostream &o) : b(std::cout.rdbuf(o.rdbuf())) {} ~Redirect() { std::cout.rdbuf(b); } } rd(out);
    for (long n = first; n < first + steps; ++n)
    {
      t->current = n * t->step; elapsed += g.chance(1, 3) ? (long)g.decade(0, g.chance(1, 5) ? 6 : 3) : 0;
      for (auto &p : w.pr) if (n % p.schedule == 0) want.push_back({n, n / p.schedule, path_of(p).substr(1), p.shape, (double)t->current, elapsed});
      (*o.oc)();
    }
  }
  auto trim = [](std::string x) { size_t a = x.find_first_not_of(' '), b = x.find_last_not_of(' '); return a == std::string::npos ? std::string() : x.substr(a, b - a + 1); };
  std::istringstream in(out.str()); std::string line;
  while (std::getline(in, line))
  {
    if (line.empty() || line[0] != '|') continue; std::vector<std::string> c; std::stringstream ls(line); std::string x; while (std::getline(ls, x, '|')) c.push_back(trim(x));
    if (c.size() != 7) pbt::failf("a row of %zu cells: %s", c.size(), line.c_str()); if (c[1] == "Step") { ++heads; continue; } ++rows; if (!heads) pbt::fail("a row without a header before it");
    long el = 0, num = 0; bool digits = false; for (char ch : c[6]) { if (isdigit((unsigned char)ch)) { num = digits ? num * 10 + (ch - '0') : ch - '0'; digits = true; } else if (ch != ' ') { long u = ch == 'd' ? 86400 : ch == 'h' ? 3600 : ch == 'm' ? 60 : ch == 's' ? 1 : -1; if (!digits || u < 0) pbt::failf("elapsed time is '%s'", c[6].c_str()); el += num * u; digits = false; } }
    got.push_back({atol(c[1].c_str()), atol(c[2].c_str()), c[3], c[4], atof(c[5].c_str()), el});
  }
  if (!on) { if (got.size() || heads) pbt::fail("the table is printed in spite of being switched off"); return; }
  if (got.size() != want.size()) pbt::failf("%zu rows for %zu frames", got.size(), want.size());
  for (size_t i = 0; i < got.size(); ++i)
  {
    Row &a = got[i], &b = want[i];
    if (a.step != b.step || a.frame != b.frame || a.path != b.path || a.shape != b.shape) pbt::failf("row %zu tells step %ld, frame %ld of %s (%s) instead of step %ld, frame %ld of %s (%s)", i, a.step, a.frame, a.path.c_str(), a.shape.c_str(), b.step, b.frame, b.path.c_str(), b.shape.c_str());
    if (!(fabs(a.t - b.t) <= 1e-5 * b.t)) pbt::failf("row %zu tells model time %g instead of %g", i, a.t, b.t); if (a.el != b.el) pbt::failf("row %zu tells %ld elapsed seconds instead of %ld", i, a.el, b.el);
  }
  if (got.size() > 1) ctx.nontrivial(ctx.d.str());
}

PBT_PROP(odd_probes, "field probes mixed with probes of unknown components, of species that do not exist and repeated probes: nothing crashes and the sound probes are not disturbed; non-trivial: any odd probe present")
{
  World w = gen_grid(g, 2, 4, 2, 5); std::set<std::string> paths; std::vector<size_t> good; bool odd = false; w.data_root = "d";
  int np = (int)g.range(1, 6);
  for (int i = 0; i < np; ++i)
  {
    Probe p; p.schedule = (int)g.range(1, 4); place_probe(g, w, p, false); int k = (int)g.range(0, 3);
    if (k <= 1) p.component = g.pick(FIELD); else if (k == 2) { p.component = g.pick(MAPS); p.specie = g.pick(std::vector<std::string>{"nobody", "beam_electrons", "Electrons"}); } else p.component = g.pick(std::vector<std::string>{"E", "B/r", "e/r", "momentum", "E/x"});
    if (!paths.insert(path_of(p)).second) continue;
    if (k <= 1) good.push_back(w.pr.size()); else odd = true; w.pr.push_back(p);
  }
  int steps = (int)g.range(1, 9); uint64_t seed = g.seed64(); ctx.d << show(w) << ", " << steps << " steps"; for (auto &p : w.pr) ctx.d << "; " << path_of(p) << " every " << p.schedule;
  Sim s(w); Out o(s); TimeSim *t = s.cfg->time; std::vector<std::map<long, std::function<double(long, long, double &)>>> at(w.pr.size());
  for (long n = 0; n < steps; ++n)
  {
    for (long a = 0; a < w.dr_n; ++a) for (long b = 0; b < w.dz_n; ++b) for (int c = 0; c < 9; ++c)
    {
      Domain *d = s.dom(a, b); Grid<double> &G = c < 3 ? d->maxwell_solver->field_e[c] : c < 6 ? d->maxwell_solver->field_h_at_et[c - 3] : d->current->current[c - 6];
      for (long i = 0; i < s.cr; ++i) for (long k = 0; k < s.cz; ++k) G.set(i, k, val(seed, n, c, a * s.cr + i, b * s.cz + k));
    }
    (*o.oc)();
    for (size_t q : good) if (n % w.pr[q].schedule == 0) { int c = (int)(std::find(FIELD.begin(), FIELD.end(), w.pr[q].component) - FIELD.begin()); at[q][n / w.pr[q].schedule] = [=](long i, long k, double &) { return val(seed, n, c, i, k); }; }
    t->current += t->step;
  }
  for (size_t q : good) check(o.st(), w, w.pr[q], at[q]);
  if (odd) ctx.nontrivial(ctx.d.str());
}

PBT_PROP(maps, "1..8 density, momentum, energy and temperature probes of every shape and order over 1..64 domains with 0..40 macroparticles of 2..4 species and 0..2 beams that change between 1..4 steps; every frame against averages over the undivided area; non-trivial: particles near a border of domains")
{
  World w = gen_grid(g, 4, 4, 2, 6); w.sp[1].mass = (double)g.range(2, 4000); std::set<std::string> paths; w.data_root = "d"; w.macro = 20000;
  std::vector<std::string> names = {w.sp[0].name, w.sp[1].name}; std::vector<double> masses = {w.sp[0].mass, w.sp[1].mass};
  for (int i = (int)(g.chance(1, 3) ? g.range(1, 2) : 0); i > 0; --i) { w.sp.push_back({g.pick(i > 1 ? std::vector<std::string>{"ions2", "electrons2"} : std::vector<std::string>{"ele", "io", "more"}), g.pick(std::vector<double>{-1, 1, 3}), g.pick(std::vector<double>{2, 0.5, 100}), 1e15, 1}); names.push_back(w.sp.back().name); masses.push_back(w.sp.back().mass); }
  for (int i = (int)(g.chance(1, 3) ? g.range(1, 2) : 0); i > 0; --i) { w.bm.push_back({i > 1 ? std::string("electrons") : g.pick(std::vector<std::string>{"electrons2", "elec", "second"}), -1, g.pick(std::vector<double>{1, 5}), 1e8, 0, 1, 0, w.longitude / 3, w.radius / 2, 1e14}); names.push_back("beam_" + w.bm.back().name); masses.push_back(w.bm.back().mass); }
  const int ns = (int)names.size();
  int np = (int)g.range(1, 8);
  for (int i = 0; i < np; ++i) { Probe p; p.component = g.pick(MAPS); p.specie = g.pick(names); p.schedule = (int)g.range(1, 3); place_probe(g, w, p, g.flip()); if (paths.insert(path_of(p)).second) w.pr.push_back(p); }
  int steps = (int)g.range(1, 4), n = (int)(g.chance(1, 15) ? g.range(41, 300) : g.range(0, 40)); bool nt = false; double dr = w.radius / w.nr, dz = w.longitude / w.nz;
  ctx.d << show(w) << ", " << n << " particles, " << steps << " steps"; for (auto &p : w.pr) ctx.d << "; " << path_of(p) << " every " << p.schedule;
  Sim s(w); Out o(s); TimeSim *t = s.cfg->time; std::vector<std::map<long, std::function<double(long, long, double &)>>> at(w.pr.size());
  struct Node { L w = 0, pa = 0, p[3] = {0, 0, 0}; };
  const double RL = REL_LIMIT;
  for (long st = 0; st < steps; ++st)
  {
    for (long a = 0; a < w.dr_n; ++a) for (long b = 0; b < w.dz_n; ++b) for (int q = 0; q < ns; ++q) { for (auto p : s.specie(a, b, q)->particles) delete p; s.specie(a, b, q)->particles.clear(); }
    std::vector<std::shared_ptr<std::vector<Node>>> M(ns); for (auto &m : M) m = std::make_shared<std::vector<Node>>(w.nr * w.nz);
    double mode = g.pick(std::vector<double>{1e4, 1e6, 4e7, 1.7e8}); bool par = g.chance(1, 4); double pv[3] = {g.real(-1, 1), g.real(-1, 1), g.real(-1, 1)}; L wmax = 0;
    for (int q = 0; q < n; ++q)
    {
      Seed e; e.sp = (int)g.draw(ns); double lr = g.open(0.001, w.nr - 0.001), lz = g.open(0.001, w.nz - 0.001);
      if (w.dr_n > 1 && g.chance(1, 3)) lr = g.range(1, w.dr_n - 1) * (double)s.cr + g.sgn() * g.decade(-3, 0); if (w.dz_n > 1 && g.chance(1, 3)) lz = g.range(1, w.dz_n - 1) * (double)s.cz + g.sgn() * g.decade(-3, 0);
      lr = std::min(std::max(lr, 0.001), w.nr - 0.001); lz = std::min(std::max(lz, 0.001), w.nz - 0.001);
      e.r = lr * dr; e.z = lz * dz; double f = par ? g.real(0.1, 1) : 1; e.vr = mode * (par ? pv[0] * f : g.real(-1, 1)); e.vp = mode * (par ? pv[1] * f : g.real(-1, 1)); e.vz = mode * (par ? pv[2] * f : g.real(-1, 1)); e.w = g.decade(3, 7);
      s.add(e); wmax = std::max(wmax, (L)e.w);
      L R = (L)e.r / dr, Z = (L)e.z / dz; long i = (long)floorl(R), k = (long)floorl(Z); L fz = Z - k, fr = e.r <= dr / 2 ? (0.5L - R + R * R) / (2 * R * R + 0.5L) : (((i + 0.5L) * (i + 0.5L) - 0.25L)) / (2 * R) - R / 2 + 0.5L;
      if ((w.dr_n > 1 && (i + 1) % s.cr == 0 && i + 1 < w.nr) || (w.dz_n > 1 && (k + 1) % s.cz == 0 && k + 1 < w.nz)) nt = true;
      L v2 = (L)e.vr * e.vr + (L)e.vp * e.vp + (L)e.vz * e.vz, gm = v2 > (L)RL * RL ? 1 / sqrtl(1 - v2 / ((L)C0 * C0)) : 1, m = masses[e.sp] * (L)ME * gm;
      for (int a = 0; a < 2; ++a) for (int b = 0; b < 2; ++b)
      {
        if (i + a >= w.nr || k + b >= w.nz) continue;
        Node &N = (*M[e.sp])[(i + a) * w.nz + k + b]; L x = e.w * (a ? 1 - fr : fr) * (b ? fz : 1 - fz);
        N.w += x; N.pa += x * m * sqrtl(v2); N.p[0] += x * m * e.vr; N.p[1] += x * m * e.vp; N.p[2] += x * m * e.vz;
      }
    }
    (*o.oc)();
    for (size_t q = 0; q < w.pr.size(); ++q)
    {
      const Probe &p = w.pr[q]; if (st % p.schedule) continue; int sp = (int)(std::find(names.begin(), names.end(), p.specie) - names.begin()); auto m = M[sp]; L mass = masses[sp] * (L)ME; std::string c = p.component; long nz = w.nz;
      at[q][st / p.schedule] = [=](long i, long k, double &tol) -> double
      {
        Node &N = (*m)[i * nz + k]; L V = PI_ * dr * dr * dz * (2 * i + 1);
        if (c == "density") { tol = (double)(1e-9L * N.w / V + 1e-11L * wmax / V); return (double)(N.w / V); }
        if (N.w == 0) { tol = 0; return 0; }
        if (N.w < 1e-9L * wmax) { tol = -1; return 0; }
        auto en = [&](L p2, double &tl) { L lim = (L)RL * RL * mass * mass, E0 = mass * (L)C0 * C0, cl = 0.5L * p2 / mass, re = sqrtl(p2 * C0 * C0 + E0 * E0) - E0, e = p2 > lim ? re : cl; if (fabsl(p2 / lim - 1) < 1e-6L) tl += (double)fabsl(re - cl) / 1.6e-19; return (double)(e / (L)QE); };
        L pm = N.pa / N.w;
        if (c == "energy") { tol = 0; double e = en(pm * pm, tol); tol += fabs(e) * 1e-6; return e; }
        if (c == "temperature") { tol = 0; L v = (N.p[0] * N.p[0] + N.p[1] * N.p[1] + N.p[2] * N.p[2]) / (N.w * N.w); double e = en(std::max(0.L, pm * pm - v), tol); tol += fabs(e) * 1e-6 + (double)(pm * pm / mass / (L)QE) * 1e-9; return e; }
        int d = c == "momentum/r" ? 0 : c == "momentum/phi" ? 1 : 2; tol = (double)(1e-8L * pm); return (double)(N.p[d] / N.w);
      };
    }
    t->current += t->step;
  }
  for (size_t q = 0; q < w.pr.size(); ++q) check(o.st(), w, w.pr[q], at[q]);
  if (nt) ctx.nontrivial(ctx.d.str());
}

PBT_MAIN
