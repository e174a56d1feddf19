// Configuration: what is read is what was written, what cannot be simulated is refused or reported.
#include "smbkit.hpp"
#include "algo/common.hpp"
using namespace smbkit;

namespace
{
  std::string word(Src &g, int lo, int hi)
  {
    static const char *al = "abcdefghijklmnopqrstuvwxyzABCDEFGH0123456789_";
    std::string s; int n = (int)g.range(lo, hi); for (int i = 0; i < n; ++i) s += al[g.draw(45)];
    return s;
  }
  bool reserved(const std::string &s) { static const std::set<std::string> r = {"electrons", "Electrons", "electron", "Electron", "ions", "Ions", "ion", "Ion"}; return r.count(s); }
  static const std::vector<std::string> COMP = {"E/r", "E/phi", "E/z", "H/r", "H/phi", "H/z", "J/r", "J/phi", "J/z", "density", "temperature", "energy", "momentum/r", "momentum/phi", "momentum/z"};
  bool specie_comp(const std::string &c) { return c[0] >= 'a'; }

  Probe gen_probe(Src &g, const World &w)
  {
    Probe p; p.component = g.pick(COMP); if (specie_comp(p.component)) p.specie = g.pick(w.sp).name;
    p.shape = g.pick(std::vector<std::string>{"rec", "col", "row", "dot"}); p.schedule = (int)(g.chance(1, 4) ? g.decade(0, 9) : g.range(1, 50));
    if (p.shape == "rec") { p.r0 = g.range(0, w.nr - 1); p.z0 = g.range(0, w.nz - 1); p.r1 = g.range(p.r0 + 1, w.nr); p.z1 = g.range(p.z0 + 1, w.nz); }
    else { p.r0 = g.chance(1, 3) ? w.nr - 1 : g.range(0, w.nr - 1); p.z0 = g.chance(1, 3) ? w.nz - 1 : g.range(0, w.nz - 1); p.r1 = p.z1 = 0; }
    return p;
  }
  std::string path_of(const Probe &p)
  {
    std::string s = p.component + "/"; if (specie_comp(p.component)) s += p.specie + "/";
    auto n = [](long v) { return std::to_string(v); };
    if (p.shape == "rec") return s + "rec/" + n(p.r0) + "-" + n(p.r1) + "_" + n(p.z0) + "-" + n(p.z1);
    if (p.shape == "col") return s + "col/" + n(p.z0);
    if (p.shape == "row") return s + "row/" + n(p.r0);
    return s + "dot/" + n(p.r0) + "_" + n(p.z0);
  }
  World gen_world(Src &g)
  {
    World w = gen_grid(g, 4, 4, 2, 12);
    w.radius *= g.real(0.5, 2); w.longitude *= g.real(0.5, 2);
    w.pml_l = g.chance(1, 2) ? 0 : g.real(0, 0.5); w.pml_r = g.chance(1, 2) ? 0 : g.real(0, 0.5); w.pml_o = g.chance(1, 2) ? 0 : g.real(0, 0.9);
    w.s1 = g.decade(-6, -1); w.s2 = g.decade(-3, 2);
    w.t_step = g.decade(-15, -10); w.t_start = g.flip() ? 0 : w.t_step * g.real(0, 1e4); w.t_end = w.t_start + w.t_step * g.real(1, 1e5);
    w.macro = floor(g.decade(1, 6)); w.ratio = (double)g.range(1, 9);
    w.sp.clear();
    w.sp.push_back({"electrons", -1, 1, g.decade(8, 22), g.decade(-3, 5)});
    w.sp.push_back({"ions", 1, (double)g.range(2, 200000), g.decade(8, 22), g.decade(-3, 5)});
    bool much = g.chance(1, 20); int extra = (int)g.range(0, much ? 12 : 4); std::set<std::string> names = {"electrons", "ions"};
    // names whose hashes meet are rare: they are looked for
    std::map<unsigned, std::string> seen; std::vector<std::string> twins;
    if (extra >= 2 && g.chance(1, 3))
      for (int t = 0; t < 1500 && twins.empty(); ++t)
      {
        std::string s = word(g, 1, 2) + std::to_string(t); unsigned h = algo::common::hash_from_string(s, 1394);
        if (seen.count(h) && seen[h] != s) { twins.push_back(seen[h]); twins.push_back(s); } else seen[h] = s;
      }
    for (int i = 0; i < extra; ++i)
    {
      std::string s; do s = i < (int)twins.size() ? twins[i] : word(g, 1, 7) + (names.size() > 3 ? "x" : ""); while (reserved(s));
      while (names.count(s) || s.compare(0, 5, "beam_") == 0) s += "z";
      names.insert(s);
      w.sp.push_back({s, g.pick(std::vector<double>{-1, 1, 2, -3, 0, 0.5, -1.25}), g.pick(std::vector<double>{2, 4, 1836, 0.5, 1.75, 7294.3}), g.decade(8, 22), g.decade(-3, 5)});
    }
    int nb = (int)g.range(0, much ? 12 : 3); std::set<std::string> bn;
    for (int i = 0; i < nb; ++i)
    {
      Beam b; b.name = i == 0 && g.flip() ? "electrons" : word(g, 1, 6); while (bn.count(b.name)) b.name += "q"; bn.insert(b.name);
      b.charge = g.pick(std::vector<double>{-1, 1, 2, 0.5}); b.mass = g.pick(std::vector<double>{1, 2, 1836, 0.25}); b.velocity = g.real(1e6, 2.99e8); b.start_time = g.chance(1, 2) ? 0 : g.decade(-12, -8);
      b.amount = (int)g.range(1, 300); b.distance = g.chance(1, 3) ? 0 : g.decade(-3, 0); b.length = g.decade(-4, 0); b.radius = w.radius * g.real(0.01, 1); b.density = g.decade(8, 20);
      w.bm.push_back(b);
    }
    for (auto &b : w.bm) if (g.chance(1, 5)) w.sp.size(); // beams are probed under their prefixed name
    int np = (int)g.range(0, much ? 40 : 5); for (int i = 0; i < np; ++i) { w.pr.push_back(gen_probe(g, w)); if (!w.bm.empty() && specie_comp(w.pr.back().component) && g.chance(1, 3)) w.pr.back().specie = "beam_" + w.bm[0].name; }
    w.log_file = word(g, 1, 8); w.data_root = g.chance(1, 4) ? "." : word(g, 1, 6) + "/" + word(g, 1, 6); w.comment = word(g, 0, 9);
    w.compress = g.flip(); w.level = (int)g.range(0, 9);
#ifdef ENABLE_EXTERNAL_FIELDS
    static const std::vector<std::string> F = {"none", "const_r", "const_phi", "const_z"};
    w.ef = g.pick(F); w.hf = g.pick(F); for (int i = (int)g.range(1, 4); i > 0; --i) w.ep.push_back(g.real(-1e6, 1e6)); for (int i = (int)g.range(1, 4); i > 0; --i) w.hp.push_back(g.real(-1e6, 1e6));
#endif
    return w;
  }
  void eq(double a, double b, const char *what) { if (!pbt::close(a, b, 1e-12, 0)) pbt::failf("%s: read %.17g, configured %.17g", what, a, b); }
  void eqs(const std::string &a, const std::string &b, const char *what) { if (a != b) pbt::failf("%s: read '%s', configured '%s'", what, a.c_str(), b.c_str()); }
  // looking an absent item up leaves a null behind, which says the same
  picojson::value bare(const picojson::value &v)
  {
    if (v.is<picojson::object>()) { picojson::object o; for (auto &kv : v.get<picojson::object>()) if (!kv.second.is<picojson::null>()) o[kv.first] = bare(kv.second); return picojson::value(o); }
    if (v.is<picojson::array>()) { picojson::array a; for (auto &x : v.get<picojson::array>()) a.push_back(bare(x)); return picojson::value(a); }
    return v;
  }
  bool refused(const std::string &json, std::string &why)
  {
    try { make_cfg(json); } catch (vshim::Fatal &e) { why = e.what(); return true; } catch (std::exception &e) { why = e.what(); return true; }
    return false;
  }
}

PBT_PROP(read, "a whole configuration with 2..6, sometimes 14, species (fractional masses, names with equal hashes), 0..3, sometimes 12, beams, 0..5, sometimes 40, probes: every item, the derived amounts and the domains built of it; non-trivial: beams, probes or further species present")
{
  World w = gen_world(g); ctx.d << w.json();
  Cfg *c = make_cfg(w); Geometry *G = c->geometry;
  eq(c->macro_amount, w.macro, "macro_amount"); eq(c->beam_macro_ratio, w.ratio, "beam_plasma_macro_size_ratio");
  eqs(c->log_file, w.log_file, "log_file"); eqs(loguru::last_log_file, w.log_file, "log file in use"); eqs(c->output_data->data_root, w.data_root, "data_root");
  eq(c->output_data->compress, w.compress, "compression"); eq(c->output_data->compress_level, w.level, "compression level");
  eq(G->size[0], w.radius, "radius"); eq(G->size[1], w.longitude, "longitude"); eq(G->cell_amount[0], w.nr, "grid radius"); eq(G->cell_amount[1], w.nz, "grid longitude");
  eq(G->cell_size[0], w.radius / w.nr, "cell size"); eq(G->cell_size[1], w.longitude / w.nz, "cell size");
  eq(G->domains_amount[0], w.dr_n, "domains"); eq(G->domains_amount[1], w.dz_n, "domains");
  for (int i = 0; i < 4; ++i) if (!G->walls[i]) pbt::failf("wall %d is open", i);
#ifdef ENABLE_PML
  double f[4] = {0, w.pml_l, w.pml_o, w.pml_r}; long n[4] = {w.nr, w.nz, w.nr, w.nz};
  for (int i = 0; i < 4; ++i)
  {
    double x = f[i] * n[i]; if (!((double)G->pml_size[i] == floor(x + 1e-9) || (double)G->pml_size[i] == floor(x - 1e-9) || (x == 0 && G->pml_size[i] == 0)))
      pbt::failf("absorbing layer %d is %zu cells, %g of %ld configured", i, G->pml_size[i], f[i], n[i]);
  }
  eq(G->pml_sigma[0], w.s1, "sigma_1"); eq(G->pml_sigma[1], w.s2, "sigma_2");
#endif
  eq(c->time->start, w.t_start, "time start"); eq(c->time->end, w.t_end, "time end"); eq(c->time->step, w.t_step, "time step"); eq(c->time->current, w.t_start, "current time");
  if (c->particle_species.size() != w.sp.size() || c->particle_beams.size() != w.bm.size() || c->probes.size() != w.pr.size()) pbt::failf("%zu species, %zu beams, %zu probes are read", c->particle_species.size(), c->particle_beams.size(), c->probes.size());
  std::map<unsigned, std::string> ids;
  auto unique = [&](unsigned id, const std::string &nm)
  { // macroparticles carry 16 bits of it
    id &= 0xffff; if (ids.count(id)) pbt::failf("'%s' and '%s' have the same identifier %u", ids[id].c_str(), nm.c_str(), id); ids[id] = nm; };
  // amounts by covered cells; beam cells count several times
  double cells = (double)w.nr * w.nz, sum = cells * w.sp.size();
  auto bc = [&](const Beam &b) { return b.radius / (w.radius / w.nr) * b.length * b.amount / (w.longitude / w.nz) * w.ratio; };
  for (auto &b : w.bm) sum += bc(b);
  auto amount = [&](double got, double part, const char *what) { double x = w.macro * part / sum; if (!(got >= floor(x * (1 - 1e-9)) && got <= floor(x * (1 + 1e-9)))) pbt::failf("%s has %g macroparticles, its share is %g", what, got, x); };
  for (size_t i = 0; i < w.sp.size(); ++i)
  {
    auto &p = c->particle_species[i]; auto &q = w.sp[i]; unique(p.id, q.name);
    eqs(p.name, q.name, "specie name"); eq(p.mass, q.mass, "mass"); eq(p.charge, q.charge, "charge"); eq(p.left_density, q.density, "density"); eq(p.right_density, q.density, "density"); eq(p.temperature, q.temperature, "temperature");
    amount(p.macro_amount, cells, q.name.c_str());
  }
  for (size_t i = 0; i < w.bm.size(); ++i)
  {
    auto &p = c->particle_beams[i]; auto &q = w.bm[i]; unique(p.id, "beam_" + q.name);
    eqs(p.name, "beam_" + q.name, "beam name"); eq(p.mass, q.mass, "beam mass"); eq(p.charge, q.charge, "beam charge"); eq(p.density, q.density, "beam density"); eq(p.velocity, q.velocity, "beam velocity"); eq(p.start_time, q.start_time, "beam start");
    eq(p.bunches_amount, q.amount, "bunches"); eq(p.bunches_distance, q.distance, "bunch distance"); eq(p.bunch_length, q.length, "bunch length"); eq(p.bunch_radius, q.radius, "bunch radius");
    amount(p.macro_amount, bc(q), q.name.c_str());
  }
  for (size_t i = 0; i < w.pr.size(); ++i)
  {
    auto &p = c->probes[i]; auto &q = w.pr[i]; eqs(p.component, q.component, "component"); eqs(p.path, path_of(q), "probe path"); eq(p.schedule, q.schedule, "schedule");
    if (!q.specie.empty()) eqs(p.specie, q.specie, "probe specie");
    if (p.dims.size() < 4) pbt::failf("probe %zu has %zu dimensions", i, p.dims.size());
  }
#ifdef ENABLE_EXTERNAL_FIELDS
  if (c->external_fields.size() != 2) pbt::failf("%zu external fields", c->external_fields.size());
  eqs(c->external_fields[0].formfactor, w.ef, "electric formfactor"); eqs(c->external_fields[1].formfactor, w.hf, "magnetic formfactor");
  if (c->external_fields[0].params != w.ep || c->external_fields[1].params != w.hp) pbt::fail("parameters of external fields differ");
#endif
  // the metadata: everything that was configured, plus what it was built with
  picojson::value orig, dump, val = c->cfg2value(); picojson::parse(orig, w.json()); std::string err = picojson::parse(dump, c->cfg2str()); if (!err.empty()) pbt::failf("the dumped configuration is no JSON: %s", err.c_str());
  for (auto &kv : orig.get<picojson::object>())
  {
    picojson::value a = kv.second, b = bare(dump.get(kv.first)), v = bare(val.get(kv.first));
    if (v.serialize() != a.serialize()) pbt::failf("item '%s' of the metadata differs from the configuration", kv.first.c_str());
    if (kv.first == "data") { eqs(b.get("data_root").to_str(), ".", "data root of the dump"); a.get<picojson::object>()["data_root"] = picojson::value("."); }
    if (b.serialize() != a.serialize()) pbt::failf("item '%s' of the dumped configuration differs", kv.first.c_str());
  }
  const picojson::value &bo = val.get("build_options");
  auto opt = [&](const char *k, const char *want) { eqs(bo.get(k).to_str(), want, k); };
  opt("package_version", PACKAGE_VERSION);
#if defined(SWITCH_PUSHER_BORIS_ADAPTIVE)
  opt("particles_pusher", "boris adaptive");
#elif defined(SWITCH_PUSHER_VAY)
  opt("particles_pusher", "vay");
#elif defined(SWITCH_PUSHER_HC)
  opt("particles_pusher", "higuera-cary");
#elif defined(SWITCH_PUSHER_BORIS_RELATIVISTIC)
  opt("particles_pusher", "boris relativistic");
#elif defined(SWITCH_PUSHER_BORIS)
  opt("particles_pusher", "boris classic");
#endif
#if defined(SWITCH_CCS_VB)
  opt("current_deposition", "villasenor-buneman");
#else
  opt("current_deposition", "zigzag");
#endif
  opt("maxwell_solver", "yee");
#if defined(SWITCH_PLASMA_SPATIAL_FLAT)
  opt("plasma_spatial_distribution", "flat");
#elif defined(SWITCH_PLASMA_SPATIAL_CENTERED)
  opt("plasma_spatial_distribution", "centered");
#elif defined(SWITCH_PLASMA_SPATIAL_RANDOM)
  opt("plasma_spatial_distribution", "random");
#else
  opt("plasma_spatial_distribution", "regular");
#endif
#if defined(SWITCH_PLASMA_VELOCITY_THERMAL)
  opt("plasma_velocity_distribution", "thermal");
#elif defined(SWITCH_PLASMA_VELOCITY_EIGEN)
  opt("plasma_velocity_distribution", "eigen");
#else
  opt("plasma_velocity_distribution", "rectangular");
#endif
  // the domains tile the area and know what they carry
  SMB smb(c, G, c->time, 0, 1); std::vector<int> cover(w.nr * w.nz, 0);
  for (long i = 0; i < w.dr_n; ++i) for (long j = 0; j < w.dz_n; ++j)
  {
    Domain *d = smb.domains(i, j); Geometry &q = d->geometry;
    for (size_t a = q.cell_dims[0]; a < q.cell_dims[2]; ++a) for (size_t b = q.cell_dims[1]; b < q.cell_dims[3]; ++b) { if ((long)a >= w.nr || (long)b >= w.nz) pbt::failf("domain %ld,%ld is out of the area", i, j); ++cover[a * w.nz + b]; }
    eq(q.cell_size[0], w.radius / w.nr, "cell size in a domain"); eq(q.cell_size[1], w.longitude / w.nz, "cell size in a domain");
    bool wl[4] = {i == 0, j == 0, i == w.dr_n - 1, j == w.dz_n - 1};
    for (int k = 0; k < 4; ++k) if (q.walls[k] != wl[k]) pbt::failf("domain %ld,%ld: wall %d is %s", i, j, k, wl[k] ? "missing" : "superfluous");
    if (d->species_p.size() != w.sp.size() + w.bm.size()) pbt::failf("domain %ld,%ld carries %zu species", i, j, d->species_p.size());
    for (size_t k = 0; k < d->species_p.size(); ++k)
    {
      SpecieP *s = d->species_p[k]; bool b = k >= w.sp.size(); size_t n = b ? k - w.sp.size() : k;
      eqs(s->name, b ? "beam_" + w.bm[n].name : w.sp[n].name, "specie in a domain"); eq(s->charge, (b ? w.bm[n].charge : w.sp[n].charge) * QE, "charge in a domain"); eq(s->mass, (b ? w.bm[n].mass : w.sp[n].mass) * ME, "mass in a domain");
      if (!ids.count(s->id) || ids[s->id] != s->name) pbt::failf("domain %ld,%ld: specie '%s' has identifier %u", i, j, s->name.c_str(), (unsigned)s->id);
    }
  }
  for (int v : cover) if (v != 1) pbt::failf("a cell belongs to %d domains", v);
  if (!w.bm.empty() || !w.pr.empty() || w.sp.size() > 2) ctx.nontrivial(ctx.d.str());
}

PBT_PROP(refuse, "a valid configuration with exactly one thing broken: text cut short, item missing or of a wrong type, double name, probe shape or place, number of domains, indivisible grid, schedule, time step, no electrons; every case is non-trivial")
{
  World w = gen_world(g); int how = (int)g.range(0, 12); std::string js, what;
  if (w.pr.empty()) w.pr.push_back(gen_probe(g, w));
  switch (how)
  {
  case 0: { js = w.json(); size_t n = 1 + g.draw(js.size() - 1); js = js.substr(0, n); what = "text cut at " + std::to_string(n); break; }
  case 1: case 2:
  {
    js = w.json();
    static const std::vector<std::string> K = {"macro_amount", "beam_plasma_macro_size_ratio", "log_file", "geometry", "size", "grid", "domains_amount", "time", "end", "step", "particles", "name", "charge", "mass", "density", "temperature", "data", "data_root", "compression", "probes", "component", "shape", "schedule"};
    std::string k = g.pick(K), q = "\"" + k + "\":"; size_t p = js.find(q); if (p == std::string::npos) throw pbt::Discard();
    if (how == 1) { js.replace(p + 1, k.size(), k + "_"); what = "item " + k + " missing"; }
    else
    { // a value of another type
      size_t v = p + q.size(); static const char *num = "-0123456789.eE+"; size_t e = v;
      if (js[v] == '"') { e = js.find('"', v + 1) + 1; js.replace(v, e - v, "17"); }
      else if (strchr(num, js[v])) { while (strchr(num, js[e])) ++e; js.replace(v, e - v, "\"1\""); }
      else throw pbt::Discard();
      what = "item " + k + " of another type";
    }
    break;
  }
  case 3: w.sp.push_back(w.sp[g.draw(w.sp.size())]); what = "two species of a name"; break;
  case 4: if (w.bm.empty()) throw pbt::Discard(); w.bm.push_back(w.bm[g.draw(w.bm.size())]); what = "two beams of a name"; break;
  case 5: w.pr[g.draw(w.pr.size())].shape = g.pick(std::vector<std::string>{"cub", "Rec", "", "column", "point"}); what = "unknown probe shape"; break;
  case 6:
  {
    Probe &p = w.pr[g.draw(w.pr.size())]; long far = g.range(0, 20); what = p.shape + " probe out of the area";
    if (p.shape == "rec") { if (g.flip()) p.r1 = w.nr + 1 + far; else p.z1 = w.nz + 1 + far; }
    else if (p.shape == "col") p.z0 = w.nz + far; else if (p.shape == "row") p.r0 = w.nr + far; else { if (g.flip()) p.r0 = w.nr + far; else p.z0 = w.nz + far; }
    break;
  }
  case 7: { Probe &p = w.pr[0]; p.shape = "rec"; p.r0 = g.range(0, w.nr - 1); p.z0 = g.range(0, w.nz - 1); p.r1 = w.nr; p.z1 = w.nz; if (g.flip()) p.r1 = g.range(0, p.r0); else p.z1 = g.range(0, p.z0); what = "empty or reversed probe"; break; }
  case 8: { long &n = g.flip() ? w.dr_n : w.dz_n; n = g.pick(std::vector<long>{0, 3, 5, 7, 9}); long m = std::max(n, 1L); (&n == &w.dr_n ? w.nr : w.nz) = m * g.range(3, 8); w.pr.clear(); what = "odd or no domains"; break; }
  case 9: { long &n = g.flip() ? w.dr_n : w.dz_n; n = g.pick(std::vector<long>{2, 4, 6}); (&n == &w.dr_n ? w.nr : w.nz) = n * g.range(2, 8) + g.range(1, n - 1); w.pr.clear(); what = "grid not divisible by domains"; break; }
  case 10: w.pr[g.draw(w.pr.size())].schedule = -(int)(g.flip() ? 0 : g.range(1, 9)); what = "schedule below 1"; break;
  case 11: w.t_step = g.flip() ? 0 : -w.t_step; what = "time step not positive"; break;
  default: { w.sp[0].name = "negatives"; w.sp[0].mass = 3; for (auto &p : w.pr) if (p.specie == "electrons") p.specie = "ions"; what = "no electrons"; }
  }
  if (js.empty()) js = w.json();
  ctx.d << what << ": " << js; ctx.label(what.substr(0, what.find(" at "))); std::string why;
  if (!refused(js, why)) pbt::failf("accepted in spite of: %s", what.c_str());
  ctx.nontrivial(ctx.d.str());
}

PBT_PROP(limits, "valid configurations around the limits of the method (time step, cell size, size of the area against plasma frequency and Debye length): reported exactly when exceeded; non-trivial: a limit is exceeded")
{
  World w = gen_world(g); w.sp.resize(2); w.bm.clear(); w.pr.clear();
  if (g.chance(1, 6)) w.sp[0].name = g.pick(std::vector<std::string>{"Electrons", "electron", "Electron", "light"});
  if (g.chance(1, 8)) std::swap(w.sp[0], w.sp[1]);
  Species &e = w.sp[0].mass == 1 ? w.sp[0] : w.sp[1], &i = w.sp[0].mass == 1 ? w.sp[1] : w.sp[0];
  double dr = w.radius / w.nr, dz = w.longitude / w.nz, tc = std::min(dr, dz) / C0, tw = 2 / (56.3803 * sqrt(e.density)) / 100;
  w.t_step = std::min(tc, tw) * g.decade(-1, 1);
  double want = g.decade(-5, 1); // Debye length in cells
  { double D = 7433.944 / sqrt(e.density / e.temperature + i.density / i.temperature), f = dr * want / D; e.temperature *= f * f; i.temperature *= f * f; }
  double D = 100 * 7433.944 / sqrt(e.density / e.temperature + i.density / i.temperature), N = 0;
  N = 2 * floor(w.macro / 2); if (N < 100) N = 100, w.macro = 100 + g.range(0, 1);
  auto side = [&](double a, double b) { if (fabs(a / b - 1) < 0.02) throw pbt::Discard(); return a > b; }; // on the limit: anything goes
  int errs = 0;
  errs += side(w.t_step, std::min(tc, tw)); bool g0 = side(dr, D), g1 = side(dz, D); errs += g0 || g1;
  bool s0 = side(D, w.radius), s1 = side(D, w.longitude); errs += s0 || s1; if (N > 2) { side(w.radius, D * (N - 2)); side(w.longitude, D * (N - 2)); } bool l0 = side(w.radius, D * N), l1 = side(w.longitude, D * N); errs += l0 || l1;
  ctx.d << w.json(); long before = vshim::n_error; make_cfg(w); long got = vshim::n_error - before;
  if ((got > 0) != (errs > 0)) pbt::failf("%ld errors are reported, %d limits are exceeded (step %g of %g, cells %g,%g, area %g,%g, 100 Debye lengths %g, %g macroparticles)", got, errs, w.t_step, std::min(tc, tw), dr, dz, w.radius, w.longitude, D, N);
  ctx.label(std::to_string(errs)); if (errs) ctx.nontrivial(ctx.d.str());
}

PBT_MAIN
