// External fields: what particles feel of them, in every domain, together with their own fields.
#include "smbkit.hpp"
using namespace smbkit;

namespace
{
  const char *NAMES[] = {"none", "const_r", "const_phi", "const_z", "linerad_r", "linerad_z"};
  World gen_ext(Src &g)
  {
    World w = gen_grid(g, 4, 4, 4, 7); double ea = 0.02 * C0 * ME / (QE * w.t_step);
    w.ef = g.chance(3, 4) ? "const_z" : NAMES[g.draw(6)]; w.hf = g.chance(3, 4) ? "const_z" : NAMES[g.draw(6)];
    w.ep = {g.sgn() * g.decade(-4, 0) * ea}; w.hp = {g.sgn() * g.decade(-4, 0) * ea / 377};
    if (g.chance(1, 10)) w.ep[0] = 0; if (g.chance(1, 10)) w.hp[0] = 0;
    if (w.ef == "none" && g.flip()) w.ep.clear(); if (w.hf == "none" && g.flip()) w.hp.clear();
#ifdef ENABLE_PML
    if (g.flip()) w.pml_l = g.real(0, 0.5); if (g.flip()) w.pml_r = g.real(0, 0.5); if (g.flip()) w.pml_o = g.real(0, 0.5);
    w.s1 = g.decade(-5, -2); w.s2 = g.real(0.1, 5);
#endif
    return w;
  }
  std::string shown(const World &w) { std::ostringstream o; o << world::show(w) << ", electric " << w.ef << " " << (w.ep.empty() ? 0 : w.ep[0]) << ", magnetic " << w.hf << " " << (w.hp.empty() ? 0 : w.hp[0]); return o.str(); }
  double amp_e(const World &w) { return w.ef == "const_z" ? w.ep[0] : 0; }
  double amp_h(const World &w) { return w.hf == "const_z" ? w.hp[0] : 0; }
  // no node within reach of the particle lies on a wall or on the axis
  bool inner(const World &w, double lr, double lz) { return lr > 2 && lr < w.nr - 3 && lz > 2 && lz < w.nz - 3; }
  void place(Src &g, const World &w, double &lr, double &lz)
  {
    lr = g.open(0.501, w.nr - 0.501); lz = g.open(0.501, w.nz - 0.501); int how = (int)g.range(0, 3);
    if (how == 0) lr = std::min(std::max((double)g.range(1, w.dr_n) * (w.nr / w.dr_n) + g.sgn() * g.decade(-6, -0.1), 0.501), w.nr - 0.501);
    if (how == 1) lz = std::min(std::max((double)g.range(1, w.dz_n) * (w.nz / w.dz_n) + g.sgn() * g.decade(-6, -0.1), 0.501), w.nz - 0.501);
  }
}

PBT_PROP(felt, "any two profiles and amplitudes in 1..16 domains, up to 5 steps of the solver with and without the external fields, felt at up to 20 places; non-trivial: a constant field and a place away from the walls")
{
  World w = gen_ext(g), none = w; none.ef = none.hf = "none"; Sim a(w), b(none); uint64_t fs = g.seed64(); bool fields = g.flip(); double ea = 0.02 * C0 * ME / (QE * w.t_step);
  auto fld = [&](int wh, int c, long i, long k) -> double { uint64_t x = pbt::mix(pbt::mix(fs, (uint64_t)(wh * 3 + c)), (uint64_t)(i * 1000 + k)); if (!fields || (wh == 0 && !e_alive(w, c, i, k))) return 0; return ((double)(x >> 40) / (1 << 24) * 2 - 1) * (wh ? ea / 377 : ea); };
  a.set_fields(fld); b.set_fields(fld); int steps = (int)g.range(1, 5); for (int q = 0; q < steps; ++q) { a.step(false); b.step(false); }
  ctx.d << shown(w) << ", " << steps << " steps";
  for (int c = 0; c < 3; ++c) for (long i = 0; i < w.nr; ++i) for (long k = 0; k < w.nz; ++k)
    if (a.e(c, i, k) != b.e(c, i, k) || a.h(c, i, k) != b.h(c, i, k)) pbt::failf("an external field changes the field of the simulation: component %d at %ld,%ld is E %.9g, H %.9g instead of E %.9g, H %.9g", c, i, k, a.e(c, i, k), a.h(c, i, k), b.e(c, i, k), b.h(c, i, k));
  b.set_fields([](int, int c, long, long) { return c == 2 ? 1. : 0.; });
  int n = (int)g.range(1, 20); double we = amp_e(w), wh = amp_h(w);
  for (int q = 0; q < n; ++q)
  {
    double lr, lz; place(g, w, lr, lz); double r = lr * a.dr, z = lz * a.dz; long i, j; a.home(r, z, i, j); bool in = inner(w, lr, lz);
    vector3d<double> e = a.dom(i, j)->external_fields->get_field_e(r, z), h = a.dom(i, j)->external_fields->get_field_h(r, z);
    double ue = b.dom(i, j)->maxwell_solver->get_field_e(r, z)[2], uh = b.dom(i, j)->maxwell_solver->get_field_h(r, z)[2];
    for (int m = 0; m < 2; ++m)
    {
      double got = m ? h[2] : e[2], want = (m ? wh : we) * (m ? uh : ue), other = std::max(fabs(m ? h[0] : e[0]), fabs(m ? h[1] : e[1])); const char *name = m ? "magnetic" : "electric";
      if (other != 0) pbt::failf("the external %s field along z has another component at %.6g,%.6g cells", name, lr, lz);
      if (in) { if (!(fabs(got - want) <= 1e-8 * fabs(want))) pbt::failf("external %s field at %.6g,%.6g cells is felt as %.10g instead of %.10g", name, lr, lz, got, want); if (want != 0) ctx.nontrivial(ctx.d.str()); }
      else if (double A = m ? wh : we) { if (!(got * (A > 0 ? 1 : -1) >= 0 && fabs(got) <= 2 * fabs(A))) pbt::failf("external %s field %.10g is felt as %.10g at %.6g,%.6g cells by a wall", name, A, got, lr, lz); }
      else if (got != 0) pbt::failf("there is no external %s field, but %.10g is felt at %.6g,%.6g cells", name, got, lr, lz);
    }
  }
}

PBT_PROP(pushed, "up to 15 particles away from the walls pushed by random fields plus external ones, against the same fields put together in the solver; non-trivial: a constant external field and a particle")
{
  World w = gen_ext(g), none = w; none.ef = none.hf = "none"; Sim a(w), b(none); uint64_t fs = g.seed64(); double ea = 0.02 * C0 * ME / (QE * w.t_step), we = amp_e(w), wh = amp_h(w); bool fields = g.chance(2, 3);
  auto fld = [&](int m, int c, long i, long k) -> double { if (!fields) return 0; uint64_t x = pbt::mix(pbt::mix(fs, (uint64_t)(m * 3 + c)), (uint64_t)(i * 1000 + k)); return ((double)(x >> 40) / (1 << 24) * 2 - 1) * (m ? ea / 377 : ea); };
  a.set_fields(fld); b.set_fields([&](int m, int c, long i, long k) { return fld(m, c, i, k) + (c == 2 ? m ? wh : we : 0); });
  int n = (int)g.range(1, 15); std::vector<Particle *> pa, pb; double vm = g.flip() ? 1.5e8 : 1e7; ctx.d << shown(w) << ", " << n << " particles";
  for (int q = 0; q < n; ++q)
  {
    double lr, lz; place(g, w, lr, lz); if (!inner(w, lr, lz)) continue;
    Seed s; s.sp = (int)g.draw(2); s.r = lr * a.dr; s.z = lz * a.dz; s.vr = g.real(-1, 1) * vm; s.vp = g.real(-1, 1) * vm; s.vz = g.real(-1, 1) * vm; s.w = 1;
    pa.push_back(a.add(s)); pb.push_back(b.add(s));
  }
  a.bind(); b.bind();
  for (long i = 0; i < w.dr_n; ++i) for (long j = 0; j < w.dz_n; ++j) { a.dom(i, j)->apply_external_fields(); b.dom(i, j)->apply_external_fields(); a.dom(i, j)->push_particles(); b.dom(i, j)->push_particles(); }
  for (size_t q = 0; q < pa.size(); ++q)
    if (!(fabs(pa[q]->vel_r - pb[q]->vel_r) <= 2 && fabs(pa[q]->vel_phi - pb[q]->vel_phi) <= 2 && fabs(pa[q]->vel_z - pb[q]->vel_z) <= 2))
      pbt::failf("particle %zu gets velocity %.9g,%.9g,%.9g with the external fields and %.9g,%.9g,%.9g with the same fields in the solver", q, pa[q]->vel_r, pa[q]->vel_phi, pa[q]->vel_z, pb[q]->vel_r, pb[q]->vel_phi, pb[q]->vel_z);
  if (pa.size() && (we != 0 || wh != 0)) ctx.nontrivial(ctx.d.str());
}

PBT_PROP(names, "profiles by name: known ones are accepted, others refused; non-trivial: every case")
{
  World w = gen_grid(g, 1, 1, 4, 5); w.ep = w.hp = {1.}; bool bad = g.flip(), el = g.flip(); std::string n = NAMES[g.draw(6)], x = NAMES[g.draw(6)];
  if (bad) { static const std::vector<std::string> odd = {"", "None", "const", "const_x", "const_z ", "cons_z", "CONST_Z", "linegrad", "uniform", "nonec"}; x = g.pick(odd); }
  (el ? w.ef : w.hf) = x; (el ? w.hf : w.ef) = n; ctx.d << "electric ``" << w.ef << "'', magnetic ``" << w.hf << "''"; bool refused = false;
  try { Sim s(w); } catch (vshim::Fatal &e) { refused = true; }
  if (refused && !bad) pbt::fail("a known profile was refused"); if (!refused && bad) pbt::fail("an unknown profile was accepted"); ctx.nontrivial(ctx.d.str());
}
PBT_MAIN
