// Whole-simulation properties: decomposition into domains, migration, free flight, Gauss's law.
#include "smbkit.hpp"
using namespace smbkit;

namespace
{
  World gen_world(Src &g, int maxr, int maxz, int lo, int hi)
  {
    World w = gen_grid(g, maxr, maxz, lo, hi);
    if (g.flip()) w.sp.push_back({"heavy", 2, 7, 1e15, 1});
    if (w.sp.size() > 2 && g.chance(1, 4)) w.sp.push_back({"negative", -3, 20, 1e15, 1});
    w.sp[1].mass = g.pick(std::vector<double>{1836, 3});
    return w;
  }
  bool bad(double x) { return !std::isfinite(x); }
}

PBT_PROP(decomposition, "2..64 domains against one: the same particles and fields advanced 1..30 steps; "
                        "non-trivial: some particle crossed a domain border or absorbing layers are on")
{
  World w = gen_world(g, 4, 4, 4, 7);
  if (w.dr_n * w.dz_n == 1) throw pbt::Discard();
#ifdef ENABLE_PML
  if (g.flip()) w.pml_l = g.real(0, 0.5);
  if (g.flip()) w.pml_r = g.real(0, 0.5);
  if (g.flip()) w.pml_o = g.real(0, 0.5);
  w.s1 = g.decade(-5, -2); w.s2 = g.real(0.1, 5);
#endif
#ifdef ENABLE_EXTERNAL_FIELDS
  { double x = 0.02 * C0 * ME / (QE * w.t_step); if (g.flip()) { w.ef = "const_z"; w.ep = {g.real(-1, 1) * x}; } if (g.flip()) { w.hf = "const_z"; w.hp = {g.real(-1, 1) * x / 377}; } }
#endif
  World one = w; one.dr_n = one.dz_n = 1;
  int steps = (int)(g.chance(1, 15) ? g.range(7, 30) : g.range(1, 6)), n = (int)(g.chance(1, 15) ? g.range(31, 300) : g.range(1, 30));
  double ea = 0.02 * C0 * ME / (QE * w.t_step), ha = ea / 377;
  auto seeds = gen_plasma(g, w, n, g.flip() ? 2.5e8 / 1.7 : 3e7, 0.2);
  int dens = (int)g.range(0, 3); uint64_t fs = g.seed64();
  auto fld = [&](int wh, int c, long i, long k) -> double {
    uint64_t x = pbt::mix(pbt::mix(fs, (uint64_t)(wh * 3 + c)), (uint64_t)(i * 1000 + k));
    if ((int)(x % 4) >= dens) return 0; if (wh == 0 && !e_alive(w, c, i, k)) return 0;
    if (wh == 1 && c == 0 && i == 0) return 0; // H_r vanishes on the axis
    return ((double)(x >> 40) / (1 << 24) * 2 - 1) * (wh ? ha : ea); };
  ctx.d << show(w) << ", pml " << w.pml_l << "," << w.pml_r << "," << w.pml_o << ", " << n << " particles, " << steps << " steps, field density " << dens;
  if (n <= 12) for (auto &s : seeds) ctx.d << "; specie " << s.sp << " at " << s.r / (w.radius / w.nr) << "," << s.z / (w.longitude / w.nz) << " cells v " << s.vr << "," << s.vp << "," << s.vz;
  Sim a(w), b(one);
  for (auto &s : seeds) { a.add(s); b.add(s); }
  a.bind(); b.bind(); a.set_fields(fld); b.set_fields(fld);
  bool crossed = false; std::map<double, std::pair<long, long>> where; for (auto &r : a.all()) where[r.w] = {r.i, r.j};
  for (int st = 0; st < steps; ++st)
  {
    a.step(); b.step();
    auto pa = a.all(), pb = b.all();
    if (pa.size() != pb.size()) pbt::failf("step %d: %zu macroparticles with many domains, %zu with one", st, pa.size(), pb.size());
    for (size_t q = 0; q < pa.size(); ++q)
    {
      Particle *x = pa[q].p, *y = pb[q].p;
      if (pa[q].w != pb[q].w || pa[q].sp != pb[q].sp) pbt::failf("step %d: the domains hold other particles than the undivided area", st);
      auto t = where[pa[q].w]; if (t.first != pa[q].i || t.second != pa[q].j) crossed = true;
      double px = 1e-7;
      if (!(fabs(x->pos_r - y->pos_r) <= px * a.dr && fabs(x->pos_z - y->pos_z) <= px * a.dz))
        pbt::failf("step %d: particle %zu is at %.12g,%.12g cells with many domains and at %.12g,%.12g with one", st, q, x->pos_r / a.dr, x->pos_z / a.dz, y->pos_r / a.dr, y->pos_z / a.dz);
      if (!(fabs(x->vel_r - y->vel_r) <= 30 && fabs(x->vel_phi - y->vel_phi) <= 30 && fabs(x->vel_z - y->vel_z) <= 30))
        pbt::failf("step %d: particle %zu flies with %.10g,%.10g,%.10g with many domains and %.10g,%.10g,%.10g with one", st, q, x->vel_r, x->vel_phi, x->vel_z, y->vel_r, y->vel_phi, y->vel_z);
    }
    double me = 0, mh = 0, mj = 0;
    for (int c = 0; c < 3; ++c) for (long i = 0; i < w.nr; ++i) for (long k = 0; k < w.nz; ++k)
    { me = std::max(me, fabs(b.e(c, i, k))); mh = std::max(mh, fabs(b.h(c, i, k))); mj = std::max(mj, fabs(b.j(c, i, k))); }
    for (int c = 0; c < 3; ++c) for (long i = 0; i < w.nr; ++i) for (long k = 0; k < w.nz; ++k)
    {
      if (!(fabs(a.e(c, i, k) - b.e(c, i, k)) <= 1e-7 * me + 1e-9 * ea)) pbt::failf("step %d: E component %d at %ld,%ld is %.12g with many domains and %.12g with one", st, c, i, k, a.e(c, i, k), b.e(c, i, k));
      if (!(fabs(a.h(c, i, k) - b.h(c, i, k)) <= 1e-7 * mh + 1e-9 * ha)) pbt::failf("step %d: H component %d at %ld,%ld is %.12g with many domains and %.12g with one", st, c, i, k, a.h(c, i, k), b.h(c, i, k));
      if (!(fabs(a.j(c, i, k) - b.j(c, i, k)) <= 1e-5 * mj)) pbt::failf("step %d: J component %d at %ld,%ld is %.12g with many domains and %.12g with one (largest %g)", st, c, i, k, a.j(c, i, k), b.j(c, i, k), mj);
    }
  }
  ctx.label(crossed ? "crossed" : "not crossed");
  if (crossed || w.pml_l + w.pml_r + w.pml_o > 0) ctx.nontrivial(ctx.d.str());
}

PBT_PROP(beams, "1..3 beams injected into 2..8 domains along the axis and into one for 5..60 steps, moved by each other's fields: the same particles, fields and currents; non-trivial: some particle crossed a domain border")
{
  World w = gen_grid(g, 1, 8, 3, 7); if (w.dz_n == 1) throw pbt::Discard();
  double dr = w.radius / w.nr, dz = w.longitude / w.nz, dt = w.t_step; int nb = (int)g.range(1, 3), steps = (int)g.range(5, g.chance(1, 5) ? 80 : 40);
  for (int i = 0; i < nb; ++i)
  {
    Beam b; b.name = "beam" + std::to_string(i); b.charge = g.pick(std::vector<double>{-1, 1}); b.mass = (double)g.range(1, 5); b.velocity = g.real(0.2, 0.95) * C0; double step = b.velocity * dt;
    b.amount = (int)g.range(1, 3); b.length = step * g.real(2, 12); b.distance = step * g.real(0, 5); b.start_time = dt * g.real(0, 4); b.radius = g.real(0.5, w.nr - 1.5) * dr;
    double s_ = g.pick(std::vector<double>{0.02, 0.1, 0.3}) / dt; b.density = s_ * s_ * EPS * ME / (QE * QE); w.bm.push_back(b);
  }
  w.ratio = (double)g.range(1, 5); double area = 0; for (auto &b : w.bm) area += b.radius / dr * b.length * b.amount / dz * w.ratio;
  w.macro = std::min(5000., ceil(g.decade(1, 2.3) * (area + w.nr * w.nz * 2.) / area)); World one = w; one.dz_n = 1; uint64_t seed = g.seed64();
  ctx.d << show(w) << ", " << w.macro << " macroparticles, " << steps << " steps"; for (auto &b : w.bm) ctx.d << "; beam of charge " << b.charge << ", mass " << b.mass << " at " << b.velocity / C0 << " c from " << b.start_time / dt << " steps: " << b.amount << " bunches of " << b.length / (b.velocity * dt) << " steps, gaps of " << b.distance / (b.velocity * dt) << ", radius " << b.radius / dr << " cells, density " << b.density;
  Sim a(w), b(one); Sim *S[2] = {&a, &b}; bool crossed = false; size_t seen = 0;
  for (int st = 0; st < steps; ++st)
  {
    for (auto s : S) { vrand::seed(pbt::mix(seed, (uint64_t)st)); s->smb->inject_beam(); s->step(); s->cfg->time->current += dt; }
    auto pa = a.all(), pb = b.all(); if (pa.size() != pb.size()) pbt::failf("step %d: %zu macroparticles with many domains, %zu with one", st, pa.size(), pb.size());
    seen = std::max(seen, pa.size());
    for (size_t q = 0; q < pa.size(); ++q)
    {
      Particle *x = pa[q].p, *y = pb[q].p; if (!(fabs(pa[q].w - pb[q].w) <= 1e-12 * pb[q].w) || pa[q].sp != pb[q].sp) pbt::failf("step %d: particle %zu has weight %.17g and specie %d with many domains, %.17g and %d with one", st, q, pa[q].w, pa[q].sp, pb[q].w, pb[q].sp);
      if (pa[q].j) crossed = true;
      if (!(fabs(x->pos_r - y->pos_r) <= 1e-7 * dr && fabs(x->pos_z - y->pos_z) <= 1e-7 * dz && fabs(x->vel_r - y->vel_r) <= 30 && fabs(x->vel_phi - y->vel_phi) <= 30 && fabs(x->vel_z - y->vel_z) <= 30))
        pbt::failf("step %d: a particle of beam %d is at %.12g,%.12g cells with velocity %.10g,%.10g,%.10g with many domains, at %.12g,%.12g with %.10g,%.10g,%.10g with one", st, pa[q].sp - (int)w.sp.size(), x->pos_r / dr, x->pos_z / dz, x->vel_r, x->vel_phi, x->vel_z, y->pos_r / dr, y->pos_z / dz, y->vel_r, y->vel_phi, y->vel_z);
    }
    double m[3] = {0, 0, 0}; auto val = [&](Sim &s, int f, int c, long i, long k) { return f == 0 ? s.e(c, i, k) : f == 1 ? s.h(c, i, k) : s.j(c, i, k); };
    for (int f = 0; f < 3; ++f) for (int c = 0; c < 3; ++c) for (long i = 0; i < w.nr; ++i) for (long k = 0; k < w.nz; ++k) m[f] = std::max(m[f], fabs(val(b, f, c, i, k)));
    for (int f = 0; f < 3; ++f) for (int c = 0; c < 3; ++c) for (long i = 0; i < w.nr; ++i) for (long k = 0; k < w.nz; ++k)
      if (!(fabs(val(a, f, c, i, k) - val(b, f, c, i, k)) <= (f == 2 ? 1e-5 : 1e-6) * m[f])) pbt::failf("step %d: %s component %d at %ld,%ld is %.12g with many domains and %.12g with one (largest %g)", st, f == 0 ? "E" : f == 1 ? "H" : "J", c, i, k, val(a, f, c, i, k), val(b, f, c, i, k), m[f]);
  }
  if (crossed) ctx.nontrivial(ctx.d.str());
}

PBT_PROP(migration, "1..64 domains, 1..500 macroparticles around domain borders and outside the area, sorted to their domains; "
                    "non-trivial: some particle moves to another domain")
{
  World w = gen_world(g, 4, 4, 4, 7);
  for (int k = (int)(g.chance(1, 3) ? g.range(1, 3) : 0); k > 0; --k) w.bm.push_back({k == 1 ? "electrons" : k == 2 ? "heavy" : "wave", -1, 1, 1e8, 0, 1, 0, w.longitude / 3, w.radius / 2, 1e14});
  Sim s(w);
  int n = (int)(g.chance(1, 15) ? g.range(61, 500) : g.range(1, 60)); double dr = s.dom(0, 0)->geometry.cell_size[0], dz = s.dom(0, 0)->geometry.cell_size[1];
  struct Exp { int sp; long i, j; Particle v; bool gone; }; std::map<double, Exp> want;
  bool moved = false;
  int rounds = (int)g.range(1, 3);
  ctx.d << show(w) << ", " << n << " particles, " << rounds << " rounds";
  std::vector<Particle *> ps;
  for (int q = 0; q < n; ++q)
  {
    Seed e; e.sp = (int)g.draw(s.nspecies()); e.vr = g.real(-1e8, 1e8); e.vp = g.real(-1e8, 1e8); e.vz = g.real(-1e8, 1e8); e.w = 1000 + q + 0.5;
    long i = g.range(0, w.dr_n - 1), j = g.range(0, w.dz_n - 1);
    // inside a domain or up to one cell beyond its border
    double lr = g.real(-1, s.cr + 1) + i * s.cr, lz = g.real(-1, s.cz + 1) + j * s.cz;
    if (g.chance(1, 8)) lr = floor(lr); if (g.chance(1, 8)) lz = floor(lz);
    e.r = lr * dr; e.z = lz * dz;
    ps.push_back(s.add_to(e, i, j));
    if (n <= 4) ctx.d << "; " << lr << "," << lz << " cells in domain " << i << "," << j;
  }
  for (int rd = 0; rd < rounds; ++rd)
  {
    want.clear();
    for (auto &r : s.all())
    {
      if (rd) { r.p->pos_r += g.real(-1, 1) * dr; r.p->pos_z += g.real(-1, 1) * dz; }
      long ci = (long)floor(r.p->pos_r / dr), ck = (long)floor(r.p->pos_z / dz);
      Exp e; e.sp = r.sp; e.v = *r.p; e.gone = ci < 0 || ck < 0 || ci >= w.nr || ck >= w.nz; e.i = ci / s.cr; e.j = ck / s.cz;
      if (!e.gone && (e.i != r.i || e.j != r.j)) moved = true;
      want[r.w] = e;
    }
    s.bind(); s.smb->particles_runaway_collector();
    std::set<double> seen;
    for (auto &r : s.all())
    {
      auto it = want.find(r.w); if (it == want.end()) pbt::failf("an unknown particle of weight %g appeared", r.w);
      Exp &e = it->second;
      if (!seen.insert(r.w).second) pbt::failf("the particle of weight %g is in two places", r.w);
      if (e.gone) pbt::failf("particle of weight %g at %g,%g cells left the area but is still simulated", r.w, r.p->pos_r / dr, r.p->pos_z / dz);
      if (e.sp != r.sp) pbt::failf("particle of weight %g changed its specie from %d to %d", r.w, e.sp, r.sp);
      if (e.i != r.i || e.j != r.j) pbt::failf("particle at %g,%g cells is kept by domain %ld,%ld instead of %ld,%ld", r.p->pos_r / dr, r.p->pos_z / dz, r.i, r.j, e.i, e.j);
      if (r.p->pos_r != e.v.pos_r || r.p->pos_z != e.v.pos_z || r.p->vel_r != e.v.vel_r || r.p->vel_phi != e.v.vel_phi || r.p->vel_z != e.v.vel_z || r.p->specie_id != e.v.specie_id)
        pbt::failf("the particle of weight %g changed on its way to another domain", r.w);
    }
    for (auto &x : want) if (!x.second.gone && !seen.count(x.first)) pbt::failf("the particle of weight %g at %g,%g cells got lost", x.first, x.second.v.pos_r / dr, x.second.v.pos_z / dz);
  }
  if (moved) ctx.nontrivial(ctx.d.str());
}

PBT_PROP(free_flight, "1..4 domains without fields, 1..60 particles, 1..60 steps (in a single domain also of many cells, with several reflections): straight flight in space with mirror walls; "
                      "non-trivial: some particle is reflected, passes near the axis or turns by more than 0.1 rad")
{
  World w = gen_world(g, 2, 2, 4, 7);
  bool fast = g.flip(); // steps of up to most of a cell
  double dmin = std::min(w.radius / w.nr, w.longitude / w.nz);
  w.t_step = dmin / C0 * (fast ? g.real(0.5, 0.95) : g.real(0.05, 0.5));
  if (w.dr_n * w.dz_n == 1 && g.chance(1, 2)) w.t_step = dmin / C0 * g.real(1, 25); // several reflections in a step
  Sim s(w); double dr = s.dr, dz = s.dz, dt = s.cfg->time->step;
  int n = (int)(g.chance(1, 15) ? g.range(7, 60) : g.range(1, 6)), steps = (int)(g.chance(1, 15) ? g.range(13, 60) : g.range(1, 12));
  ctx.d << show(w) << ", c dt " << C0 * dt / dmin << " cells, " << steps << " steps";
  for (int q = 0; q < n; ++q)
  {
    Seed e; e.sp = (int)g.draw(w.sp.size());
    int near = (int)g.range(0, 4);
    double lr = g.open(0.5, w.nr - 0.5), lz = g.open(0.5, w.nz - 0.5);
    if (near == 0) lr = 0.5 + g.decade(-5, 0) ; if (near == 1) lr = w.nr - 0.5 - g.decade(-5, 0);
    if (near == 2) lz = g.flip() ? 0.5 + g.decade(-5, 0) : w.nz - 0.5 - g.decade(-5, 0);
    double v = C0 * g.real(0, 0.99), x = g.real(-1, 1), y = g.real(-1, 1), z = g.real(-1, 1);
    if (g.chance(1, 5)) x = 0; if (g.chance(1, 5)) y = 0; if (g.chance(1, 5)) z = 0;
    double m = sqrt(x * x + y * y + z * z); if (m == 0) m = 1;
    e.r = lr * dr; e.z = lz * dz; e.vr = v * x / m; e.vp = v * y / m; e.vz = v * z / m; e.w = 1e-3 * (q + 1);
    s.add(e); ctx.d << "; " << lr << "," << lz << " cells, v/c " << e.vr / C0 << "," << e.vp / C0 << "," << e.vz / C0;
  }
  s.bind(); bool nt = false; double R = (w.nr - 0.5) * dr, Z = (w.nz - 0.5) * dz;
  for (int st = 0; st < steps; ++st)
  {
    // no fields: the solver is not called, particles are only moved
    std::map<double, Particle> want;
    for (auto &rc : s.all())
    {
      Particle p = *rc.p; L x = p.pos_r + (L)p.vel_r * dt, y = (L)p.vel_phi * dt, z = p.pos_z + (L)p.vel_z * dt, r = sqrtl(x * x + y * y), vr = p.vel_r, vp = p.vel_phi, vz = p.vel_z;
      if (r > 0) { vr = (x * p.vel_r + y * p.vel_phi) / r; vp = (x * p.vel_phi - y * p.vel_r) / r; if (fabsl(y / r) > 0.1) nt = true; }
      if (x < 0) nt = true;
      for (int k = 0; k < 50; ++k)
      {
        bool any = false;
        if (r > R) { r = 2 * R - r; vr = -vr; any = true; }
        if (z > Z) { z = 2 * Z - z; vz = -vz; any = true; }
        if (r < 0.5L * dr) { r = dr - r; vr = -vr; any = true; }
        if (z < 0.5L * dz) { z = dz - z; vz = -vz; any = true; }
        if (!any) break; nt = true;
      }
      p.pos_r = (double)r; p.pos_z = (double)z; p.vel_r = (double)vr; p.vel_phi = (double)vp; p.vel_z = (double)vz; want[rc.w] = p;
    }
    std::map<double, Particle> before; for (auto &rc : s.all()) before[rc.w] = *rc.p;
    s.smb->advance_particles();
    auto now = s.all();
    if (now.size() != want.size()) pbt::failf("step %d: %zu of %zu particles are left between closed walls", st, now.size(), want.size());
    for (auto &rc : now)
    {
      Particle &p = *rc.p, &e = want[rc.w], &b = before[rc.w];
      double tv = 1e-9 * C0;
      if (bad(p.pos_r) || bad(p.pos_z) || bad(p.vel_r) || bad(p.vel_phi) || bad(p.vel_z)) pbt::failf("step %d: a particle's state is not finite", st);
      // exactly at a wall the reflection may or may not happen
      bool atwall = fabs(e.pos_r - R) < 1e-9 * dr || fabs(e.pos_r - dr / 2) < 1e-9 * dr || fabs(e.pos_z - Z) < 1e-9 * dz || fabs(e.pos_z - dz / 2) < 1e-9 * dz;
      if (!(fabs(p.pos_r - e.pos_r) <= 1e-9 * dr * w.nr && fabs(p.pos_z - e.pos_z) <= 1e-9 * dz * w.nz))
        pbt::failf("step %d: from %.9g,%.9g cells with v/c %g,%g,%g the particle gets to %.9g,%.9g instead of %.9g,%.9g", st, b.pos_r / dr, b.pos_z / dz, b.vel_r / C0, b.vel_phi / C0, b.vel_z / C0, p.pos_r / dr, p.pos_z / dz, e.pos_r / dr, e.pos_z / dz);
      if (!atwall && !(fabs(p.vel_r - e.vel_r) <= tv && fabs(p.vel_phi - e.vel_phi) <= tv && fabs(p.vel_z - e.vel_z) <= tv))
        pbt::failf("step %d: from %.9g,%.9g cells with v/c %g,%g,%g the particle gets v/c %.9g,%.9g,%.9g instead of %.9g,%.9g,%.9g", st, b.pos_r / dr, b.pos_z / dz, b.vel_r / C0, b.vel_phi / C0, b.vel_z / C0, p.vel_r / C0, p.vel_phi / C0, p.vel_z / C0, e.vel_r / C0, e.vel_phi / C0, e.vel_z / C0);
      if (!(p.pos_old_r == b.pos_r && p.pos_old_z == b.pos_z)) pbt::failf("step %d: the previous position is not remembered", st);
      if ((long)p.cell_r != (long)floor(p.pos_r / s.dom(0, 0)->geometry.cell_size[0]) || (long)p.cell_z != (long)floor(p.pos_z / s.dom(0, 0)->geometry.cell_size[1])) pbt::failf("step %d: the particle's cell number is stale", st);
    }
  }
  if (nt) ctx.nontrivial(ctx.d.str());
}

PBT_PROP(gauss, "1..64 domains, 1..200 macroparticles moved by their own fields for 2..50 steps (no absorbing layers): the divergence of E follows the charge "
                "at every node not on a conducting wall; non-trivial: some particle changes its cell")
{
  World w = gen_world(g, 4, 4, 4, 7);
  int n = (int)(g.chance(1, 15) ? g.range(41, 200) : g.range(1, 40)), steps = (int)(g.chance(1, 15) ? g.range(16, 50) : g.range(2, 15));
  auto seeds = gen_plasma(g, w, n, g.flip() ? 1.4e8 : 2e7, g.pick(std::vector<double>{0.2, 0.5, 0.02}));
  ctx.d << show(w) << ", dt " << w.t_step << ", " << n << " particles, " << steps << " steps";
  if (n <= 12) for (auto &s : seeds) ctx.d << "; specie " << s.sp << " at " << s.r / (w.radius / w.nr) << "," << s.z / (w.longitude / w.nz) << " cells v " << s.vr << "," << s.vp << "," << s.vz;
  Sim s(w); for (auto &x : seeds) s.add(x); s.bind();
  double dr = s.dom(0, 0)->geometry.cell_size[0], dz = s.dom(0, 0)->geometry.cell_size[1];
  const L PI_ = 3.14159265358979323846264338327950288L; L qs = 0; bool moved = false;
  auto charge = [&](std::vector<L> &q) {
    q.assign((w.nr + 2) * (w.nz + 2), 0); qs = 0;
    for (auto &rc : s.all())
    {
      L R = (L)rc.p->pos_r / dr, Z = (L)rc.p->pos_z / dz; long i = (long)floorl(R), k = (long)floorl(Z);
      if (i < 0 || k < 0 || i >= w.nr || k >= w.nz) pbt::fail("a particle is out of the area");
      L f = (((i + 0.5L) * (i + 0.5L) - 0.25L)) / (2 * R) - R / 2 + 0.5L, fz = Z - k, c = (L)w.sp[rc.sp].charge * QE * rc.w;
      q[i * (w.nz + 2) + k] += c * f * (1 - fz); q[(i + 1) * (w.nz + 2) + k] += c * (1 - f) * (1 - fz);
      q[i * (w.nz + 2) + k + 1] += c * f * fz; q[(i + 1) * (w.nz + 2) + k + 1] += c * (1 - f) * fz; qs += fabsl(c);
    } };
  std::vector<L> q0, q; charge(q0);
  std::map<double, std::pair<long, long>> cell; for (auto &r : s.all()) cell[r.w] = {(long)(r.p->pos_r / dr), (long)(r.p->pos_z / dz)};
  for (int st = 0; st < steps; ++st)
  {
    charge(q);
    s.smb->solve_maxvell();
    for (long i = 0; i <= w.nr - 2; ++i)
      for (long k = 1; k <= w.nz - 2; ++k)
      {
        auto Ar = [&](long a) -> L { return 2 * PI_ * (a + 0.5L) * dr * dz; };
        L Az = i == 0 ? PI_ * dr * (L)dr / 4 : 2 * PI_ * i * (L)dr * dr;
        L flux = Ar(i) * s.e(0, i, k) - (i > 0 ? Ar(i - 1) * s.e(0, i - 1, k) : 0) + Az * ((L)s.e(2, i, k) - s.e(2, i, k - 1));
        L got = flux * (L)EPS, want = q[i * (w.nz + 2) + k] - q0[i * (w.nz + 2) + k];
        if (!(fabsl(got - want) <= 1e-6L * qs))
          pbt::failf("step %d: the field's divergence at node %ld,%ld accounts for a charge change of %.10Lg C, the particles made it %.10Lg C", st, i, k, got, want);
      }
    s.smb->advance_particles(); s.smb->solve_current();
    for (auto &r : s.all()) { std::pair<long, long> c = {(long)(r.p->pos_r / dr), (long)(r.p->pos_z / dz)}; if (c != cell[r.w]) moved = true; }
  }
  if (moved) ctx.nontrivial(ctx.d.str());
}
PBT_MAIN
