// Beams: when, where and how many macroparticles are injected, and how they leave.
#include "smbkit.hpp"
using namespace smbkit;

namespace
{
  double ks(std::vector<double> v, const std::function<double(double)> &F)
  {
    std::sort(v.begin(), v.end()); double d = 0; size_t n = v.size();
    for (size_t i = 0; i < n; ++i) { double f = F(v[i]); d = std::max(d, std::max(fabs(f - (double)i / n), fabs((double)(i + 1) / n - f))); }
    return d;
  }
  double macros(const World &w, size_t k) // configured share of the beam, by covered area
  {
    double cells = (double)w.nr * w.nz, sum = cells * w.sp.size(), mine = 0;
    for (size_t i = 0; i < w.bm.size(); ++i)
    {
      auto &b = w.bm[i]; double a = b.radius / (w.radius / w.nr) * b.length * b.amount / (w.longitude / w.nz) * w.ratio;
      sum += a; if (i == k) mine = a;
    }
    return floor(w.macro / sum * mine);
  }
}

PBT_PROP(injection, "1..5 beams of 1..20 bunches into 1..64 domains over the whole injection time or a run that starts later: bunch windows, rates, places, weights; "
                    "non-trivial: more than one bunch or radial domain, or less than one macroparticle per step")
{
  World w = gen_grid(g, 4, 4, 3, 8); double dr = w.radius / w.nr, dz = w.longitude / w.nz, dt = w.t_step;
  int nb = (int)(g.chance(1, 12) ? g.range(3, 5) : g.range(1, 2));
  for (int i = 0; i < nb; ++i)
  {
    Beam b; b.name = i ? i > 1 ? "further" + std::to_string(i) : "second" : "first"; b.charge = g.pick(std::vector<double>{-1, 1}); b.mass = (double)g.range(1, 5); b.velocity = g.real(1e7, 2.9e8);
    b.amount = (int)(g.chance(1, 12) ? g.range(5, 20) : g.range(1, 4)); double step = b.velocity * dt;
    b.length = step * g.real(3, 25); b.distance = g.chance(1, 4) ? 0 : step * g.real(0.5, 20); b.start_time = dt * (g.chance(1, 12) ? g.real(13, 300) : g.pick(std::vector<double>{0, 0.5, 3.3, 12.7}));
    b.radius = std::max(0.3, g.real(0, 1) * (w.nr - 1)) * dr; b.density = g.decade(10, 18); w.bm.push_back(b);
  }
  w.ratio = (double)g.range(1, 5);
  double area = 0; for (auto &b : w.bm) area += b.radius / dr * b.length * b.amount / dz * w.ratio;
  double want = g.decade(0, 3.3); w.macro = std::min(20000., ceil(want * (area + w.nr * w.nz * 2.) / area));
  ctx.d << show(w) << ", dt " << dt << ", " << w.macro << " macroparticles";
  for (auto &b : w.bm) ctx.d << "; beam from " << b.start_time / dt << " steps: " << b.amount << " bunches of " << b.length / (b.velocity * dt) << " steps, gaps of " << b.distance / (b.velocity * dt) << ", radius " << b.radius / dr << " cells";
  vrand::seed(g.seed64());
  Sim s(w); size_t base = w.sp.size(); bool nt = false;
  double end = 0; for (auto &b : w.bm) end = std::max(end, b.start_time + (b.length * b.amount + b.distance * (b.amount - 1)) / b.velocity);
  struct Acc { double lo = 0, hi = 0; size_t cnt = 0; std::vector<double> r, z; };
  std::map<std::tuple<long, long, int>, Acc> acc;
  double begin = g.chance(1, 4) ? floor(g.real(0, end / dt)) * dt : 0; ctx.d << "; from " << begin / dt << " steps"; // bunches before the start are over
  for (s.cfg->time->current = begin; s.cfg->time->current < end + 6 * dt; s.cfg->time->current += dt)
  {
    double t = s.cfg->time->current; s.smb->inject_beam();
    for (int k = 0; k < nb; ++k)
    {
      auto &b = w.bm[k]; double M = macros(w, k); int on = 0, maybe = 0;
      for (int q = 0; q < b.amount; ++q)
      {
        double t0 = b.start_time + (b.length + b.distance) / b.velocity * q, t1 = t0 + b.length / b.velocity, e = 1e-6 * dt;
        if (t >= t0 + e && t < t1 - e) on = 1; if (t >= t0 - e && t < t1 + e) maybe = 1;
      }
      double navg = 3.14159265358979323846 * b.radius * b.radius * b.length * b.amount * b.density / M;
      for (long i = 0; i < w.dr_n; ++i) for (long j = 0; j < w.dz_n; ++j)
      {
        Domain *d = s.dom(i, j); SpecieP *sp = d->species_p[base + k]; auto &ps = sp->particles; Acc &a = acc[std::make_tuple(i, j, k)];
        double r0 = i * s.cr * dr, r1 = std::min(b.radius, (i + 1) * s.cr * dr), frac = j == 0 && r1 > r0 ? (r1 - r0) / b.radius : 0;
        double rate = M / b.amount * frac * b.velocity * dt / b.length; a.lo += on * rate; a.hi += maybe * rate;
        if (frac > 0 && frac < 1) nt = true; if (rate > 0 && rate < 1) nt = true;
        // M is itself rounded: one macroparticle of difference scales everything
        double slack = 1.001 + (M > 0 ? a.hi / M : 0) ;
        if (!((double)ps.size() >= a.lo - slack && (double)ps.size() <= a.hi + slack + (M == 0 ? 2 : 0)))
          pbt::failf("at %g steps domain %ld,%ld has got %zu macroparticles of beam %d, %g..%g are due", t / dt, i, j, ps.size(), k, a.lo, a.hi);
        if (ps.size() > a.cnt && !maybe) pbt::failf("at %g steps domain %ld,%ld injects beam %d out of its bunches", t / dt, i, j, k);
        for (; a.cnt < ps.size(); ++a.cnt)
        {
          Particle *p = ps[a.cnt];
          if (!(p->pos_r >= r0 + dr / 2 - 1e-9 * dr && p->pos_r <= r1 + dr / 2 + 1e-9 * dr)) pbt::failf("beam %d particle at radius of %g cells, allowed %g..%g", k, p->pos_r / dr, r0 / dr + 0.5, r1 / dr + 0.5);
          if (!(p->pos_z >= dz / 2 - 1e-9 * dz && p->pos_z <= dz / 2 + b.velocity * dt + 1e-9 * dz)) pbt::failf("beam %d particle starts at %g cells", k, p->pos_z / dz);
          if (p->pos_phi != 0 || p->vel_r != 0 || p->vel_phi != 0 || !(fabs(p->vel_z - b.velocity) <= 1e-9 * b.velocity)) pbt::failf("beam %d particle does not fly along the axis with its velocity (%g instead of %g)", k, p->vel_z, b.velocity);
          if (p->specie_id != sp->id) pbt::fail("a beam particle of another specie");
          double wt = navg * 2 * p->pos_r / (b.radius + dr);
          if (M > 50 && !(fabs(p->weight - wt) <= (1e-9 + 1.01 / M) * wt)) pbt::failf("beam %d particle at %g cells stands for %g real ones instead of %g", k, p->pos_r / dr, p->weight, wt);
          if ((long)p->cell_r != (long)floor(p->pos_r / d->geometry.cell_size[0]) || (long)p->cell_z != (long)floor(p->pos_z / d->geometry.cell_size[1])) pbt::fail("wrong cell number of an injected particle");
          a.r.push_back((p->pos_r - r0 - dr / 2) / (r1 - r0)); a.z.push_back((p->pos_z - dz / 2) / (b.velocity * dt));
        }
      }
      if (b.amount > 1) nt = true;
    }
  }
  for (auto &x : acc)
  {
    Acc &a = x.second; if (a.cnt < 20) continue; double lim = sqrt(31. / (2. * a.cnt));
    if (ks(a.r, [](double q) { return q; }) > lim) pbt::fail("radial positions of a beam are not uniform");
    if (ks(a.z, [](double q) { return q; }) > lim) pbt::fail("axial positions of a beam are not uniform");
  }
  // charge of the whole beam
  for (int k = 0; k < nb; ++k)
  {
    auto &b = w.bm[k]; double M = macros(w, k), sum = 0, n = 0, due = 0;
    for (long i = 0; i < w.dr_n; ++i) { for (auto p : s.specie(i, 0, base + k)->particles) sum += p->weight, n += 1; due = std::max(due, fabs(acc[std::make_tuple(i, 0L, k)].hi)); }
    if (M < 100 || begin > 0) continue;
    double N = 3.14159265358979323846 * b.radius * b.radius * b.length * b.amount * b.density;
    double steps = b.length / (b.velocity * dt), tol = 1. / steps + (w.dr_n + 1) / M + 8 * 0.6 / sqrt(M);
    if (!(sum >= N * (1 - tol) && sum <= N * (1 + tol))) pbt::failf("beam %d carries %g real particles instead of %g (tolerance %g)", k, sum, N, tol);
  }
  if (nt) ctx.nontrivial(ctx.d.str());
}

PBT_PROP(beam_flight, "1..64 domains without fields, 1..8 beam macroparticles, 1..10 steps: straight flight, mirrored by the axis only, gone outside the area; "
                      "non-trivial: a particle leaves the area, changes its domain or is mirrored")
{
  World w = gen_grid(g, 4, 4, 3, 7); double dmin = std::min(w.radius / w.nr, w.longitude / w.nz);
  w.t_step = dmin / C0 * g.real(0.2, 0.95);
  w.bm.push_back({"first", -1, 1, 1e8, 0, 1, 0, w.longitude / 3, w.radius / 2, 1e14}); if (g.flip()) w.bm.push_back({"second", -1, 1, 1e8, 0, 1, 0, w.longitude / 3, w.radius / 2, 1e14});
  Sim s(w); double dr = s.dr, dz = s.dz, dt = s.cfg->time->step; int base = (int)w.sp.size();
  int n = (int)g.range(1, 8), steps = (int)g.range(1, 10); bool nt = false;
  ctx.d << show(w) << ", c dt " << C0 * dt / dmin << " cells, " << steps << " steps";
  std::map<double, Particle> want; std::map<double, int> sp;
  for (int q = 0; q < n; ++q)
  {
    Seed e; e.sp = base + (int)g.draw(w.bm.size());
    double lr = g.open(0.5, w.nr), lz = g.open(0, w.nz); int near = (int)g.range(0, 4);
    if (near == 0) lr = 0.5 + g.decade(-4, 0); if (near == 1) lr = w.nr - g.decade(-4, 0); if (near == 2) lz = w.nz - g.decade(-4, 0); if (near == 3) lz = g.decade(-4, 0);
    double v = C0 * g.real(0, 0.99), x = g.real(-1, 1), y = g.chance(1, 3) ? 0 : g.real(-1, 1), z = g.real(-1, 1), m = sqrt(x * x + y * y + z * z); if (m == 0) m = 1;
    e.r = lr * dr; e.z = lz * dz; e.vr = v * x / m; e.vp = v * y / m; e.vz = v * z / m; e.w = 1e-3 * (q + 1);
    want[e.w] = *s.add(e); sp[e.w] = e.sp;
    ctx.d << "; " << lr << "," << lz << " cells, v/c " << e.vr / C0 << "," << e.vp / C0 << "," << e.vz / C0;
  }
  s.bind(); std::set<double> unsure;
  for (int st = 0; st < steps; ++st)
  {
    std::map<double, std::pair<long, long>> home; for (auto &rc : s.all()) home[rc.w] = {rc.i, rc.j};
    for (auto it = want.begin(); it != want.end();)
    {
      Particle &p = it->second; L x = p.pos_r + (L)p.vel_r * dt, y = (L)p.vel_phi * dt, z = p.pos_z + (L)p.vel_z * dt, r = sqrtl(x * x + y * y), vr = p.vel_r, vp = p.vel_phi;
      if (r > 0) { vr = (x * p.vel_r + y * p.vel_phi) / r; vp = (x * p.vel_phi - y * p.vel_r) / r; }
      if (fabsl(r - dr / 2) < 1e-9 * dr) unsure.insert(it->first);
      if (r < 0.5L * dr) { r = dr - r; vr = -vr; nt = true; }
      if (fabsl(r - w.nr * dr) < 1e-9 * dr || fabsl(z - w.nz * dz) < 1e-9 * dz || fabsl(z) < 1e-9 * dz) unsure.insert(it->first);
      p.pos_r = (double)r; p.pos_z = (double)z; p.vel_r = (double)vr; p.vel_phi = (double)vp;
      if (r >= w.nr * dr || z < 0 || z >= w.nz * dz) { nt = true; it = want.erase(it); } else ++it;
    }
    s.smb->advance_particles();
    std::set<double> seen;
    for (auto &rc : s.all())
    {
      if (unsure.count(rc.w)) continue;
      if (!want.count(rc.w)) pbt::failf("step %d: a beam particle at %g,%g cells should have left the area", st, rc.p->pos_r / dr, rc.p->pos_z / dz);
      if (!seen.insert(rc.w).second) pbt::failf("step %d: a beam particle is in two places", st);
      if (rc.sp != sp[rc.w]) pbt::failf("step %d: a particle moved to another beam", st);
      Particle &p = *rc.p, &e = want[rc.w]; if (std::make_pair(rc.i, rc.j) != home[rc.w]) nt = true;
      if (!(fabs(p.pos_r - e.pos_r) <= 1e-9 * dr * w.nr && fabs(p.pos_z - e.pos_z) <= 1e-9 * dz * w.nz)) pbt::failf("step %d: a beam particle gets to %.9g,%.9g cells instead of %.9g,%.9g", st, p.pos_r / dr, p.pos_z / dz, e.pos_r / dr, e.pos_z / dz);
      double tv = 1e-9 * C0;
      if (!(fabs(p.vel_r - e.vel_r) <= tv && fabs(p.vel_phi - e.vel_phi) <= tv && fabs(p.vel_z - e.vel_z) <= tv)) pbt::failf("step %d: a beam particle gets v/c %.9g,%.9g,%.9g instead of %.9g,%.9g,%.9g", st, p.vel_r / C0, p.vel_phi / C0, p.vel_z / C0, e.vel_r / C0, e.vel_phi / C0, e.vel_z / C0);
    }
    for (auto &x : want) if (!unsure.count(x.first) && !seen.count(x.first)) pbt::failf("step %d: a beam particle at %g,%g cells got lost", st, x.second.pos_r / dr, x.second.pos_z / dz);
  }
  if (nt) ctx.nontrivial(ctx.d.str());
}
PBT_MAIN
