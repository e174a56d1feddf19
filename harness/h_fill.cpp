// Filling the area with plasma: where macroparticles are put, how many real particles they stand for, how fast they are.
#include "smbkit.hpp"
using namespace smbkit;

namespace
{
  struct Setup { World w; std::vector<double> right; };
  Setup gen(Src &g, Ctx &ctx, long per_domain)
  {
    Setup s; World &w = s.w; w = gen_grid(g, 4, 4, 3, 12);
    if (g.chance(1, 3)) { w.radius *= g.real(0.5, 2); w.longitude *= g.real(0.5, 2); }
    int extra = (int)g.range(0, 2);
    for (int i = 0; i < extra; ++i) w.sp.push_back({i ? "third" : "second", 2, 4. + i, 1e15, 1});
    for (auto &x : w.sp) { x.density = g.decade(12, 20); x.temperature = g.decade(-2, 3); }
    w.macro = (double)(g.range(1, per_domain) * w.dr_n * w.dz_n * (long)w.sp.size() + g.range(0, 3));
    bool grad = g.chance(1, 3);
    for (auto &x : w.sp) s.right.push_back(grad ? x.density * g.pick(std::vector<double>{2, 0.3, 1.1, 10, 0.}) : x.density);
    if (g.chance(1, 4)) w.bm.push_back({"b", -1, 1, 1e8, 0, 1, 1e-3, w.longitude / 3, w.radius / 2, 1e14});
    ctx.d << show(w) << ", " << w.macro << " macroparticles, " << w.sp.size() << " species, " << w.bm.size() << " beams" << (grad ? ", density gradient" : "");
    return s;
  }
  // macroparticles per specie and domain, as the configuration documents it: shared by covered area
  double expected(const Setup &s)
  {
    const World &w = s.w; double cells = (double)w.nr * w.nz, sum = cells * w.sp.size();
    for (auto &b : w.bm) sum += b.radius / (w.radius / w.nr) * b.length * b.amount / (w.longitude / w.nz) * w.ratio;
    return floor(floor(w.macro * cells / sum) / w.dr_n / w.dz_n);
  }
  double ks(std::vector<double> v, const std::function<double(double)> &F)
  {
    std::sort(v.begin(), v.end()); double d = 0; size_t n = v.size();
    for (size_t i = 0; i < n; ++i) { double f = F(v[i]); d = std::max(d, std::max(fabs(f - (double)i / n), fabs((double)(i + 1) / n - f))); }
    return d;
  }
}

PBT_PROP(placement, "1..16 domains filled with 2..4 species: amounts, boxes, weights, uniformity, gradients; non-trivial: more than one domain or a density gradient")
{
  Setup su = gen(g, ctx, 400); World &w = su.w; vrand::seed(g.seed64());
  Cfg *cfg = make_cfg(w);
  for (size_t i = 0; i < w.sp.size(); ++i) cfg->particle_species[i].right_density = su.right[i];
  SMB *smb = new SMB(cfg, cfg->geometry, cfg->time, 0, 1);
  smb->distribute();
  double dr = w.radius / w.nr, dz = w.longitude / w.nz, n = expected(su); long cr = w.nr / w.dr_n, cz = w.nz / w.dz_n;
  bool many = w.dr_n * w.dz_n > 1, grad = false;
  for (long i = 0; i < w.dr_n; ++i) for (long j = 0; j < w.dz_n; ++j)
  {
    Domain *d = smb->domains(i, j);
    bool wr = i == w.dr_n - 1, wz = j == w.dz_n - 1;
    double cells_r = cr - wr, cells_z = cz - wz, r0 = (i * cr + 0.5) * dr, r1 = r0 + cells_r * dr, z0 = (j * cz + 0.5) * dz, z1 = z0 + cells_z * dz;
    std::set<unsigned> ids;
    for (size_t k = 0; k < w.sp.size(); ++k)
    {
      SpecieP *sp = d->species_p[k]; auto &ps = sp->particles; std::string at = "domain " + std::to_string(i) + "," + std::to_string(j) + " specie " + w.sp[k].name + ": ";
      if (sp->name != w.sp[k].name) pbt::fail(at + "wrong specie");
      // amounts
      double cnt = (double)ps.size(), cells = (double)cr * cz;
#if defined(SWITCH_PLASMA_SPATIAL_FLAT) || defined(SWITCH_PLASMA_SPATIAL_RANDOM)
      if (!(fabs(cnt - n) <= 1)) pbt::failf("%s%g macroparticles instead of %g", at.c_str(), cnt, n);
#elif defined(SWITCH_PLASMA_SPATIAL_CENTERED)
      double M = ceil(std::max(0., n - 1) / cells) * cells, Mp = ceil((n + 1) / cells) * cells, k0 = floor(M / (cells_r * cells_z)), k1 = floor(Mp / (cells_r * cells_z)), per = cnt / (cells_r * cells_z);
      if (!(per >= k0 - 1e-9 && per <= k1 + 1e-9 && per == floor(per))) pbt::failf("%s%g macroparticles per cell instead of %g", at.c_str(), per, k0);
#else
      double M = ceil(std::max(0., n - 1) / cells) * cells, Mp = ceil((n + 1) / cells) * cells;
      double lo = std::min(sqrt(cells * dr * dz / Mp), sqrt(cells * dr * dz / std::max(M, 1.))), hi = sqrt(cells * dr * dz / std::max(M, 1.));
      double cmin = std::max(0., floor(cells_r * dr / hi - 1e-6)) * std::max(0., floor(cells_z * dz / hi - 1e-6)), cmax = (floor(cells_r * dr / lo) + 1) * (floor(cells_z * dz / lo) + 1);
      if (M > 0 && !(cnt >= cmin && cnt <= cmax)) pbt::failf("%s%g macroparticles instead of %g..%g at intervals of %g", at.c_str(), cnt, cmin, cmax, hi);
#endif
      if (ps.empty()) continue;
      // places
      L sum = 0; std::vector<double> rs, zs; double q[4] = {0, 0, 0, 0};
      for (auto p : ps)
      {
        if (!(p->pos_r >= r0 - 1e-9 * dr && p->pos_r <= r1 + 1e-9 * dr && p->pos_z >= z0 - 1e-9 * dz && p->pos_z <= z1 + 1e-9 * dz))
          pbt::failf("%sa macroparticle at %g,%g cells, the filled area is %g..%g,%g..%g", at.c_str(), p->pos_r / dr, p->pos_z / dz, r0 / dr, r1 / dr, z0 / dz, z1 / dz);
        if (p->pos_phi != 0) pbt::fail(at + "a macroparticle out of the r-z plane");
        if (p->specie_id != sp->id) pbt::fail(at + "a macroparticle of another specie");
        if (!(std::isfinite(p->weight) && p->weight >= 0 && std::isfinite(p->vel_r) && std::isfinite(p->vel_phi) && std::isfinite(p->vel_z))) pbt::fail(at + "weight or velocity is not finite");
        if ((long)p->cell_r != (long)floor(p->pos_r / d->geometry.cell_size[0]) || (long)p->cell_z != (long)floor(p->pos_z / d->geometry.cell_size[1])) pbt::fail(at + "stale cell number");
        sum += p->weight; rs.push_back(p->pos_r); zs.push_back(p->pos_z); q[(p->pos_r > (r0 + r1) / 2) * 2 + (p->pos_z > (z0 + z1) / 2)] += 1;
      }
      // real particles: the mean density times the volume; the half-cell shift of the filled area may or may not be taken into the volume
      double nl = w.sp[k].density, ntot = su.right[k] - nl, rl = nl + ntot * (j * cz) / w.nz, rr = nl + ntot * ((j + 1) * cz) / w.nz;
      if (rl != rr) grad = true;
      const double PI_ = 3.14159265358979323846;
      double b = i * cr, t = b + cells_r, V0 = PI_ * dr * dr * (t * t - b * b) * cells_z * dz, V1 = PI_ * dr * dr * ((t + 0.5) * (t + 0.5) - (b + 0.5) * (b + 0.5)) * cells_z * dz;
      double lo_n = (rl + rr) / 2 * V0 * (1 - 1e-7), hi_n = (rl + rr) / 2 * V1 * (1 + 1e-7);
      if (!((double)sum >= lo_n && (double)sum <= hi_n)) pbt::failf("%sthe macroparticles stand for %.9Lg real ones, the density asks for %.9g..%.9g", at.c_str(), sum, lo_n, hi_n);
      // a macroparticle is a ring: its weight is proportional to its radius
      double unit = (double)(sum / [&] { L s = 0; for (auto x : rs) s += x; return s; }());
      for (auto p : ps) if (!(fabs(p->weight - unit * p->pos_r) <= 1e-9 * unit * p->pos_r)) pbt::failf("%sthe weight at %g cells is %g times the one of its ring", at.c_str(), p->pos_r / dr, p->weight / (unit * p->pos_r));
#if defined(SWITCH_PLASMA_SPATIAL_FLAT) || defined(SWITCH_PLASMA_SPATIAL_RANDOM)
      // uniform in r, z follows the density; bounds that a correct generator exceeds once in 1e13 cases
      double lim = sqrt(31. / (2 * cnt));
#ifdef SWITCH_PLASMA_SPATIAL_FLAT
      lim = std::min(lim, (2 + 13 * (1 + log(cnt))) / cnt); // low-discrepancy sequences do much better
      if (cnt > 40) lim = std::max(lim, 0.02);
#endif
      double dR = ks(rs, [&](double x) { return (x - r0) / (r1 - r0); });
      if (dR > lim) pbt::failf("%sradial positions are not uniform (deviation %g of %g allowed)", at.c_str(), dR, lim);
      double dZ = ks(zs, [&](double z) { double x = (z - z0) / (z1 - z0); return rl + rr > 0 ? (rl * x + (rr - rl) * x * x / 2) / ((rl + rr) / 2) : x; });
      if (dZ > lim) pbt::failf("%saxial positions do not follow the density (deviation %g of %g allowed)", at.c_str(), dZ, lim);
      // no correlation between the two
      if (cnt >= 60)
      {
        double a = (q[0] + q[1]) / cnt, bq = (q[0] + q[2]) / cnt, e = a * bq * cnt, sg = sqrt(std::max(1., e * (1 - a * bq)));
        if (fabs(q[0] - e) > 8 * sg + 2) pbt::failf("%sradial and axial positions are correlated: %g of %g macroparticles in a quarter, %g expected", at.c_str(), q[0], cnt, e);
      }
#elif defined(SWITCH_PLASMA_SPATIAL_CENTERED)
      std::map<std::pair<long, long>, long> per_cell;
      for (auto p : ps)
      {
        double a = (p->pos_r - r0) / dr, c = (p->pos_z - z0) / dz;
        if (!(fabs(a - round(a)) < 1e-6 && fabs(c - round(c)) < 1e-6)) pbt::fail(at + "a macroparticle is not in the middle of a cell");
        ++per_cell[{(long)round(a), (long)round(c)}];
      }
      for (auto &x : per_cell) if (x.second != per_cell.begin()->second) pbt::fail(at + "cells hold different amounts of macroparticles");
      if ((double)per_cell.size() != cells_r * cells_z) pbt::failf("%sonly %zu of %g cells are filled", at.c_str(), per_cell.size(), cells_r * cells_z);
#else
      std::sort(rs.begin(), rs.end()); std::sort(zs.begin(), zs.end());
      auto uniq = [&](std::vector<double> v, double e) { std::vector<double> o; for (double x : v) if (o.empty() || x - o.back() > e) o.push_back(x); return o; };
      auto ur = uniq(rs, 1e-6 * dr), uz = uniq(zs, 1e-6 * dz);
      if (ur.size() * uz.size() != ps.size()) pbt::fail(at + "macroparticles are not on a regular grid");
      auto even = [&](const std::vector<double> &u, double from, double to, const char *what) {
        double st = u.size() > 1 ? u[1] - u[0] : hi;
        for (size_t x = 1; x < u.size(); ++x) if (fabs(u[x] - u[x - 1] - st) > 1e-6 * st) pbt::failf("%s%s intervals differ", at.c_str(), what);
        if (fabs(u[0] - from) > 1e-6 * st || to - u.back() > 2.0001 * st) pbt::failf("%sthe area is not covered in %s", at.c_str(), what);
        if (!(st >= lo * (1 - 1e-6) && st <= hi * (1 + 1e-6))) pbt::failf("%s%s interval is %g instead of %g", at.c_str(), what, st, hi); };
      even(ur, r0, r1, "radial"); even(uz, z0, z1, "axial");
#endif
    }
  }
  if (many || grad) ctx.nontrivial(ctx.d.str());
  for (long i = 0; i < w.dr_n; ++i) for (long j = 0; j < w.dz_n; ++j) for (auto s : smb->domains(i, j)->species_p) delete s;
}

PBT_PROP(velocities, "1..4 domains, species of mass 1..2000 at temperatures from 1e-8 to 2 rest energies, 200..8000 macroparticles: the speed distribution and directions; "
                     "non-trivial: a temperature above zero")
{
  Setup su; World &w = su.w; w = gen_grid(g, 2, 2, 4, 8);
  w.macro = (double)g.range(400, 8000) * 2;
  w.sp[0].temperature = g.chance(1, 20) ? 0 : g.decade(-3, 6) ; w.sp[1].mass = (double)g.range(1, 2000); w.sp[1].temperature = g.decade(-3, 6);
  w.sp[0].charge = g.pick(std::vector<double>{-1, 1, -2});
  ctx.d << show(w) << ", " << w.macro << " macroparticles, temperatures " << w.sp[0].temperature << " and " << w.sp[1].temperature << " eV, second mass " << w.sp[1].mass;
  vrand::seed(g.seed64());
  Sim s(w); s.smb->distribute();
  for (int k = 0; k < 2; ++k)
  {
    double m = w.sp[k].mass * ME, T = w.sp[k].temperature, th = T * QE / (m * C0 * C0);
    std::vector<double> x, dir[3]; double corr[3] = {0, 0, 0}; std::string at = w.sp[k].name + ": ";
    for (auto &rc : s.all()) if (rc.sp == k)
    {
      double v[3] = {rc.p->vel_r, rc.p->vel_phi, rc.p->vel_z}, a = sqrt(v[0] * v[0] + v[1] * v[1] + v[2] * v[2]);
      if (!std::isfinite(a)) pbt::fail(at + "a velocity is not finite");
      if (!(a < C0)) pbt::failf("%sa macroparticle starts with %g of the light velocity at %g eV", at.c_str(), a / C0, T);
      if (T == 0) { if (a != 0) pbt::fail(at + "a cold particle moves"); continue; }
      double b2 = a * a / C0 / C0, e = b2 / (sqrt(1 - b2) * (1 + sqrt(1 - b2))); // gamma - 1 without cancellation
      x.push_back(e / th); for (int c = 0; c < 3; ++c) dir[c].push_back(v[c] / a), corr[c] += v[c] * v[(c + 1) % 3] / (a * a);
#if defined(SWITCH_PLASMA_VELOCITY_RECTANGULAR) || defined(SWITCH_PLASMA_VELOCITY_EIGEN)
      double cmp = sqrt(2 * T * QE / m); // per component, classical
      if (th < 1e-4)
        for (int c = 0; c < 3; ++c)
#ifdef SWITCH_PLASMA_VELOCITY_EIGEN
          if (!(fabs(v[c] - cmp) <= 3e-3 * cmp)) pbt::failf("%svelocity component %d is %g instead of %g", at.c_str(), c, v[c], cmp);
#else
          if (!(fabs(v[c]) <= 1.003 * cmp)) pbt::failf("%svelocity component %d is %g, more than %g", at.c_str(), c, v[c], cmp);
#endif
      if (th < 1e-4) dir[0].back() = v[0] / cmp, dir[1].back() = v[1] / cmp, dir[2].back() = v[2] / cmp;
#endif
    }
    if (T == 0 || x.empty()) continue;
    double n = (double)x.size(), lim = sqrt(31. / (2 * n)) + 0.004;
#ifdef SWITCH_PLASMA_VELOCITY_THERMAL
    // Maxwell-Juettner distribution of x = kinetic energy / temperature, by numeric integration over sqrt(x)
    // below a tenth of the rest energy the classical limit may be used instead
    double d = 2; const double th0 = th;
    for (double th : th0 < 0.1 ? std::vector<double>{th0, 0.} : std::vector<double>{th0})
    {
    std::vector<double> F(1, 0.); const int N = 4000; const double Y = 9;
    auto f = [&](double y) { double q = y * y; return (1 + th * q) * sqrt(q * (2 + th * q)) * exp(-q) * 2 * y; };
    for (int i = 0; i < N; ++i) { double a = Y * i / N, b = Y * (i + 1) / N; F.push_back(F.back() + (f(a) + 4 * f((a + b) / 2) + f(b)) * (b - a) / 6); }
    d = std::min(d, ks(x, [&](double q) { double y = sqrt(q) / Y * N; int i = (int)y; if (i >= N) return 1.; return (F[i] + (F[i + 1] - F[i]) * (y - i)) / F[N]; }));
    }
    double mean = 0; for (double q : x) mean += q / n;
    if (d > lim) pbt::failf("%s%g macroparticles at %g eV (%g rest energies) do not have the thermal energy distribution: deviation %g of %g allowed, mean energy %g temperatures", at.c_str(), n, T, th, d, lim, mean);
#endif
#ifndef SWITCH_PLASMA_VELOCITY_EIGEN
#ifdef SWITCH_PLASMA_VELOCITY_RECTANGULAR
    if (th < 1e-4)
#endif
    for (int c = 0; c < 3; ++c)
    {
      double e = ks(dir[c], [](double q) { return (q + 1) / 2; });
      if (e > lim) pbt::failf("%sdirection component %d is not uniform: deviation %g of %g allowed", at.c_str(), c, e, lim);
      if (fabs(corr[c] / n) > 3. / sqrt(n)) pbt::failf("%svelocity components %d and %d are correlated: %g", at.c_str(), c, (c + 1) % 3, corr[c] / n);
    }
#endif
    ctx.nontrivial(ctx.d.str());
  }
}

PBT_PROP(sampling, "300000 energies of the Maxwell-Juettner distribution at temperatures from 1e-9 to 20 rest energies: fractions below and above quantiles, tails included; "
                   "non-trivial: every case")
{
  double th = g.flip() ? g.decade(-9, -1) : g.decade(-1, 1.3); const unsigned n = 300000;
  ctx.d << "temperature of " << th << " rest energies"; vrand::seed(g.seed64());
  std::vector<double> v = math::maxwell_juettner::maxwellJuettner(n, th);
  if (v.size() != n) pbt::fail("wrong amount of energies");
  for (double &x : v) { if (!(std::isfinite(x) && x >= 0)) pbt::failf("energy %g", x); x /= th; }
  std::sort(v.begin(), v.end());
  auto run = [&](double t, std::string &why) {
    std::vector<double> F(1, 0.); const int N = 8000; const double Y = 9;
    auto f = [&](double y) { double q = y * y; return (1 + t * q) * sqrt(q * (2 + t * q)) * exp(-q) * 2 * y; };
    for (int i = 0; i < N; ++i) { double a = Y * i / N, b = Y * (i + 1) / N; F.push_back(F.back() + (f(a) + 4 * f((a + b) / 2) + f(b)) * (b - a) / 6); }
    for (double q : {2e-4, 5e-4, 2e-3, 1e-2, 0.1, 0.3, 0.5, 0.8, 0.95, 0.99, 0.999, 0.9995})
    {
      int i = (int)(std::lower_bound(F.begin(), F.end(), q * F[N]) - F.begin()); if (i < 1) i = 1;
      double y = (i - 1 + (q * F[N] - F[i - 1]) / (F[i] - F[i - 1])) * Y / N, x = y * y;
      double c = (double)(std::lower_bound(v.begin(), v.end(), x) - v.begin()), e = q * n, tail = std::min(q, 1 - q) * n, sg = sqrt(tail);
      if (fabs(c - e) > 8 * sg + 0.03 * tail) { char b[200]; snprintf(b, 200, "%g of %u energies are below %g temperatures, %g expected", c, n, x, e); why = b; return false; }
    }
    return true; };
  std::string why, w2;
  if (!run(th, why) && !(th < 0.1 && run(0, w2))) pbt::fail(why + (w2.empty() ? "" : "; classically " + w2));
  ctx.nontrivial(ctx.d.str());
}
PBT_MAIN
