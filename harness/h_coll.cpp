// Coulomb collisions: conservation, deflection statistics, pairing and containment to cells.
#include "smbkit.hpp"
using namespace smbkit;
#if defined(SWITCH_COULOMB_COLLISIONS_TA77S)
#define SCHEME CollisionsTA77S
#elif defined(SWITCH_COULOMB_COLLISIONS_SK98)
#define SCHEME CollisionsSK98
#else
#define SCHEME CollisionsP12
#endif
namespace vrand { void push(double); }

namespace
{
#if defined(SWITCH_COULOMB_COLLISIONS_TA77S)
  const bool REL = false;
#else
  const bool REL = true;
#endif
  const L PI_ = 3.14159265358979323846L, HBAR = 1.0546e-34L, C2 = (L)C0 * C0;
  struct V { L x, y, z; };
  V operator+(V a, V b) { return {a.x + b.x, a.y + b.y, a.z + b.z}; }
  V operator-(V a, V b) { return {a.x - b.x, a.y - b.y, a.z - b.z}; }
  V operator*(V a, L k) { return {a.x * k, a.y * k, a.z * k}; }
  L dot(V a, V b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
  V cross(V a, V b) { return {a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x}; }
  L len(V a) { return sqrtl(dot(a, a)); }
  V vel(const Particle *p) { return {p->vel_r, p->vel_phi, p->vel_z}; }
  L gam(V v) { return REL ? 1 / sqrtl(1 - dot(v, v) / C2) : 1; }
  V mom(L m, V v) { return v * (m * gam(v)); }
  L kin(L m, V v) { if (!REL) return m * dot(v, v) / 2; L g = gam(v); return m * g * g / (g + 1) * dot(v, v); }
  bool finite3(V v) { return std::isfinite((double)(v.x + v.y + v.z)); }
  bool same(V a, V b) { return a.x == b.x && a.y == b.y && a.z == b.z; }

  V gen_vel(Src &g, double vmax)
  {
    double v = g.chance(1, 6) ? 0 : vmax * g.decade(-4, 0);
    int how = (int)g.range(0, 5);
    if (how == 0) return {0, 0, (L)(g.sgn() * v)};
    if (how == 1) return {(L)(g.sgn() * v), 0, 0};
    double c = g.real(-1, 1), p = g.real(0, 6.283185307), s = sqrt(1 - c * c);
    return {(L)(double)(v * s * cos(p)), (L)(double)(v * s * sin(p)), (L)(double)(v * c)};
  }
  double vmax_of(Src &g) { return REL ? C0 * g.pick(std::vector<double>{0.999, 0.9, 0.1, 0.01}) : C0 * g.pick(std::vector<double>{0.05, 0.01, 0.001}); }

  // a scheme without cells
  struct Bare { Sim *s; SCHEME *c; };
  Bare bare()
  {
    static Bare b = [] { World w; w.nr = w.nz = 4; w.dr_n = w.dz_n = 1; w.radius = w.longitude = 4e-3; w.t_step = 1e-13; w.sp.push_back({"electrons", -1, 1, 1e15, 1}); w.sp.push_back({"ions", 1, 1836, 1e15, 0.1}); Sim *s = new Sim(w); return Bare{s, (SCHEME *)s->dom(0, 0)->collisions}; }();
    return b;
  }
  struct Pair { double ma, mb, qa, qb, na, nb, debye, wa, wb; V va, vb; };
  std::string show(const Pair &p)
  {
    char b[600]; snprintf(b, 600, "masses %.4g %.4g me, charges %.3g %.3g e, weights %.6g %.6g, densities %.3g %.3g, debye %.3g, velocities (%.9g %.9g %.9g) (%.9g %.9g %.9g)", p.ma / ME, p.mb / ME, p.qa / QE, p.qb / QE, p.wa, p.wb, p.na, p.nb, p.debye,
             (double)p.va.x, (double)p.va.y, (double)p.va.z, (double)p.vb.x, (double)p.vb.y, (double)p.vb.z);
    return b;
  }
  Pair gen_pair(Src &g)
  {
    Pair p; double m[] = {1, 1836, 7344, 100}, q[] = {-1, 1, 2, 1}; int ia = (int)g.range(0, 3), ib = g.chance(1, 3) ? ia : (int)g.range(0, 3);
    p.ma = m[ia] * ME; p.mb = m[ib] * ME; p.qa = q[ia] * QE; p.qb = q[ib] * QE;
    p.na = g.decade(12, 24); p.nb = g.chance(1, 2) ? p.na : g.decade(12, 24); p.debye = g.decade(-9, -3);
    p.wa = g.decade(0, 9); int how = (int)g.range(0, 2); p.wb = how == 0 ? p.wa : how == 1 ? p.wa * g.decade(-1, 1) : g.decade(0, 9);
    double vm = vmax_of(g); p.va = gen_vel(g, vm); p.vb = gen_vel(g, vm);
    if (g.chance(1, 12)) p.vb = p.va * -1; // with equal masses the centre of mass rests
    if (g.chance(1, 12)) p.vb = p.va;
    return p;
  }
  void collide(const Pair &p, V &va, V &vb)
  {
    Particle *a = mkp(0, 0, (double)p.va.x, (double)p.va.y, (double)p.va.z, p.wa), *b = mkp(0, 0, (double)p.vb.x, (double)p.vb.y, (double)p.vb.z, p.wb);
    bare().c->collide_single(p.ma, p.mb, p.qa, p.qb, *a, *b, p.na, p.nb, p.debye);
    va = vel(a); vb = vel(b); if (a->weight != p.wa || b->weight != p.wb) pbt::fail("weights have changed"); delete a; delete b;
  }
  // the relative motion as seen from the centre of mass
  struct Cm { L g; V beta, pa; L vrel, ga, gb; };
  V boost(V p, L e_c, V beta) { L b2 = dot(beta, beta); if (b2 == 0) return p; L g = 1 / sqrtl(1 - b2); return p + beta * (dot(beta, p) * (g * g / (g + 1))) - beta * (g * e_c); }
  Cm cm_of(const Pair &p)
  {
    Cm c; V P = mom(p.ma, p.va) + mom(p.mb, p.vb); L E = gam(p.va) * p.ma + gam(p.vb) * p.mb; c.beta = P * (1 / (E * C0)); if (!REL) c.beta = {0, 0, 0};
    c.g = 1 / sqrtl(1 - dot(c.beta, c.beta)); c.pa = boost(mom(p.ma, p.va), gam(p.va) * p.ma * C0, c.beta);
    L ea = sqrtl(dot(c.pa, c.pa) / C2 + (L)p.ma * p.ma), eb = sqrtl(dot(c.pa, c.pa) / C2 + (L)p.mb * p.mb); c.ga = ea / p.ma; c.gb = eb / p.mb;
    L pa = len(c.pa); c.vrel = (pa / ea + pa / eb) / (1 + pa / ea * pa / eb / C2); return c;
  }
  double coulomb(const Pair &p, L debye, L u) { L m = (L)p.ma * p.mb / ((L)p.ma + p.mb); return (double)std::max(2.L, logl(debye * m * u / HBAR)); }
}

PBT_PROP(pair, "one collision of any two particles (masses, charges, weights, densities, velocities up to relativistic, along the axis, opposite or resting) at any time step, also for extreme random numbers; non-trivial: velocities have changed")
{
  Pair p = gen_pair(g); bare().s->cfg->time->step = g.decade(-18, -9); vrand::seed(g.seed64());
  int inj = g.chance(1, 4) ? (int)g.range(1, 3) : 0; for (int i = 0; i < inj; ++i) vrand::push(g.pick(std::vector<double>{0., 1 - 0x1p-53, 1e-300, 1e-12, 0.5, 1 - 1e-12}));
  ctx.d << show(p) << ", step " << bare().s->cfg->time->step;
  bool zero = same(p.va, p.vb); V va, vb; collide(p, va, vb);
  if (!finite3(va) || !finite3(vb)) pbt::fail("a velocity is not a number after the collision");
  if (dot(va, va) >= C2 || dot(vb, vb) >= C2) pbt::fail("a particle is faster than light after the collision");
  if (zero) { if (!same(va, p.va) || !same(vb, p.vb)) pbt::fail("particles without relative velocity were deflected"); return; }
  V pa = mom(p.ma, p.va), pb = mom(p.mb, p.vb), qa = mom(p.ma, va), qb = mom(p.mb, vb); L scale = len(pa) + len(pb), ta = kin(p.ma, p.va), tb = kin(p.mb, p.vb), ua = kin(p.ma, va), ub = kin(p.mb, vb);
  L gm = std::max(gam(p.va), gam(p.vb)), gm2 = gm * gm * std::max(gam(va), gam(vb)); bool both = p.wa == p.wb;
#if defined(SWITCH_COULOMB_COLLISIONS_TA77S)
  // each particle keeps its speed relative to the centre of mass, the weighted momentum along the relative velocity is kept
  V cm = (pa + pb) * (1 / ((L)p.ma + p.mb)), u = p.va - p.vb; L su = std::max(std::max(len(p.va), len(p.vb)), std::max(len(va), len(vb)));
  pbt::require_close(len(va - cm), len(p.va - cm), 0, 1e-10L * su, "speed of the first particle relative to the centre of mass");
  pbt::require_close(len(vb - cm), len(p.vb - cm), 0, 1e-10L * su, "speed of the second particle relative to the centre of mass");
  L par = dot((va - p.va) * ((L)p.wa * p.ma) + (vb - p.vb) * ((L)p.wb * p.mb), u) / len(u);
  pbt::require_close(par, 0, 0, 1e-10L * ((L)p.wa * p.ma + (L)p.wb * p.mb) * su, "weighted momentum along the relative velocity");
#else
  bool ha = !same(va, p.va), hb = !same(vb, p.vb); // who was deflected
  if (!both && (ha != hb))
  {
    // only the particle with the higher weight may be spared; the other keeps its energy in the centre-of-mass frame
    bool a = ha; if ((a ? p.wa : p.wb) > (a ? p.wb : p.wa)) // a tiny deflection of the lighter one may be lost in rounding
    { V d = a ? va - p.va : vb - p.vb, w = a ? va : vb; if (len(d) > 1e-7L * std::max(len(w), std::max(len(p.va), len(p.vb)))) pbt::fail("the particle with the higher weight was deflected, the other was not"); return; }
    V P = pa + pb; L E = gam(p.va) * p.ma + gam(p.vb) * p.mb, m = a ? p.ma : p.mb; V v0 = a ? p.va : p.vb, v1 = a ? va : vb;
    L e0 = gam(v0) * m * E - dot(mom(m, v0), P) / C2, e1 = gam(v1) * m * E - dot(mom(m, v1), P) / C2;
    L k = kin(m, v0) / C2 * E + len(mom(m, v0)) * scale / C2 + kin(m, v1) / C2 * E;
    pbt::require_close(e1, e0, 0, 1e-9L * gm2 * k + 2e-15L * m * E * gm2, "energy in the centre-of-mass frame"); ctx.nontrivial(show(p)); return;
  }
  both = both || (ha && hb);
#endif
  if (both && (p.wa == p.wb || REL))
  {
    pbt::require_close((qa + qb).x, (pa + pb).x, 0, 1e-10L * scale * gm2, "radial momentum"); pbt::require_close((qa + qb).y, (pa + pb).y, 0, 1e-10L * scale * gm2, "azimuthal momentum");
    pbt::require_close((qa + qb).z, (pa + pb).z, 0, 1e-10L * scale * gm2, "axial momentum"); pbt::require_close(ua + ub, ta + tb, 0, 1e-9L * (ta + tb) * gm2, "kinetic energy");
  }
  if (!same(va, p.va)) ctx.nontrivial(show(p));
}

PBT_PROP(deflection, "600 collisions of one pair at a step chosen for a given strength: the deflection angles follow the scheme's distribution for the pair's charges, masses, densities and Coulomb logarithm, azimuths are uniform; every case non-trivial")
{
  Pair p = gen_pair(g); if (same(p.va, p.vb)) throw pbt::Discard(); const int N = 600;
#if defined(SWITCH_COULOMB_COLLISIONS_TA77S)
  L u = len(p.va - p.vb), m = (L)p.ma * p.mb / ((L)p.ma + p.mb); if (u < 1e-6 * (len(p.va) + len(p.vb)) || u < 1) throw pbt::Discard();
  L per = powl((L)p.qa * p.qb, 2) * std::min(p.na, p.nb) * coulomb(p, p.debye, u) / (8 * PI_ * powl((L)EPS * m * u, 2) * u); double sd = g.decade(-3, 0.3); double step = (double)(sd * sd / per);
#elif defined(SWITCH_COULOMB_COLLISIONS_SK98)
  // the angle is drawn in the frame, where the particle of the lower weight rests, and is seen wider from the centre of mass
  Cm c = cm_of(p); if (len(c.pa) == 0 || len(c.pa) < 1e-6 * (len(mom(p.ma, p.va)) + len(mom(p.mb, p.vb))) || c.vrel < 1) throw pbt::Discard();
  bool low = p.wa <= p.wb; L gl = low ? c.ga : c.gb, vl = len(c.pa) / (gl * (low ? p.ma : p.mb)), mh = low ? p.mb : p.ma, grel = 1 / sqrtl(1 - c.vrel * c.vrel / C2), pr = grel * mh * c.vrel, rest = gl * (1 - vl / c.vrel);
  L per = powl((L)p.qa * p.qb, 2) * std::min(p.na, p.nb) * coulomb(p, p.debye, c.vrel) / (8 * PI_ * powl((L)EPS * pr, 2) * c.vrel); double sd = (double)(g.decade(-3, 0.3) * std::min(rest, 1.L)), step = (double)(sd * (L)sd / per);
#else
  Cm c = cm_of(p); if (len(c.pa) == 0 || len(c.pa) < 1e-6 * (len(mom(p.ma, p.va)) + len(mom(p.mb, p.vb))) || c.vrel < 1) throw pbt::Discard();
  bool rel = len(p.va) > 5e7 || len(p.vb) > 5e7; L grel = 1 / sqrtl(1 - c.vrel * c.vrel / C2), lam = coulomb(p, rel ? p.debye * grel : p.debye, c.vrel), n = std::max(p.na, p.nb), m = (L)p.ma * p.mb / ((L)p.ma + p.mb), per;
  if (rel) per = n * lam * powl((L)p.qa * p.qb, 2) / (4 * PI_ * powl((L)EPS * C2, 2) * p.ma * gam(p.va) * p.mb * gam(p.vb)) * c.g * len(c.pa) / (p.ma * gam(p.va) + p.mb * gam(p.vb)) * powl(p.ma * c.ga * p.mb * c.gb * C2 / dot(c.pa, c.pa) + 1, 2);
  else per = n * lam * powl((L)p.qa * p.qb, 2) / (4 * PI_ * powl((L)EPS * m, 2) * powl(c.vrel, 3));
  if (c.vrel < 1e6 && n > 7e13)
    per = std::min(per, powl(4.L / 3 * PI_, 1.L / 3) * n * ((L)p.ma + p.mb) / std::max((L)p.ma * powl(p.na, 2.L / 3), (L)p.mb * powl(p.nb, 2.L / 3)) * c.vrel);
  if (fabsl(c.vrel / 1e6 - 1) < 1e-6 || fabsl(n / 7e13 - 1) < 1e-6) throw pbt::Discard();
  double s = g.decade(-2.5, 1.3), step = (double)(s / per);
#endif
  if (!(step > 1e-300) || !std::isfinite(step)) throw pbt::Discard();
  bare().s->cfg->time->step = step; vrand::seed(g.seed64()); ctx.d << show(p) << ", step " << step;
  bool first = p.wa <= p.wb; // the particle with the lower weight is the one that is always deflected
  V axis, e1, e2; std::vector<double> x, az; L sum = 0, sum2 = 0; int seen = 0, heavy = 0;
  L small = 0;
  for (int i = 0; i < N; ++i)
  {
    V va, vb; collide(p, va, vb);
#if !defined(SWITCH_COULOMB_COLLISIONS_TA77S)
    { // how often the particle of the higher weight is deflected, where its deflection is not lost in rounding
      V l0 = mom(first ? p.ma : p.mb, first ? p.va : p.vb), l1 = mom(first ? p.ma : p.mb, first ? va : vb), h0 = mom(first ? p.mb : p.ma, first ? p.vb : p.va), h1 = mom(first ? p.mb : p.ma, first ? vb : va);
      L gh = gam(first ? p.vb : p.va); if (len(l1 - l0) > 1e-9L * (len(h0) + len(l0)) * gh * gh) { ++seen; if (len(h1 - h0) > 0.1L * len(l1 - l0)) ++heavy; }
    }
#endif
#if defined(SWITCH_COULOMB_COLLISIONS_TA77S)
    V cm = (p.va * p.ma + p.vb * p.mb) * (1 / ((L)p.ma + p.mb)), w0 = (first ? p.va : p.vb) - cm, w1 = (first ? va : vb) - cm; small = 1e-15L * (len(p.va) + len(p.vb)) / len(w0);
#else
    V w0, w1; if (first) { w0 = c.pa; w1 = boost(mom(p.ma, va), gam(va) * p.ma * C0, c.beta); } else { w0 = c.pa * -1; w1 = boost(mom(p.mb, vb), gam(vb) * p.mb * C0, c.beta); }
    small = 1e-15L * (len(mom(p.ma, p.va)) + len(mom(p.mb, p.vb))) / len(w0) * gam(p.va) * gam(p.vb) * c.g;
#endif
    if (small > 1e-6) throw pbt::Discard(); // the deflection would be lost in rounding
    w0 = w0 * (1 / len(w0)); w1 = w1 * (1 / len(w1)); V k = cross(w0, w1); L sn = len(k), cs = dot(w0, w1);
    if (i == 0) { V h = fabsl(w0.z) < 0.9 ? V{0, 0, 1} : V{1, 0, 0}; e1 = cross(w0, h); e1 = e1 * (1 / len(e1)); e2 = cross(w0, e1); }
    if (sn > 1e3 * small) az.push_back((double)(atan2l(dot(w1, e2), dot(w1, e1)) / (2 * PI_) + 0.5));
#if defined(SWITCH_COULOMB_COLLISIONS_TA77S)
    x.push_back((double)erfl(sn / (1 + cs) / sd / sqrtl(2))); // |delta| is half-normal
#elif defined(SWITCH_COULOMB_COLLISIONS_SK98)
    L t = atan2l(sn, cs), lo = -60, hi = 60; // delta that makes this angle
    for (int q = 0; q < 100; ++q) { L m = (lo + hi) / 2, d = expl(m), th = atan2l(2 * d / (1 + d * d), gl * ((1 - d * d) / (1 + d * d) - vl / c.vrel)); (th < t ? lo : hi) = m; }
    x.push_back((double)erfl(expl(lo) / sd / sqrtl(2)));
#else
    L h = sn * sn / (1 + cs); if (cs < 0) h = 1 - cs; sum += h; sum2 += h * h;
#endif
  }
  auto ks = [&](std::vector<double> &v, const char *what) { if (v.size() < 100) return; std::sort(v.begin(), v.end()); double d = 0, n = v.size(); for (size_t i = 0; i < v.size(); ++i) d = std::max(d, std::max(fabs(v[i] - i / n), fabs(v[i] - (i + 1) / n))); if (d > sqrt(31 / (2 * n)) + 1e-3) pbt::failf("%s: distance %.3g to the expected distribution of %zu samples", what, d, v.size()); };
#if !defined(SWITCH_COULOMB_COLLISIONS_P12)
  if (getenv("DBG")) { auto y = x; std::sort(y.begin(), y.end()); for (int i = 0; i < 10; ++i) fprintf(stderr, "%g ", y[i * 60 + 30]); fprintf(stderr, "sd %g\n", sd); }
  ks(x, "deflection angles");
#else
  // mean of 1 - cos is 1 - exp(-s), approximated by the scheme within 1 %
  L mean = sum / N, want = 1 - expl(-(L)s), sdev = sqrtl(std::max(sum2 / N - mean * mean, 0.L) / N);
  if (s > 0.01) pbt::require_close(mean, want, 0, 8 * std::max(sdev, want / sqrtl((L)N)) * 0.9L + 0.02L * want, "mean of 1 - cos of the deflection"); else pbt::require_close(mean, want, 0, 8 * std::max(sdev, want / sqrtl((L)N)) + 0.02L * want, "mean of 1 - cos of the deflection");
#endif
  ks(az, "azimuths");
#if !defined(SWITCH_COULOMB_COLLISIONS_TA77S)
  double ratio = std::min(p.wa, p.wb) / std::max(p.wa, p.wb); if (fabs(heavy - ratio * seen) > 6.5 * sqrt(seen * ratio * (1 - ratio)) + 2 + (ratio * seen < 1 ? 4 : 0)) pbt::failf("the particle of the higher weight was deflected %d times of %d, the ratio of weights is %g", heavy, seen, ratio);
#else
  (void)seen; (void)heavy;
#endif
  ctx.nontrivial(show(p));
}

namespace
{
  struct Cells { double w0; World w; std::vector<Seed> s; bool equal; };
  Cells gen_cells(Src &g, bool strong, bool many)
  {
    Cells c; c.w = gen_grid(g, 2, 2, 2, 5); c.w.sp.clear(); c.w.sp.push_back({g.flip() ? "electrons" : "Electrons", -1, 1, 1e15, 1}); c.w.sp.push_back({g.flip() ? "ions" : "Ions", 1, g.pick(std::vector<double>{1836, 10}), 1e15, 0.1});
    if (g.chance(1, 2)) c.w.sp.push_back(g.pick(std::vector<Species>{{"protons", 1, 1836, 1e15, 0.1}, {"positrons", 1, 1, 1e15, 0.1}, {"muons", -1, 207, 1e15, 0.1}, {"others", -1, 1, 1e15, 0.1}, {"electrons_b", -1, 1, 1e15, 0.1}}));
    double dr = c.w.radius / c.w.nr, dz = c.w.longitude / c.w.nz, vm = REL ? g.pick(std::vector<double>{1e6, 1e7, 2.5e8}) : 1e6; double w0 = (strong ? 1e22 : g.decade(15, 22)) * dr * dr * dz; c.w0 = w0; c.equal = g.chance(1, 2);
    bool crowd = g.chance(1, 12); int nc = (int)g.range(1, crowd ? 2 : 5); std::set<std::pair<long, long>> used;
    for (int k = 0; k < nc; ++k)
    {
      long i = g.range(0, c.w.nr - 1), j = g.range(0, c.w.nz - 1); if (!used.insert({i, j}).second) continue;
      for (size_t q = 0; q < c.w.sp.size(); ++q)
      {
        int n = (int)g.range(0, crowd ? 150 : many ? 20 : 8);
        for (int m = 0; m < n; ++m) { V v = gen_vel(g, q == 1 ? vm / 40 : vm); c.s.push_back({(int)q, (i + g.open(0.01, 0.99)) * dr, (j + g.open(0.01, 0.99)) * dz, (double)v.x, (double)v.y, (double)v.z, (c.equal ? w0 : w0 * g.real(0.2, 2)) * (double)(strong ? 2 * i + 1 : 1)}); } // as dense far from the axis as close to it
      }
    }
    return c;
  }
  std::pair<long, long> cell(const World &w, double r, double z) { return {(long)floor(r / (w.radius / w.nr)), (long)floor(z / (w.longitude / w.nz))}; }
  // 0: collides as an electron, 1: as an ion, 2: does not collide
  int kind_of(const World &w, int sp) { return sp < 2 ? sp : w.sp[sp].charge == w.sp[0].charge && w.sp[sp].mass == w.sp[0].mass ? 0 : 2; }
  double mass_of(const World &w, int sp) { return w.sp[sp].mass * ME; }
}

PBT_PROP(cells, "up to 8, sometimes 150, electrons, ions and other particles in each of 1..5 cells of 1..4 domains, one round of collisions: totals of every cell, untouched particles and data; non-trivial: velocities have changed")
{
  Cells c = gen_cells(g, false, false); c.w.t_step = std::min(c.w.t_step, g.decade(-16, -11)); Sim s(c.w); std::vector<Particle *> ps; for (auto &q : c.s) ps.push_back(s.add(q)); s.bind();
  ctx.d << show(c.w) << ", step " << c.w.t_step << (c.equal ? ", equal weights" : ""); for (auto &q : c.s) ctx.d << "; " << c.w.sp[q.sp].name << " " << q.r << "," << q.z << " v " << q.vr << "," << q.vp << "," << q.vz << " w " << q.w;
  vrand::seed(g.seed64());
  for (long a = 0; a < c.w.dr_n; ++a) for (long b = 0; b < c.w.dz_n; ++b) s.dom(a, b)->collide();
  struct Tot { V p0 = {0, 0, 0}, p1 = {0, 0, 0}; L e0 = 0, e1 = 0, sp = 0; int n[3] = {0, 0, 0}; L g = 1; }; std::map<std::pair<long, long>, Tot> tot; bool moved = false;
  for (size_t i = 0; i < ps.size(); ++i)
  {
    auto &q = c.s[i]; Particle *p = ps[i]; V v0 = {q.vr, q.vp, q.vz}, v1 = vel(p); L m = mass_of(c.w, q.sp) * (L)q.w;
    if (p->pos_r != q.r || p->pos_z != q.z || p->weight != q.w) pbt::fail("a collision changed more than the velocity of a particle");
    if (!finite3(v1)) pbt::failf("velocity of particle %zu is not a number", i); if (dot(v1, v1) >= C2) pbt::failf("particle %zu is faster than light", i);
    Tot &t = tot[cell(c.w, q.r, q.z)]; int kd = kind_of(c.w, q.sp); t.n[kd]++; if (kd == 2) { if (!same(v0, v1)) pbt::fail("a particle that is neither electron nor ion was collided"); continue; }
    t.p0 = t.p0 + mom(m, v0); t.p1 = t.p1 + mom(m, v1); t.e0 += kin(m, v0); t.e1 += kin(m, v1); t.sp += len(mom(m, v0)); t.g = std::max(t.g, std::max(gam(v0), gam(v1)));
    if (!same(v0, v1)) moved = true;
  }
  for (auto &kv : tot)
  {
    Tot &t = kv.second; char where[64]; snprintf(where, 64, "cell %ld,%ld", kv.first.first, kv.first.second);
    if (t.n[0] == 0 || t.n[1] == 0) continue;
    if (REL && !c.equal) continue; // single deflections keep the totals in the average only
    L tol = REL ? 1e-9L * t.g * t.g * t.g : 1e-8L; // the correction of velocities takes a root of a difference
    if (fabsl(t.p1.x - t.p0.x) > tol * t.sp || fabsl(t.p1.y - t.p0.y) > tol * t.sp || fabsl(t.p1.z - t.p0.z) > tol * t.sp) pbt::failf("%s: momentum (%.9Lg %.9Lg %.9Lg) became (%.9Lg %.9Lg %.9Lg)", where, t.p0.x, t.p0.y, t.p0.z, t.p1.x, t.p1.y, t.p1.z);
    if (fabsl(t.e1 - t.e0) > tol * t.e0) pbt::failf("%s: kinetic energy %.12Lg became %.12Lg", where, t.e0, t.e1);
  }
  if (moved) ctx.nontrivial(ctx.d.str());
}

PBT_PROP(everyone, "1..5 cells with up to 20 electrons and ions each at strong collisionality, where only electrons among each other, only ions or only unlike particles can be deflected: every particle with a partner is; non-trivial: different numbers of both in a cell")
{
  Cells c = gen_cells(g, true, true); int kind = (int)g.range(0, 2), cold = 2; if (kind < 2) { cold = 1 - kind; c.w.sp[cold].charge = 0; } while (c.w.sp.size() > 2) c.w.sp.pop_back();
  bool like = kind < 2, shuffled = g.flip(); // one kind's pairs only, or pairs of both kinds
  c.s.erase(std::remove_if(c.s.begin(), c.s.end(), [](const Seed &q) { return q.sp > 1; }), c.s.end()); c.w.t_step = 1e-13; int k = 0;
  for (auto &q : c.s)
  {
    q.w = c.w0 * (2 * cell(c.w, q.r, q.z).first + 1); V v = {1e6, 2e6, -1e6}; if (q.sp == 1) v = {-3e5, 1e4, 2e4}; if (like && q.sp != cold) { ++k; v = {1e6 + 3e5 * (k % 7), 1.1e6 - 1e5 * (k % 11), 1e4 * k}; if (q.sp == 1) v = v * 0.1; }
    if (!REL) v = v * 0.5; q.vr = (double)v.x; q.vp = (double)v.y; q.vz = (double)v.z;
  }
  // the first three of an odd group collide each with each, so all are deflected, when two of them do not move against each other
  if (like && !shuffled && g.flip())
  {
    std::map<std::pair<long, long>, std::vector<Seed *>> hot; for (auto &q : c.s) if (q.sp != cold) hot[cell(c.w, q.r, q.z)].push_back(&q);
    for (auto &kv : hot) if (kv.second.size() % 2 && kv.second.size() > 2) { int a = (int)g.range(0, 2), b = (a + 1 + (int)g.range(0, 1)) % 3; Seed &x = *kv.second[a], &y = *kv.second[b]; y.vr = x.vr; y.vp = x.vp; y.vz = x.vz; }
  }
  // a single deflection may be lost in rounding, so there are several rounds
  uint64_t r1 = g.seed64(); std::vector<bool> hit(c.s.size(), false); ctx.d << show(c.w) << (kind == 0 ? ", electron" : kind == 1 ? ", ion" : ", unlike") << " pairs" << (shuffled ? "" : ", partners as they come");
  for (int round = 0; round < 6; ++round)
  {
    Sim s(c.w); std::vector<Particle *> ps; for (auto &q : c.s) ps.push_back(s.add(q)); s.bind(); vrand::seed(r1 + round);
    for (long a = 0; a < c.w.dr_n; ++a) for (long b = 0; b < c.w.dz_n; ++b)
    { SCHEME *x = (SCHEME *)s.dom(a, b)->collisions; x->clear(); x->sort_to_cells(); if (shuffled) x->random_sort(); x->collect_weighted_params_tot_grid(); x->collide(); }
    bool all = true; for (size_t i = 0; i < ps.size(); ++i) { auto &q = c.s[i]; V v0 = {q.vr, q.vp, q.vz}; if (len(vel(ps[i]) - v0) > (REL ? 1e-12L : 1e-9L) * len(v0)) hit[i] = true; all = all && hit[i]; }
    if (all) break;
  }
  std::map<std::pair<long, long>, std::array<int, 2>> n; for (auto &q : c.s) n[cell(c.w, q.r, q.z)][q.sp]++;
  for (auto &kv : n) { ctx.d << "; cell " << kv.first.first << "," << kv.first.second << ": " << kv.second[0] << " electrons, " << kv.second[1] << " ions"; if (kv.second[0] && kv.second[1] && kv.second[0] != kv.second[1]) ctx.nontrivial(ctx.d.str()); }
  for (size_t i = 0; i < c.s.size(); ++i)
  {
    auto &q = c.s[i]; auto at = cell(c.w, q.r, q.z); auto &m = n[at]; if (m[0] == 0 || m[1] == 0) continue;
    if (like && (q.sp == cold || m[q.sp] < 2)) continue;
    if (!hit[i]) pbt::failf("%s %zu in cell %ld,%ld has not collided", c.w.sp[q.sp].name.c_str(), i, at.first, at.second);
  }
}

PBT_PROP(steps, "1..3 whole steps without fields of electrons, ions and other particles in 1..5 cells of 1..4 domains: collisions change speeds in every step, and keep the totals of each cell; non-trivial: some speed has changed")
{
  Cells c = gen_cells(g, true, true); c.w.t_step = 1e-13; int k = 0; double dr = c.w.radius / c.w.nr, dz = c.w.longitude / c.w.nz;
  for (auto &q : c.s) { ++k; V v = {1e6 + 3e5 * (k % 7), 1.1e6 - 1e5 * (k % 11), 1e4 * k}; v = v * ((REL ? 1 : 0.5) * (q.sp ? 0.1 : 1)); q.vr = (double)v.x; q.vp = (double)v.y; q.vz = (double)v.z; q.w = c.w0 * (2 * cell(c.w, q.r, q.z).first + 1); q.r = std::min(std::max(q.r, 0.51 * dr), (c.w.nr - 0.51) * dr); q.z = std::min(std::max(q.z, 0.51 * dz), (c.w.nz - 0.51) * dz); } // places that walls leave to particles
  Sim s(c.w); std::map<Particle *, int> sp; for (auto &q : c.s) sp[s.add(q)] = kind_of(c.w, q.sp); s.bind(); vrand::seed(g.seed64()); int steps = (int)g.range(1, 3); bool some = false;
  ctx.d << show(c.w) << ", " << sp.size() << " particles, step " << c.w.t_step << ", " << steps << " steps";
  for (int st = 0; st < steps; ++st)
  {
    std::map<Particle *, V> v0; std::map<Particle *, std::pair<long, long>> at; struct Tot { L e0 = 0, e1 = 0, g = 1; int n[2] = {0, 0}, hit = 0; }; std::map<std::pair<long, long>, Tot> tot;
    for (auto &kv : sp) { v0[kv.first] = vel(kv.first); at[kv.first] = cell(c.w, kv.first->pos_r, kv.first->pos_z); }
    s.smb->advance_particles();
    std::set<Particle *> left; for (auto &r : s.all()) left.insert(r.p);
    for (auto &kv : sp)
    {
      if (!left.count(kv.first)) pbt::failf("step %d: a particle has vanished", st);
      V a = v0[kv.first], b = vel(kv.first); if (!finite3(b) || dot(b, b) >= C2) pbt::failf("step %d: a velocity is undefined or faster than light", st);
      bool hit = fabsl(len(a) - len(b)) > 1e-9L * len(a);
      if (kv.second == 2) { if (hit) pbt::fail("a particle that is neither electron nor ion was collided"); continue; }
      Tot &t = tot[at[kv.first]]; t.n[kv.second]++; L m = mass_of(c.w, kv.second); t.e0 += kin(m, a); t.e1 += kin(m, b); t.g = std::max(t.g, std::max(gam(a), gam(b))); t.hit += hit;
    }
    for (auto &kv : tot)
    {
      Tot &t = kv.second; if (t.hit) some = true;
      if (t.n[0] < 2 || t.n[1] < 2) continue;
      if (t.n[0] + t.n[1] >= 8 && t.n[0] > 1 && t.n[1] > 1 && !t.hit) pbt::failf("step %d: none of %d electrons and %d ions in cell %ld,%ld collided", st, t.n[0], t.n[1], kv.first.first, kv.first.second);
      L tol = REL ? 1e-9L * t.g * t.g * t.g : 1e-8L; if (fabsl(t.e1 - t.e0) > tol * t.e0) pbt::failf("step %d: kinetic energy %.12Lg in cell %ld,%ld became %.12Lg", st, t.e0, kv.first.first, kv.first.second, t.e1);
    }
  }
  if (some) ctx.nontrivial(ctx.d.str());
}

PBT_PROP(placed, "the same particles in one cell, once in an undivided area, once in one of 2..4 domains: collisions do the same to them; non-trivial: velocities have changed")
{
  Cells c = gen_cells(g, false, false); c.w.t_step = std::min(c.w.t_step, g.decade(-16, -11)); if (c.w.dr_n * c.w.dz_n == 1 || c.s.empty()) throw pbt::Discard();
  auto at = cell(c.w, c.s[0].r, c.s[0].z); World w1 = c.w; w1.dr_n = w1.dz_n = 1; uint64_t r1 = g.seed64(); std::vector<V> out[2];
  ctx.d << show(c.w) << ", cell " << at.first << "," << at.second << ", step " << c.w.t_step;
  for (int k = 0; k < 2; ++k)
  {
    Sim s(k ? c.w : w1); std::vector<Particle *> ps; for (auto &q : c.s) if (cell(c.w, q.r, q.z) == at) ps.push_back(s.add(q)); s.bind(); vrand::seed(r1);
    long a, b; s.home(c.s[0].r, c.s[0].z, a, b); s.dom(a, b)->collide(); for (auto p : ps) out[k].push_back(vel(p));
  }
  bool moved = false; size_t i = 0;
  for (auto &q : c.s) if (cell(c.w, q.r, q.z) == at)
  {
    V v0 = {q.vr, q.vp, q.vz}; if (!same(out[0][i], v0)) moved = true; L sc = std::max(len(out[0][i]), len(v0)) + 1;
    if (!(len(out[0][i] - out[1][i]) <= 1e-6L * sc)) pbt::failf("particle %zu: velocity (%.9Lg %.9Lg %.9Lg) in the undivided area, (%.9Lg %.9Lg %.9Lg) in a domain", i, out[0][i].x, out[0][i].y, out[0][i].z, out[1][i].x, out[1][i].y, out[1][i].z);
    ++i;
  }
  if (moved) ctx.nontrivial(ctx.d.str());
}
PBT_PROP(partners, "180 rounds of collisions of the same 4 electrons (like pairs) or 3 electrons with 3 ions (unlike pairs) in two cells: who collides with whom is drawn anew at random in each cell and round; every case non-trivial")
{
  bool like = g.flip(); int n = like ? 4 : 3; World w = gen_grid(g, 2, 2, 2, 5); w.sp.clear(); w.sp.push_back({"electrons", -1, 1, 1e15, 1}); w.sp.push_back({"ions", like ? 0. : 1., 10, 1e15, 0.1}); w.t_step = 1e-13;
  double dr = w.radius / w.nr, dz = w.longitude / w.nz, wt = 1e22 * dr * dr * dz; long at[2][2]; for (auto &a : at) { a[0] = g.range(0, w.nr - 1); a[1] = g.range(0, w.nz - 1); }
  if (at[0][0] == at[1][0] && at[0][1] == at[1][1]) throw pbt::Discard();
  std::vector<Seed> q; for (auto &a : at) for (int k = 0; k < (like ? n + 2 : 2 * n); ++k)
  {
    bool ion = k >= n; V v = {1e6, 2e6, -1e6}; if (ion) v = {-3e5, 1e4, 2e4}; else if (like) v = {1e6 + 3e5 * k, 1.1e6 - 1e5 * (k * k), 1e5 * k}; if (!REL) v = v * 0.5;
    q.push_back({ion, (a[0] + g.open(0.01, 0.99)) * dr, (a[1] + g.open(0.01, 0.99)) * dz, (double)v.x, (double)v.y, (double)v.z, wt});
  }
  Sim s(w); std::vector<Particle *> ps; for (auto &x : q) ps.push_back(s.add(x)); s.bind(); vrand::seed(g.seed64()); const int N = 180; int per = (int)q.size() / 2;
  ctx.d << show(w) << (like ? ", 4 electrons" : ", 3 electrons and 3 ions") << " in cells " << at[0][0] << "," << at[0][1] << " and " << at[1][0] << "," << at[1][1];
  int cnt[2][4] = {}, both = 0, again[2] = {0, 0}, pairs[2] = {0, 0}, known = 0, last[2] = {-1, -1};
  for (int t = 0; t < N; ++t)
  {
    for (size_t i = 0; i < q.size(); ++i) { ps[i]->vel_r = q[i].vr; ps[i]->vel_phi = q[i].vp; ps[i]->vel_z = q[i].vz; }
    for (long a = 0; a < w.dr_n; ++a) for (long b = 0; b < w.dz_n; ++b) s.dom(a, b)->collide();
    int who[2] = {-1, -1};
    for (int c = 0; c < 2; ++c)
    {
      auto dp = [&](int k) { auto &x = q[c * per + k]; return (vel(ps[c * per + k]) - V{x.vr, x.vp, x.vz}) * mass_of(w, x.sp); }; V d0 = dp(0); if (len(d0) == 0) continue;
      for (int k = like ? 1 : n; k < (like ? n : 2 * n); ++k) if (len(d0 + dp(k)) < 1e-4 * len(d0)) who[c] = like ? k : k - n;
      if (who[c] >= 0) { cnt[c][who[c]]++; if (last[c] >= 0) { pairs[c]++; if (last[c] == who[c]) again[c]++; } } last[c] = who[c];
    }
    if (who[0] >= 0 && who[1] >= 0) { ++known; if (who[0] == who[1]) ++both; }
  }
  if (known < N / 2) throw pbt::Discard();
  auto odd = [](int k, int of) { double e = of / 3., sd = sqrt(of * 2 / 9.); return k < e - 6.5 * sd || k > e + 6.5 * sd; };
  for (int c = 0; c < 2; ++c)
  {
    int tot = 0; for (int k : cnt[c]) tot += k;
    for (int k = like ? 1 : 0; k < (like ? 4 : 3); ++k) if (odd(cnt[c][k], tot)) pbt::failf("particle 0 of cell %ld,%ld collided with partner %d in %d of %d rounds", at[c][0], at[c][1], k, cnt[c][k], tot);
    if (odd(again[c], pairs[c])) pbt::failf("in cell %ld,%ld, the partner was the same as in the round before in %d of %d rounds", at[c][0], at[c][1], again[c], pairs[c]);
  }
  if (odd(both, known)) pbt::failf("pairs of both cells were the same in %d of %d rounds", both, known);
  ctx.nontrivial(ctx.d.str());
}
PBT_MAIN
