// Grid <-> particle transfer: field gather, density, current.
#include "world.hpp"
#include "maxwellSolver.hpp"
#include "current/currentVB.hpp"
#include "current/currentZigZag.hpp"
using namespace world;

namespace
{
  typedef long double L;
  const L PI_ = 3.14159265358979323846264338327950288L;

  struct Box // one domain somewhere in the simulation area
  {
    long nr, nz, a, b; double dr, dz; Geometry *geo; bool pow2;
    ~Box() { delete geo; }
    Box(Src &g, Ctx &ctx, bool exact = false)
    {
      nr = g.range(4, 14); nz = g.range(4, 14); if (g.chance(1, 25)) (g.flip() ? nr : nz) = g.range(15, 80);
      a = g.flip() ? 0 : g.range(1, 40); b = g.flip() ? 0 : g.range(1, 40); if (g.chance(1, 12)) (g.flip() ? a : b) = g.range(41, 1500);
      pow2 = exact && g.flip();
      dr = pow2 ? std::ldexp(1., -(int)g.range(6, 12)) : g.decade(-5, -1);
      dz = pow2 ? std::ldexp(1., -(int)g.range(6, 12)) : g.decade(-5, -1);
      geo = new Geometry({nr * dr, nz * dz}, {(size_t)a, (size_t)b, (size_t)(a + nr), (size_t)(b + nz)}, {a == 0, b == 0, true, true});
      dr = geo->cell_size[0]; dz = geo->cell_size[1];
      ctx.d << nr << "x" << nz << " cells at offset " << a << "," << b << ", dr " << dr << " dz " << dz;
    }
  };
  struct Probe_ : public MaxwellSolver
  {
    Probe_(Geometry *g, TimeSim *t) : MaxwellSolver(g, t) {}
    void set_pml() {}
    void calc_field_h() {}
    void calc_field_e() {}
    Grid3D<double> &f(int which) { return which ? field_h : field_e; }
    vector3d<double> get(int which, double r, double z) { return which ? get_field_h(r, z) : get_field_e(r, z); }
  };
  // stagger of component c of field which: node (i,k) sits at (i + sr/2, k + sz/2)
  void stagger(int which, int c, int &sr, int &sz)
  {
    if (which == 0) { sr = c == 0; sz = c == 2; }     // E_r (i+1/2,k), E_phi (i,k), E_z (i,k+1/2)
    else { sr = c != 0; sz = c != 2; }                // H_r (i,k+1/2), H_phi (i+1/2,k+1/2), H_z (i+1/2,k)
  }
  // local coordinate of a particle in [0,n) cells, keeping clear of the ulp around cell and half-cell edges
  double place(Src &g, long n, double lo)
  {
    double c = (double)g.range(0, n - 1), x;
    int k = (int)g.range(0, 5);
    x = k == 0 ? 0.5 + g.sgn() * g.decade(-6, -1) * 0.4 : k == 1 ? g.decade(-6, -1) : k == 2 ? 1 - g.decade(-6, -1) : g.open(0, 1);
    x += c;
    return x < lo ? lo + g.decade(-6, -1) : x;
  }
  void zero(Probe_ &m) { for (int w = 0; w < 2; ++w) { m.f(w) = 0.; m.f(w).overlay_set(0.); } }
}

// ---- field gather
PBT_PROP(gather, "random domain, offset and particle position; the response of all six components to each node of the 4x4 "
                 "neighbourhood is measured, then checked against a random field; non-trivial: every case")
{
  Box x(g, ctx); TimeSim *t = mk_time(1e-12); std::unique_ptr<TimeSim> tg(t);
  Probe_ m(x.geo, t);
  // in domains away from the axis and walls a particle may sit anywhere; at the axis it stays half a cell away
  double lr = place(g, x.nr, x.a == 0 ? 0.5 : 0.0), lz = place(g, x.nz, x.b == 0 ? 0.5 : 0.0);
  double r = (x.a + lr) * x.dr, z = (x.b + lz) * x.dz;
  ctx.d << "; particle at " << r / x.dr << "," << z / x.dz << " cells";
  L R = (L)r / x.dr, Z = (L)z / x.dz;
  static const int WN = 4; double w[2][3][WN][WN];
  int i0 = (int)floorl(R) - x.a - 1, k0 = (int)floorl(Z) - x.b - 1; // window of local indices i0..i0+3
  for (int wh = 0; wh < 2; ++wh)
    for (int c = 0; c < 3; ++c)
    {
      int sr, sz; stagger(wh, c, sr, sz);
      int ii = (int)floorl(R - 0.5L * sr) - x.a, kk = (int)floorl(Z - 0.5L * sz) - x.b;
      L fz = (Z - 0.5L * sz) - floorl(Z - 0.5L * sz);
      for (int di = 0; di < WN; ++di)
        for (int dk = 0; dk < WN; ++dk)
        {
          int i = i0 + di, k = k0 + dk;
          w[wh][c][di][dk] = 0;
          if (i < -2 || i > x.nr + 1 || k < -2 || k > x.nz + 1) continue;
          zero(m);
          m.f(wh)[c].set(i, k, 1.);
          vector3d<double> e = m.get(0, r, z), h = m.get(1, r, z);
          vector3d<double> &mine = wh ? h : e, &other = wh ? e : h;
          for (int q = 0; q < 3; ++q)
          {
            if (other[q] != 0) pbt::failf("component %d of the %s field leaks into the other field", c, wh ? "magnetic" : "electric");
            if (q != c && mine[q] != 0) pbt::failf("component %d of the %s field at node %d,%d shows up as component %d", c, wh ? "magnetic" : "electric", i, k, q);
          }
          double v = w[wh][c][di][dk] = mine[c];
          bool inside = (i == ii || i == ii + 1) && (k == kk || k == kk + 1);
          if (!inside) { if (v != 0) pbt::failf("field %d component %d: node %d,%d is not next to the particle but has weight %g", wh, c, i, k, v); continue; }
          // overlap of the particle's ring with the node's ring, in units of pi dr^2 dz
          L node = i + x.a + 0.5L * sr, mid = ii + x.a + 0.5L * sr + 0.5L;
          L ovl = i == ii ? mid * mid - (R - 0.5L) * (R - 0.5L) : (R + 0.5L) * (R + 0.5L) - mid * mid;
          L zf = k == kk ? 1 - fz : fz;
          L vtrue = node == 0 ? 0.25L : 2 * node;
          L hi = ovl * zf / vtrue, lo = ovl * zf / (vtrue + 1);
          if (!(v <= hi * (1 + 1e-6L) + 1e-12L && v >= lo * (1 - 1e-6L) - 1e-12L))
            pbt::failf("field %d component %d: weight of node %d,%d is %.10g, volume weighting allows %.10Lg..%.10Lg", wh, c, i, k, v, lo, hi);
        }
      // the split between the two z neighbours is linear
      for (int i = ii; i <= ii + 1; ++i)
      {
        double wa = w[wh][c][i - i0][kk - k0], wb = w[wh][c][i - i0][kk + 1 - k0], s = wa + wb;
        if (fabsl(wa - s * (1 - fz)) > 1e-9L * fabs(s) + 1e-13L) pbt::failf("field %d component %d: z weights %g and %g do not split linearly", wh, c, wa, wb);
      }
      // a node's volume does not depend on where the particle is: move the particle and compare
      double lr2 = lr + g.real(-0.9, 0.9); if (lr2 < (x.a == 0 ? 0.5 : 0) || lr2 >= x.nr) lr2 = lr;
      double lz2 = lz + g.real(-0.9, 0.9); if (lz2 < 0.5 || lz2 >= x.nz) lz2 = lz;
      double r2 = (x.a + lr2) * x.dr, z2 = (x.b + lz2) * x.dz; L R2 = (L)r2 / x.dr, Z2 = (L)z2 / x.dz;
      int ii2 = (int)floorl(R2 - 0.5L * sr) - x.a, kk2 = (int)floorl(Z2 - 0.5L * sz) - x.b; L fz2 = (Z2 - 0.5L * sz) - floorl(Z2 - 0.5L * sz);
      for (int i = ii; i <= ii + 1; ++i)
      {
        if (i != ii2 && i != ii2 + 1) continue;
        L m1 = ii + x.a + 0.5L * sr + 0.5L, m2 = ii2 + x.a + 0.5L * sr + 0.5L;
        L o1 = i == ii ? m1 * m1 - (R - 0.5L) * (R - 0.5L) : (R + 0.5L) * (R + 0.5L) - m1 * m1;
        L o2 = i == ii2 ? m2 * m2 - (R2 - 0.5L) * (R2 - 0.5L) : (R2 + 0.5L) * (R2 + 0.5L) - m2 * m2;
        zero(m); m.f(wh)[c].set(i, kk2, 1.); m.f(wh)[c].set(i, kk2 + 1, 1.);
        L w2 = m.get(wh, r2, z2)[c], w1 = (L)w[wh][c][i - i0][kk - k0] + w[wh][c][i - i0][kk + 1 - k0];
        (void)fz2;
        if (fabsl(w1 * o2 - w2 * o1) > 1e-7L * (fabsl(w1 * o2) + fabsl(w2 * o1)) + 1e-11L + 1e-15L * R * R)
          pbt::failf("field %d component %d: node %d weighs %.10Lg for a particle at r=%.6Lg and %.10Lg at r=%.6Lg (in cells): not one volume", wh, c, i, w1, R, w2, R2);
      }
    }
  // superposition
  double want[2][3] = {{0}}; zero(m);
  for (int wh = 0; wh < 2; ++wh)
    for (int c = 0; c < 3; ++c)
      for (int di = 0; di < WN; ++di)
        for (int dk = 0; dk < WN; ++dk)
        {
          int i = i0 + di, k = k0 + dk;
          if (i < -2 || i > x.nr + 1 || k < -2 || k > x.nz + 1) continue;
          double v = g.real(-1, 1); m.f(wh)[c].set(i, k, v); want[wh][c] += v * w[wh][c][di][dk];
        }
  for (int wh = 0; wh < 2; ++wh)
    for (int c = 0; c < 3; ++c) pbt::require_close(m.get(wh, r, z)[c], want[wh][c], 1e-9, 1e-12, "the gather is not the sum of its nodes");
  ctx.nontrivial(ctx.d.str());
}

// ---- a known finding: the volume of every node is taken one pi dr^2 dz too large
PBT_PROP(uniform, "one fixed place, 4.3 cells from the axis, in fields of 1 everywhere; fails only if they are felt as weak as the recorded finding says; non-trivial: every case")
{
  (void)g; Geometry geo({8e-3, 8e-3}, {0, 0, 8, 8}, {true, true, true, true}); TimeSim *t = mk_time(1e-12); std::unique_ptr<TimeSim> tg(t); Probe_ m(&geo, t);
  ctx.d << "particle at 4.3,4.3 cells"; ctx.nontrivial(ctx.d.str());
  for (int wh = 0; wh < 2; ++wh) for (int c = 0; c < 3; ++c)
  {
    zero(m); m.f(wh)[c] = 1.; m.f(wh)[c].overlay_set(1.); double v = m.get(wh, 4.3e-3, 4.3e-3)[c];
    int sr, sz; stagger(wh, c, sr, sz); L R = 4.3L; int i = (int)floorl(R - 0.5L * sr); L mid = i + 0.5L * sr + 0.5L, v1 = 2 * (i + 0.5L * sr) + 1, v2 = v1 + 2;
    L weak = (mid * mid - (R - 0.5L) * (R - 0.5L)) / v1 + ((R + 0.5L) * (R + 0.5L) - mid * mid) / v2;
    if (fabsl(v - weak) < 1e-6L) pbt::failf("a uniform field (component %d of the %s field) of 1 is felt as %.6f at 4.3 cells from the axis", c, wh ? "magnetic" : "electric", v);
  }
}

// ---- density
namespace
{
  L frac(L R, long i) // fraction of a ring of width 1 around R that belongs to node i (R in cells)
  {
    L f = (((i + 0.5L) * (i + 0.5L) - 0.25L)) / (2 * R) - R / 2 + 0.5L;
    return f;
  }
}
PBT_PROP(density, "random domain and offset, 1..30, sometimes 600, macroparticles of random weight anywhere in it; non-trivial: two or more particles")
{
  Box x(g, ctx); TimeSim *t = mk_time(1e-12); std::unique_ptr<TimeSim> tg(t);
  SpecieP sp(0, "s", -1, 1, 10, 1e15, 1e15, 1, x.geo, t);
  int n = (int)g.range(1, g.chance(1, 15) ? 600 : 30); std::map<std::pair<long, long>, L> want; L tot = 0, wmax = 0;
  for (int q = 0; q < n; ++q)
  {
    bool core = x.a == 0 && g.chance(1, 10);
    double lr = core ? g.open(0.001, 0.5) : place(g, x.nr, x.a == 0 ? 0.5 : 0.), lz = place(g, x.nz, x.b == 0 ? 0.5 : 0.);
    double wt = g.decade(0, 9);
    Particle *p = mkp((x.a + lr) * x.dr, (x.b + lz) * x.dz, 0, 0, 0, wt); sp.particles.push_back(p);
    L R = (L)p->pos_r / x.dr, Z = (L)p->pos_z / x.dz; long i = (long)floorl(R), k = (long)floorl(Z); L fz = Z - k, f;
    if (p->pos_r <= x.dr / 2) f = (0.5L - R + R * R) / (2 * R * R + 0.5L); else f = frac(R, i);
    if (n <= 6) ctx.d << "; weight " << wt << " at " << (double)R << "," << (double)Z << " cells";
    want[{i - x.a, k - x.b}] += wt * f * (1 - fz); want[{i + 1 - x.a, k - x.b}] += wt * (1 - f) * (1 - fz);
    want[{i - x.a, k + 1 - x.b}] += wt * f * fz; want[{i + 1 - x.a, k + 1 - x.b}] += wt * (1 - f) * fz;
    tot += wt; wmax = std::max(wmax, (L)wt);
  }
  sp.density_map = 7.; sp.density_map.overlay_set(3.); // leftovers of an earlier call must not matter
  sp.calc_density(); sp.calc_density();
  L sum = 0;
  for (long i = -2; i <= x.nr + 1; ++i)
    for (long k = -2; k <= x.nz + 1; ++k)
    {
      L v = (L)sp.density_map(i, k) * PI_ * x.dr * x.dr * x.dz * (2 * (i + x.a) + 1); auto it = want.find({i, k}); L e = it == want.end() ? 0 : it->second;
      if (fabsl(v - e) > 1e-9L * fabsl(e) + 1e-9L * wmax)
        pbt::failf("cell %ld,%ld holds %.10Lg particles, the macroparticles put %.10Lg there", i, k, v, e);
      sum += v;
    }
  pbt::require_close((double)sum, (double)tot, 1e-9, 0, "density times volume does not add up to the particles");
  if (n >= 2) ctx.nontrivial(ctx.d.str());
}

// ---- current
namespace
{
  struct Move { L r0, z0, r1, z1; double q, vphi; }; // in cells
  double coord(Src &g, bool exact, long n, double lo)
  {
    if (exact && g.chance(1, 3)) return std::max(lo, (double)g.range(0, 8 * (n - 1) - 1) / 8.); // on edges, halves, eighths
    return place(g, n - 1, lo);
  }
  double delta(Src &g, bool exact)
  {
    int k = (int)g.range(0, 5);
    if (k == 0) return 0;
    if (exact && k == 1) return (double)g.range(-7, 7) / 8.;
    return g.sgn() * (k == 2 ? g.decade(-4, -1) : g.real(0.01, 0.98));
  }
  struct Cur
  {
    std::vector<SpecieP *> sp; TimeSim *t; std::vector<Move> mv;
    ~Cur() { for (auto s : sp) { for (auto p : s->particles) delete p; s->particles.clear(); delete s; } delete t; }
    Cur(Src &g, Ctx &ctx, Box &x, int maxp)
    {
      t = mk_time(g.decade(-14, -11));
      int ns = (int)g.range(1, g.chance(1, 4) ? 5 : 2);
      for (int i = 0; i < ns; ++i) sp.push_back(new SpecieP(i, "s", i ? 2 : -1, i ? 100 : 1, 10, 1e15, 1e15, 1, x.geo, t));
      int n = (int)g.range(1, g.chance(1, 15) ? 20 * maxp : maxp);
      for (int q = 0; q < n; ++q)
      {
        SpecieP *s = sp[g.draw(ns)];
        double lo = x.a == 0 ? 0.5 : 0., r1 = coord(g, x.pow2, x.nr, lo), z1 = coord(g, x.pow2, x.nz, x.b == 0 ? 0.5 : 0.);
        double dr_ = delta(g, x.pow2), dz_ = delta(g, x.pow2);
        double r0 = r1 - dr_, z0 = z1 - dz_;
        if (x.a == 0 && r0 < 0.5) { r0 = r1; }
        if (x.b == 0 && z0 < 0.5) { z0 = z1; }
        if (!x.pow2) { // keep clear of the rounding around a cell edge
          auto bad = [](double v) { return fabs(v - std::round(v)) < 1e-9; };
          if (bad(r0)) r0 += 1e-3; if (bad(z0)) z0 += 1e-3;
        }
        double pr1 = (x.a + r1) * x.dr, pz1 = (x.b + z1) * x.dz, pr0 = r0 == r1 ? pr1 : (x.a + r0) * x.dr, pz0 = z0 == z1 ? pz1 : (x.b + z0) * x.dz;
        double wt = g.decade(3, 6), vp = g.real(-1e8, 1e8);
        Particle *p = mkp(pr1, pz1, (pr1 - pr0) / t->step, vp, (pz1 - pz0) / t->step, wt);
        p->pos_old_r = pr0; p->pos_old_z = pz0;
        s->particles.push_back(p);
        mv.push_back({(L)pr0 / x.dr, (L)pz0 / x.dz, (L)pr1 / x.dr, (L)pz1 / x.dz, s->charge * wt, vp});
        if (n <= 4) ctx.d << "; " << (double)mv.back().r0 << "," << (double)mv.back().z0 << " -> " << (double)mv.back().r1 << "," << (double)mv.back().z1 << " cells";
      }
      for (auto s : sp) s->bind_cell_numbers();
    }
  };
  typedef std::map<std::pair<long, long>, L> M2;
  struct Ref { M2 jr, jz; }; // charge crossing each face, divided by dt
  // what a straight flight deposits: charge crossing faces, integrated along the path cell by cell
  void deposit(Ref &o, const Move &m, L dt)
  {
    std::vector<L> cuts = {0, 1};
    auto cut = [&](L a, L b) { if (a == b) return; for (long i = (long)floorl(std::min(a, b)); i <= (long)floorl(std::max(a, b)) + 1; ++i)
      { L s = ((L)i - a) / (b - a); if (s > 0 && s < 1) cuts.push_back(s); } };
    cut(m.r0, m.r1); cut(m.z0, m.z1); std::sort(cuts.begin(), cuts.end());
    static const L gx[5] = {0, 0.5384693101056830910363L, -0.5384693101056830910363L, 0.9061798459386639927976L, -0.9061798459386639927976L};
    static const L gw[5] = {0.5688888888888888888889L, 0.4786286704993664680413L, 0.4786286704993664680413L, 0.2369268850561890875143L, 0.2369268850561890875143L};
    for (size_t c = 0; c + 1 < cuts.size(); ++c)
      for (int sub = 0; sub < 4; ++sub)
      {
        L sa = cuts[c] + (cuts[c + 1] - cuts[c]) * sub / 4, sb = cuts[c] + (cuts[c + 1] - cuts[c]) * (sub + 1) / 4, h = (sb - sa) / 2;
        if (h <= 0) continue;
        L sm = (cuts[c] + cuts[c + 1]) / 2;
        long i = (long)floorl(m.r0 + (m.r1 - m.r0) * sm), k = (long)floorl(m.z0 + (m.z1 - m.z0) * sm);
        for (int q = 0; q < 5; ++q)
        {
          L s = sa + h * (1 + gx[q]), R = m.r0 + (m.r1 - m.r0) * s, Z = m.z0 + (m.z1 - m.z0) * s, wq = gw[q] * h * m.q / dt;
          L f = frac(R, i), fz = Z - k, df = -((i + 0.5L) * (i + 0.5L) - 0.25L) / (2 * R * R) - 0.5L; // d frac / dR
          o.jz[{i, k}] += wq * f * (m.z1 - m.z0); o.jz[{i + 1, k}] += wq * (1 - f) * (m.z1 - m.z0);
          o.jr[{i, k}] += -wq * df * (m.r1 - m.r0) * (1 - fz); o.jr[{i, k + 1}] += -wq * df * (m.r1 - m.r0) * fz;
        }
      }
  }
}
PBT_PROP(vb_current, "1..12 particles flying less than a cell (incl. purely radial, purely axial, resting, through exact edges and corners); "
                     "non-trivial: some particle crosses a cell edge")
{
  Box x(g, ctx, true); Cur c(g, ctx, x, 12);
  CurrentVB cur(x.geo, c.t, c.sp);
  long e0 = vshim::n_error; cur.current_distribution();
  if (vshim::n_error != e0) pbt::fail("a flight of less than a cell was refused: " + vshim::last_error);
  Ref o; bool crosses = false; L scale = 0;
  for (auto &m : c.mv)
  {
    deposit(o, m, c.t->step); scale += fabsl(m.q) / c.t->step;
    if (floorl(m.r0) != floorl(m.r1) || floorl(m.z0) != floorl(m.z1)) crosses = true;
  }
  auto q = [&](const Move &m, bool end, long i, long k) { // charge of node i,k
    L R = end ? m.r1 : m.r0, Z = end ? m.z1 : m.z0; long a = (long)floorl(R), b = (long)floorl(Z);
    if (i < a || i > a + 1 || k < b || k > b + 1) return (L)0;
    L f = frac(R, a), fz = Z - b; return m.q * (i == a ? f : 1 - f) * (k == b ? 1 - fz : fz); };
  L tol = 1e-6L * scale;
  auto Jr = [&](long i, long k) -> L { if (i < x.a - 2 || k < x.b - 2 || i > x.a + x.nr + 1 || k > x.b + x.nz + 1) return 0; return cur.current[0](i - x.a, k - x.b) * 2 * PI_ * (i + 0.5L) * x.dr * x.dz; };
  auto Jz = [&](long i, long k) -> L { if (i < x.a - 2 || k < x.b - 2 || i > x.a + x.nr + 1 || k > x.b + x.nz + 1) return 0; L A = i == 0 ? 0.25L * PI_ * x.dr * x.dr : 2 * PI_ * i * (L)x.dr * x.dr; return cur.current[2](i - x.a, k - x.b) * A; };
  for (long i = x.a - 2; i <= x.a + x.nr + 1; ++i)
    for (long k = x.b - 2; k <= x.b + x.nz + 1; ++k)
    {
      if (i < 0)
      {
        if (cur.current[0](i - x.a, k - x.b) != 0 || cur.current[2](i - x.a, k - x.b) != 0) pbt::failf("current is put below the axis, at node %ld,%ld", i, k);
        continue;
      }
      // continuity: the charge of each node changes by what flows in
      L dq = 0; for (auto &m : c.mv) dq += (q(m, true, i, k) - q(m, false, i, k)) / c.t->step;
      L div = Jr(i, k) - (i > 0 ? Jr(i - 1, k) : 0) + Jz(i, k) - Jz(i, k - 1);
      if (!(fabsl(dq + div) <= tol))
        pbt::failf("charge is not conserved at node %ld,%ld: it gains %.10Lg C/s while currents carry out %.10Lg C/s", i, k, dq, div);
      auto a = o.jr.find({i, k}), b = o.jz.find({i, k});
      L ea = a == o.jr.end() ? 0 : a->second, eb = b == o.jz.end() ? 0 : b->second;
      if (!(fabsl(Jr(i, k) - ea) <= tol)) pbt::failf("radial current at node %ld,%ld carries %.10Lg C/s, the flight carries %.10Lg", i, k, Jr(i, k), ea);
      if (!(fabsl(Jz(i, k) - eb) <= tol)) pbt::failf("axial current at node %ld,%ld carries %.10Lg C/s, the flight carries %.10Lg", i, k, Jz(i, k), eb);
    }
  // azimuthal: density of q*v_phi over the cells around the flight
  L tot = 0, want = 0, sc = 0; M2 ej; bool all_same = true;
  for (auto &m : c.mv)
  {
    want += m.q * m.vphi; sc += fabsl(m.q * m.vphi);
    L R = (m.r0 + m.r1) / 2, Z = (m.z0 + m.z1) / 2; long i = (long)floorl(m.r1), k = (long)floorl(m.z1);
    // particles of a cell are spread from that cell; a midpoint in another cell is extrapolated, only the total is pinned
    if ((long)floorl(R) != i || (long)floorl(Z) != k || fabsl(m.r1 - roundl(m.r1)) < 1e-12L || fabsl(m.z1 - roundl(m.z1)) < 1e-12L) all_same = false;
    L f = frac(R, i), fz = Z - k, v = m.q * m.vphi;
    ej[{i, k}] += v * f * (1 - fz); ej[{i + 1, k}] += v * (1 - f) * (1 - fz); ej[{i, k + 1}] += v * f * fz; ej[{i + 1, k + 1}] += v * (1 - f) * fz;
  }
  for (long i = x.a - 2; i <= x.a + x.nr + 1; ++i)
    for (long k = x.b - 2; k <= x.b + x.nz + 1; ++k)
    {
      L v = (L)cur.current[1](i - x.a, k - x.b) * PI_ * x.dr * x.dr * x.dz * (2 * i + 1); tot += v;
      if (all_same)
      {
        auto it = ej.find({i, k}); L e = it == ej.end() ? 0 : it->second;
        if (!(fabsl(v - e) <= 1e-9L * sc)) pbt::failf("azimuthal current at node %ld,%ld is %.10Lg A m, the particles carry %.10Lg", i, k, v, e);
      }
    }
  if (!(fabsl(tot - want) <= 1e-9L * sc)) pbt::failf("azimuthal current adds up to %.10Lg A m, the particles carry %.10Lg", tot, want);
  if (crosses) ctx.nontrivial(ctx.d.str());
}

PBT_PROP(vb_far, "one particle that jumped two or more cells in r or z, among others that did not; non-trivial: every case")
{
  Box x(g, ctx); Cur c(g, ctx, x, 3);
  // replace the first particle's past
  Particle *p = nullptr; for (auto s : c.sp) if (!p && s->particles.size()) p = s->particles[0];
  bool inr = g.flip(); double far = g.real(2.01, 6.5);
  if (inr) p->pos_old_r = p->pos_r + far * x.dr * (p->pos_r - far * x.dr > x.dr ? g.sgn() : 1);
  else p->pos_old_z = p->pos_z + far * x.dz;
  ctx.d << "; jump of " << far << " cells in " << (inr ? "r" : "z");
  CurrentVB cur(x.geo, c.t, c.sp);
  long e0 = vshim::n_error; cur.current_distribution();
  if (vshim::n_error == e0) pbt::fail("a particle that moved over more than one cell was not reported");
  ctx.nontrivial(ctx.d.str());
}

PBT_PROP(zigzag_current, "1..8 particles flying less than a cell, ZigZag scheme; non-trivial: some particle crosses a cell edge")
{
  Box x(g, ctx); Cur c(g, ctx, x, 8);
  CurrentZigZag cur(x.geo, c.t, c.sp);
  cur.current_distribution();
  M2 sr, sp_, sz; bool crosses = false; L sc = 0, scp = 0;
  for (auto s : c.sp)
    for (auto p : s->particles)
    {
      SpecieP one(0, "one", 1, 1, 1, 1, 1, 1, x.geo, c.t); one.charge = s->charge; one.mass = s->mass; one.particles.push_back(p);
      CurrentZigZag cc(x.geo, c.t, {&one}); cc.current_distribution(); one.particles.clear();
      L R0 = (L)p->pos_old_r / x.dr, R1 = (L)p->pos_r / x.dr, Z0 = (L)p->pos_old_z / x.dz, Z1 = (L)p->pos_z / x.dz;
      if (floorl(R0) != floorl(R1) || floorl(Z0) != floorl(Z1)) crosses = true;
      L im = floorl((R0 + R1) / 2), V = PI_ * x.dr * x.dr * x.dz * (2 * im + 1), q = s->charge * p->weight, tp = 0;
      bool edge = fabsl((R0 + R1) / 2 - roundl((R0 + R1) / 2)) < 1e-9L; // the volume is ambiguous there
      for (long i = x.a - 2; i <= x.a + x.nr + 1; ++i)
        for (long k = x.b - 2; k <= x.b + x.nz + 1; ++k)
        {
          auto J = [&](int cmp, long a, long b) -> L { if (a < x.a - 2 || b < x.b - 2) return 0; return cc.current[cmp](a - x.a, b - x.b); };
          sr[{i, k}] += J(0, i, k); sp_[{i, k}] += J(1, i, k); sz[{i, k}] += J(2, i, k); tp += J(1, i, k) * V;
          auto S = [&](L R, L Z) -> L { L u = 1 - fabsl(R - i), v = 1 - fabsl(Z - k); return u > 0 && v > 0 ? u * v : 0; };
          L dq = q * (S(R1, Z1) - S(R0, Z0)) / c.t->step;
          L div = V * ((J(0, i, k) - J(0, i - 1, k)) / x.dr + (J(2, i, k) - J(2, i, k - 1)) / x.dz);
          if (!edge && fabsl(dq + div) > 1e-8L * fabsl(q) / c.t->step)
            pbt::failf("ZigZag: charge is not conserved at node %ld,%ld: gains %.10Lg C/s, currents carry out %.10Lg", i, k, dq, div);
        }
      if (!edge && fabsl(tp - q * p->vel_phi) > 1e-9L * fabsl(q * p->vel_phi) + 1e-9L * fabsl(q)) pbt::failf("ZigZag: azimuthal current adds up to %Lg, the particle carries %Lg", tp, q * p->vel_phi);
      sc += fabsl(q) / c.t->step * std::max(x.dr, x.dz) / V; scp += fabsl(q * p->vel_phi) / V;
    }
  for (long i = x.a - 2; i <= x.a + x.nr + 1; ++i)
    for (long k = x.b - 2; k <= x.b + x.nz + 1; ++k)
    {
      L d0 = fabsl(cur.current[0](i - x.a, k - x.b) - sr[{i, k}]), d1 = fabsl(cur.current[1](i - x.a, k - x.b) - sp_[{i, k}]), d2 = fabsl(cur.current[2](i - x.a, k - x.b) - sz[{i, k}]);
      if (!(d0 <= 1e-10L * sc && d2 <= 1e-10L * sc && d1 <= 1e-10L * scp)) pbt::failf("ZigZag: the current of several particles is not the sum of theirs at node %ld,%ld", i, k);
    }
  if (crosses) ctx.nontrivial(ctx.d.str());
}
PBT_MAIN
