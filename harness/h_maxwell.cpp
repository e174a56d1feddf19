// Field solver: one domain against an independent integral-form reference.
#include "world.hpp"
#include "maxwellSolver/maxwellSolverYee.hpp"
#include "current/currentVB.hpp"
using namespace world;
typedef long double L;

namespace
{
  struct F3 // three components with two guard cells
  {
    long nr, nz; std::vector<L> v[3];
    F3(long r, long z) : nr(r), nz(z) { for (auto &x : v) x.assign((r + 4) * (z + 4), 0); }
    L &at(int c, long i, long k) { return v[c][(i + 2) * (nz + 4) + k + 2]; }
  };
  struct Setup
  {
    long nr, nz, a, b, NR, NZ; double dr, dz; bool w[4]; long pl, po, prt; double s1, s2; std::unique_ptr<Geometry> geo; std::unique_ptr<TimeSim> t;
    Setup(Src &g, Ctx &ctx)
    {
      nr = g.range(4, 12); nz = g.range(4, 12); if (g.chance(1, 25)) (g.flip() ? nr : nz) = g.range(13, 70);
      a = g.flip() ? 0 : nr * g.range(1, 5); b = g.flip() ? 0 : nz * g.range(1, 5); if (g.chance(1, 12)) { if (g.flip()) a = nr * g.range(6, 100); else b = nz * g.range(6, 100); }
      long ar = g.flip() ? 0 : nr * g.range(1, 4), az = g.flip() ? 0 : nz * g.range(1, 4);
      NR = a + nr + ar; NZ = b + nz + az;
      dr = g.decade(-4, -2); dz = g.decade(-4, -2);
      w[0] = a == 0; w[1] = b == 0; w[2] = ar == 0; w[3] = az == 0;
      t.reset(mk_time(std::min(dr, dz) / C0 * g.real(0.05, 0.7)));
      pl = g.flip() ? 0 : g.range(1, NZ / 2 + 1); prt = g.flip() ? 0 : g.range(1, NZ / 2 + 1); po = g.flip() ? 0 : g.range(1, NR / 2 + 1);
      s1 = g.flip() ? 1e-5 : g.decade(-6, -2); s2 = g.real(0.01, 8);
      geo.reset(new Geometry({nr * dr, nz * dz}, {NR * dr, NZ * dz}, {(size_t)a, (size_t)b, (size_t)(a + nr), (size_t)(b + nz)},
                             {0, (size_t)pl, (size_t)po, (size_t)prt}, {s1, s2}, {w[0], w[1], w[2], w[3]}));
      dr = geo->cell_size[0]; dz = geo->cell_size[1];
      ctx.d << nr << "x" << nz << " cells at " << a << "," << b << " of " << NR << "x" << NZ << ", walls " << w[0] << w[1] << w[2] << w[3]
            << ", absorbing cells left " << pl << " right " << prt << " outer " << po << ", sigma " << s1 << ".." << s2 << ", dt " << t->step;
    }
    // conductivity of the absorbing layers at a node; lo/hi: the first layer of a far wall may or may not belong to it
    void sigma(long i, long k, L &lo, L &hi) const
    {
      lo = hi = 0;
#ifdef ENABLE_PML
      L ds = (L)s2 - s1; long I = i + a, K = k + b;
      auto add = [&](long depth, long n) { L x = (L)depth / n, s = s1 + ds * x * x; lo += s; hi += s; };
      auto maybe = [&](long depth, long n) { L x = (L)depth / n; hi += s1 + ds * x * x; };
      if (pl && K < pl) add(pl - K, pl);
      if (po) { if (NR - I < po) add(po - (NR - I) + 1, po); else if (NR - I == po) maybe(1, po); }
      if (prt) { if (NZ - K < prt) add(prt - (NZ - K) + 1, prt); else if (NZ - K == prt) maybe(1, prt); }
#endif
    }
    bool e_updated(int c, long i, long k) const
    {
      bool far = (w[2] && i == nr - 1) || (w[3] && k == nz - 1), left = w[1] && k == 0, axis = w[0] && i == 0;
      if (far) return false;
      if (c == 2) return true;
      if (left) return false;
      return c == 0 || !axis;
    }
  };
}

PBT_PROP(yee, "a domain anywhere in the area (any set of walls, absorbing layers, cell sizes), random fields, guard cells and currents, "
              "1..5 time steps; non-trivial: two or more steps or an absorbing layer reaches the domain")
{
  Setup s(g, ctx);
  long nr = s.nr, nz = s.nz; L dr = s.dr, dz = s.dz, dt = s.t->step;
  // measure the conductivity: E=1, no currents
  F3 sig(nr, nz); bool lossy = false;
  {
    CurrentVB cur(s.geo.get(), s.t.get(), {}); cur.current = 0.; cur.current.overlay_set(0.);
    MaxwellSolverYee m(s.geo.get(), s.t.get(), &cur);
    m.field_e = 1.; m.calc_field_e();
    for (int c = 0; c < 3; ++c)
      for (long i = 0; i < nr; ++i)
        for (long k = 0; k < nz; ++k)
        {
          double v = m.field_e(c, i, k);
          if (!s.e_updated(c, i, k)) { if (v != 1) pbt::failf("electric component %d at wall node %ld,%ld changes", c, i, k); continue; }
          L lo, hi; s.sigma(i, k, lo, hi);
          L got = 2 * (L)EPS * (1 - (L)v) / (1 + (L)v) / dt, tol = 1e-6L * hi + 1e-12L * EPS / dt * 100;
          if (!(fabsl(got - lo) <= tol || fabsl(got - hi) <= tol || (hi > lo && got >= lo - tol && got <= hi + tol)))
            pbt::failf("conductivity seen by electric component %d at node %ld,%ld is %.8Lg, expected %.8Lg", c, i, k, got, lo);
          if (v < -1 || v > 1) pbt::failf("the absorbing layer amplifies the field at node %ld,%ld", i, k);
          sig.at(c, i, k) = got < tol ? 0 : got; if (lo > 0) lossy = true;
        }
  }
  CurrentVB cur(s.geo.get(), s.t.get(), {}); cur.current = 0.; cur.current.overlay_set(0.);
  MaxwellSolverYee m(s.geo.get(), s.t.get(), &cur);
  F3 E(nr, nz), H(nr, nz), J(nr, nz), Ha(nr, nz);
  double ea = g.decade(0, 6), ha = ea / 377, ja = g.decade(-3, 4);
  int dens = (int)g.range(1, 4);
  for (int c = 0; c < 3; ++c)
    for (long i = 0; i < nr; ++i)
      for (long k = 0; k < nz; ++k)
      {
        if (s.e_updated(c, i, k) && (int)g.draw(4) < dens) { double v = g.real(-ea, ea); m.field_e[c].set(i, k, v); E.at(c, i, k) = v; }
        if ((int)g.draw(4) < dens) { double v = g.real(-ha, ha); m.field_h_at_et[c].set(i, k, v); H.at(c, i, k) = v; }
      }
  int steps = (int)g.range(1, 5);
  auto ghosts = [&](Grid3D<double> &grid, F3 &f, double amp)
  {
    for (int c = 0; c < 3; ++c)
      for (long i = -2; i < nr + 2; ++i)
        for (long k = -2; k < nz + 2; ++k)
        {
          if (i >= 0 && i < nr && k >= 0 && k < nz) continue;
          bool beyond = (s.w[0] && i < 0) || (s.w[1] && k < 0) || (s.w[2] && i >= nr - 1) || (s.w[3] && k >= nz - 1);
          double v = beyond ? 0 : g.chance(1, 2) ? g.real(-amp, amp) : 0; f.at(c, i, k) = v; grid[c].set(i, k, v);
        }
  };
  ghosts(m.field_h_at_et, H, ha);
  for (int st = 0; st < steps; ++st)
  {
    L em = 0, hm = 0, jm = 0;
    for (int c = 0; c < 3; ++c)
      for (long i = 0; i < nr; ++i)
        for (long k = 0; k < nz; ++k)
        {
          double v = (int)g.draw(4) < dens ? g.real(-ja, ja) : 0; J.at(c, i, k) = v; cur.current[c].set(i, k, v);
          em = std::max(em, fabsl(E.at(c, i, k))); jm = std::max(jm, fabsl((L)v));
        }
    for (int c = 0; c < 3; ++c) for (auto v : H.v[c]) hm = std::max(hm, fabsl(v));
    // Ampere: charge and magnetic circulation through each node's face
    F3 En = E;
    for (int c = 0; c < 3; ++c) for (long i = -2; i < nr + 2; ++i) for (long k = -2; k < nz + 2; ++k)
    {
      if (i < 0 || k < 0 || i >= nr || k >= nz) { En.at(c, i, k) = 0; continue; }
      if (!s.e_updated(c, i, k)) continue;
      L curl, R = i + s.a;
      if (c == 0) curl = -(H.at(1, i, k) - H.at(1, i, k - 1)) / dz;
      else if (c == 1) curl = (H.at(0, i, k) - H.at(0, i, k - 1)) / dz - (H.at(2, i, k) - H.at(2, i - 1, k)) / dr;
      else if (R == 0) curl = 4 * H.at(1, i, k) / dr;
      else curl = ((R + 0.5L) * H.at(1, i, k) - (R - 0.5L) * H.at(1, i - 1, k)) / (R * dr);
      L sg = sig.at(c, i, k) * dt / (2 * (L)EPS);
      En.at(c, i, k) = ((1 - sg) * E.at(c, i, k) + dt / (L)EPS * (curl - J.at(c, i, k))) / (1 + sg);
    }
    L tolE = 1e-9L * (em + dt / (L)EPS * (jm + hm * 10 / std::min(dr, dz)));
    m.calc_field_e();
    for (int c = 0; c < 3; ++c) for (long i = 0; i < nr; ++i) for (long k = 0; k < nz; ++k)
      if (!(fabsl(m.field_e(c, i, k) - En.at(c, i, k)) <= tolE))
        pbt::failf("step %d: electric component %d at node %ld,%ld is %.10g, Ampere's law gives %.10Lg", st, c, i, k, m.field_e(c, i, k), En.at(c, i, k));
    E = En; ghosts(m.field_e, E, ea); em = 0;
    for (int c = 0; c < 3; ++c) for (auto v : E.v[c]) em = std::max(em, fabsl(v));
    // Faraday
    F3 Hn = H;
    for (int c = 0; c < 3; ++c) for (long i = 0; i < nr; ++i) for (long k = 0; k < nz; ++k)
    {
      L R = i + s.a, curl;
      if (c == 0) curl = -(E.at(1, i, k + 1) - E.at(1, i, k)) / dz;
      else if (c == 1) curl = (E.at(0, i, k + 1) - E.at(0, i, k)) / dz - (E.at(2, i + 1, k) - E.at(2, i, k)) / dr;
      else curl = ((R + 1) * E.at(1, i + 1, k) - R * E.at(1, i, k)) / ((R + 0.5L) * dr);
      Hn.at(c, i, k) = H.at(c, i, k) - dt / (L)MU * curl;
      Ha.at(c, i, k) = H.at(c, i, k) - dt / (L)MU * curl / 2;
    }
    L tolH = 1e-9L * (hm + dt / (L)MU * em * 10 / std::min(dr, dz));
    m.calc_field_h();
    for (int c = 0; c < 3; ++c) for (long i = 0; i < nr; ++i) for (long k = 0; k < nz; ++k)
    {
      if (!(fabsl(m.field_h(c, i, k) - Ha.at(c, i, k)) <= tolH))
        pbt::failf("step %d: magnetic component %d at node %ld,%ld is %.10g, Faraday's law gives %.10Lg", st, c, i, k, m.field_h(c, i, k), Ha.at(c, i, k));
      if (!(fabsl(m.field_h_at_et(c, i, k) - Hn.at(c, i, k)) <= tolH))
        pbt::failf("step %d: half-step magnetic component %d at node %ld,%ld is %.10g, Faraday's law gives %.10Lg", st, c, i, k, m.field_h_at_et(c, i, k), Hn.at(c, i, k));
    }
    H = Hn;
    for (int c = 0; c < 3; ++c) for (long i = -2; i < nr + 2; ++i) for (long k = -2; k < nz + 2; ++k)
      if (i < 0 || k < 0 || i >= nr || k >= nz)
      {
        if (m.field_h(c, i, k) != 0 || m.field_h_at_et(c, i, k) != 0) pbt::failf("guard cell %ld,%ld holds a stale magnetic field", i, k);
      }
    ghosts(m.field_h_at_et, H, ha);
  }
  if (steps > 1 || lossy) ctx.nontrivial(ctx.d.str());
}
PBT_MAIN
