// Grid / Grid3D as a mutable array with a ghost frame, against a plain array model; stitching of
// neighbouring domains.
#include "world.hpp"
using namespace world;

namespace
{
  struct Model // full array with ghosts
  {
    int nx, ny, os; std::vector<double> a;
    Model(int x, int y, int o) : nx(x), ny(y), os(o), a((x + 2 * o) * (y + 2 * o), 0.) {}
    double &at(int i, int j) { return a[(i + os) * (ny + 2 * os) + j + os]; } // i in [-os, nx+os)
    bool inner(int i, int j) const { return i >= 0 && i < nx && j >= 0 && j < ny; }
  };
  double val(Src &g) { return (double)g.range(-4, 12) + (g.chance(1, 3) ? g.unit() : 0.); }
}

PBT_PROP(grid_model, "history of 1..40 operations on 1..3 Grid<double> objects of equal size; non-trivial: at least one "
                     "whole-grid, one ghost and one element operation ran before the final comparison")
{
  int os = (int)g.range(0, 3), nx = (int)g.range(1, 9), ny = (int)g.range(1, 9);
  int n = (int)g.range(1, 3);
  std::vector<Grid<double>> G; std::vector<Model> M;
  for (int k = 0; k < n; ++k)
  {
    G.emplace_back(nx, ny, os); M.emplace_back(nx, ny, os);
    double v = val(g); G[k] = v;
    for (int i = 0; i < nx; ++i) for (int j = 0; j < ny; ++j) M[k].at(i, j) = v;
    double w = val(g); G[k].overlay_set(w);
    for (int i = -os; i < nx + os; ++i) for (int j = -os; j < ny + os; ++j) if (!M[k].inner(i, j)) M[k].at(i, j) = w;
  }
  auto check = [&](const char *when)
  {
    for (int k = 0; k < n; ++k)
      for (int i = -os; i < nx + os; ++i)
        for (int j = -os; j < ny + os; ++j)
          if (!pbt::close(G[k]((unsigned)i, (unsigned)j), M[k].at(i, j), 1e-12, 0))
            pbt::failf("%s: grid %d element (%d,%d) of %dx%d (+%d ghosts) is %.17g, model says %.17g", when, k, i, j, nx, ny, os,
                       G[k]((unsigned)i, (unsigned)j), M[k].at(i, j));
  };
  ctx.d << "grid " << nx << "x" << ny << " ghosts " << os << " x" << n << " ops:";
  int steps = (int)g.range(1, 40); bool whole = false, ghost = false, elem = false;
  for (int s = 0; s < steps; ++s)
  {
    int k = (int)g.range(0, n - 1), op = (int)g.range(0, 12);
    int i = (int)g.range(-os, nx + os - 1), j = (int)g.range(-os, ny + os - 1);
    double v = val(g);
    if ((op == 3 || op == 9) && v == 0) v = 2;
    ctx.d << " " << op << "(" << k << "," << i << "," << j << "," << v << ")";
    switch (op)
    {
    case 0: G[k].set(i, j, v); M[k].at(i, j) = v; elem = true; break;
    case 1: G[k].inc(i, j, v); M[k].at(i, j) += v; elem = true; break;
    case 2: G[k].dec(i, j, v); M[k].at(i, j) -= v; elem = true; break;
    case 3: G[k].d_a(i, j, v); M[k].at(i, j) /= v; elem = true; break;
    case 4: G[k].m_a(i, j, v); M[k].at(i, j) *= v; elem = true; break;
    case 5: case 6: case 7: case 8: case 9:
      if (op == 5) G[k] = v; else if (op == 6) G[k] += v; else if (op == 7) G[k] -= v; else if (op == 8) G[k] *= v; else G[k] /= v;
      for (int a = 0; a < nx; ++a) for (int b = 0; b < ny; ++b)
      { double &m = M[k].at(a, b); m = op == 5 ? v : op == 6 ? m + v : op == 7 ? m - v : op == 8 ? m * v : m / v; }
      whole = true; break;
    case 10:
      G[k].overlay_set(v);
      for (int a = -os; a < nx + os; ++a) for (int b = -os; b < ny + os; ++b) if (!M[k].inner(a, b)) M[k].at(a, b) = v;
      ghost = true; break;
    case 11: { int q = (int)g.range(0, n - 1); G[k].copy(G[q]); M[k].a = M[q].a; break; }
    case 12:
    {
      double **e = G[k]();
      for (int a = 0; a < nx; ++a) for (int b = 0; b < ny; ++b)
        if (e[a][b] != G[k](a, b)) pbt::failf("export of the grid differs from its elements at (%d,%d)", a, b);
      for (int a = 0; a < nx; ++a) delete[] e[a];
      delete[] e; break;
    }
    }
    check("after an operation");
  }
  if (whole && ghost && elem) ctx.nontrivial(ctx.d.str());
  // size mismatch is refused
  Grid<double> other(nx + 1, ny + 1, os);
  bool refused = false;
  try { G[0].copy(other); } catch (vshim::Fatal &) { refused = true; }
  pbt::require(refused, "copy between grids of different sizes was not refused");
  // the three components of a Grid3D are independent
  Grid3D<double> t(nx, ny, os); t = 0.; t.overlay_set(0.);
  double a = val(g), b = val(g), c = val(g); int i = (int)g.range(0, nx - 1), j = (int)g.range(0, ny - 1);
  t[0].set(i, j, a); t[1].set(i, j, b); t[2].set(i, j, c);
  pbt::require(t(0, i, j) == a && t(1, i, j) == b && t(2, i, j) == c && t.r_component(i, j) == a && t.phi_component(i, j) == b
               && t.z_component(i, j) == c, "components of a Grid3D are not independent or not addressed in r, phi, z order");
  t = a;
  for (int q = 0; q < 3; ++q) pbt::require(t(q, i, j) == a, "whole-grid assignment of a Grid3D misses a component");
}

namespace
{
  // what a pair of neighbours must hold after stitching: every shared cell is the sum of both copies
  void pair_case(Src &g, Ctx &ctx, int dir)
  {
    int os = (int)g.range(1, 3), nx = (int)g.range(2 * os, 12), ny = (int)g.range(2 * os, 12);
    Grid<double> A(nx, ny, os), B(nx, ny, os); Model ma(nx, ny, os), mb(nx, ny, os);
    for (int i = -os; i < nx + os; ++i) for (int j = -os; j < ny + os; ++j)
    {
      double a = (double)g.range(0, 1000), b = (double)g.range(0, 1000);
      A.set(i, j, a); ma.at(i, j) = a; B.set(i, j, b); mb.at(i, j) = b;
    }
    Model ea = ma, eb = mb; int shared = 0;
    // global coordinates: B is displaced by (nx,0), (0,ny) or (nx,ny)
    int ox = dir == 1 ? 0 : nx, oy = dir == 0 ? 0 : ny;
    for (int i = -os; i < nx + os; ++i) for (int j = -os; j < ny + os; ++j)
    {
      int bi = i - ox, bj = j - oy;
      if (bi < -os || bi >= nx + os || bj < -os || bj >= ny + os) continue;
      // the frame of the transverse direction is left to the transverse neighbours
      if (dir == 0 && (j < 0 || j >= ny)) continue;
      if (dir == 1 && (i < 0 || i >= nx)) continue;
      // diagonal: both corners are exchanged where each cell is interior to one of the two
      if (dir == 2 && !(ma.inner(i, j) || mb.inner(bi, bj))) continue;
      double s = ma.at(i, j) + mb.at(bi, bj); ea.at(i, j) = s; eb.at(bi, bj) = s; ++shared;
    }
    if (dir == 0) A.overlay_x(B); else if (dir == 1) A.overlay_y(B); else A.overlay_xy(B);
    ctx.d << (dir == 0 ? "r" : dir == 1 ? "z" : "diagonal") << "-stitch of two " << nx << "x" << ny << " grids, ghosts " << os;
    for (int i = -os; i < nx + os; ++i) for (int j = -os; j < ny + os; ++j)
    {
      if (A(i, j) != ea.at(i, j)) pbt::failf("first grid (%d,%d) is %g after stitching, expected %g", i, j, A(i, j), ea.at(i, j));
      if (B(i, j) != eb.at(i, j)) pbt::failf("second grid (%d,%d) is %g after stitching, expected %g", i, j, B(i, j), eb.at(i, j));
    }
    if (shared >= 2) ctx.nontrivial(ctx.d.str() + std::to_string(A(0, 0)) + std::to_string(B(0, 0)) + std::to_string(A(nx - 1, ny - 1)));
  }
}
PBT_PROP(stitch_pair, "two neighbouring grids with random integer contents incl. ghosts, r/z/diagonal neighbour; non-trivial: >=2 shared cells")
{ pair_case(g, ctx, (int)g.range(0, 2)); }

namespace
{
  typedef std::function<Grid3D<double> &(Domain *)> Sel;
  struct Blk { Cfg *cfg; SMB *smb; World w; long cr, cz; };
  Blk mk(Src &g, Ctx &ctx)
  {
    Blk b; b.w = gen_grid(g, 4, 4, 4, 9);
    b.cfg = make_cfg(b.w);
    b.smb = new SMB(b.cfg, b.cfg->geometry, b.cfg->time, 0, 1);
    b.cr = b.w.nr / b.w.dr_n; b.cz = b.w.nz / b.w.dz_n;
    ctx.d << show(b.w);
    return b;
  }
  double h3(long a, long b, long c, long d, long e, uint64_t s) { return (double)(pbt::mix(pbt::mix(a * 131 + b, c * 137 + d), e * 139 + s) % 1000); }
}

// currents: every interior cell ends as the sum of all deposits made for that cell by any domain
PBT_PROP(stitch_current, "1..4 x 1..4 domains, random deposits in all cells incl. ghosts of every domain; non-trivial: more than one domain")
{
  Blk b = mk(g, ctx); uint64_t seed = g.seed64(); int sparse = (int)g.range(1, 6); const int os = 2;
  auto put = [&](long I, long J, int i, int j, int c) -> double
  {
    // nothing is ever deposited outside of the global grid's frame shared with a neighbour
    long gi = I * b.cr + i, gj = J * b.cz + j;
    if (gi < 0 || gj < 0 || gi >= b.w.nr || gj >= b.w.nz) return 0.;
    double v = h3(I, J, i, j, c, seed); return ((long)v % sparse) ? 0. : v;
  };
  std::vector<std::vector<double>> sum(3, std::vector<double>(b.w.nr * b.w.nz, 0.));
  for (long I = 0; I < b.w.dr_n; ++I) for (long J = 0; J < b.w.dz_n; ++J)
    for (int c = 0; c < 3; ++c)
      for (int i = -os; i < b.cr + os; ++i) for (int j = -os; j < b.cz + os; ++j)
      {
        double v = put(I, J, i, j, c);
        b.smb->domains(I, J)->current->current[c].set(i, j, v);
        long gi = I * b.cr + i, gj = J * b.cz + j;
        if (gi >= 0 && gj >= 0 && gi < b.w.nr && gj < b.w.nz) sum[c][gi * b.w.nz + gj] += v;
      }
  b.smb->current_overlay();
  for (long I = 0; I < b.w.dr_n; ++I) for (long J = 0; J < b.w.dz_n; ++J)
    for (int c = 0; c < 3; ++c)
      for (int i = 0; i < b.cr; ++i) for (int j = 0; j < b.cz; ++j)
      {
        double got = b.smb->domains(I, J)->current->current[c](i, j), want = sum[c][(I * b.cr + i) * b.w.nz + J * b.cz + j];
        if (got != want)
          pbt::failf("current component %d of domain (%ld,%ld) cell (%d,%d) is %g, all domains together deposited %g", c, I, J, i, j, got, want);
      }
  if (b.w.dr_n * b.w.dz_n > 1) ctx.nontrivial(ctx.d.str() + std::to_string(seed));
}

// fields: every ghost cell ends as the owner's value
PBT_PROP(stitch_fields, "1..4 x 1..4 domains, random E and H in interiors, empty ghosts; non-trivial: more than one domain")
{
  Blk b = mk(g, ctx); uint64_t seed = g.seed64(); const int os = 2;
  std::vector<Sel> sel = {
    [](Domain *d) -> Grid3D<double> & { return d->maxwell_solver->field_e; },
    [](Domain *d) -> Grid3D<double> & { return d->maxwell_solver->field_h; },
    [](Domain *d) -> Grid3D<double> & { return d->maxwell_solver->field_h_at_et; }};
  auto gv = [&](long gi, long gj, int c, int f) { return 1. + h3(gi, gj, c, f, 7, seed); };
  for (long I = 0; I < b.w.dr_n; ++I) for (long J = 0; J < b.w.dz_n; ++J) for (size_t f = 0; f < sel.size(); ++f)
    for (int c = 0; c < 3; ++c)
    {
      Grid3D<double> &G = sel[f](b.smb->domains(I, J));
      G[c].overlay_set(0.);
      for (int i = 0; i < b.cr; ++i) for (int j = 0; j < b.cz; ++j) G[c].set(i, j, gv(I * b.cr + i, J * b.cz + j, c, (int)f));
    }
  b.smb->field_e_overlay();
  b.smb->field_h_overlay();
  for (long I = 0; I < b.w.dr_n; ++I) for (long J = 0; J < b.w.dz_n; ++J) for (size_t f = 0; f < sel.size(); ++f)
    for (int c = 0; c < 3; ++c)
    {
      Grid3D<double> &G = sel[f](b.smb->domains(I, J));
      for (int i = -os; i < b.cr + os; ++i) for (int j = -os; j < b.cz + os; ++j)
      {
        long gi = I * b.cr + i, gj = J * b.cz + j;
        if (gi < 0 || gj < 0 || gi >= b.w.nr || gj >= b.w.nz) continue;
        double want = gv(gi, gj, c, (int)f);
        if (G[c](i, j) != want)
          pbt::failf("field %d component %d: domain (%ld,%ld) sees %g at its cell (%d,%d), the owner of that cell holds %g", (int)f, c, I, J, G[c](i, j), i, j, want);
      }
    }
  if (b.w.dr_n * b.w.dz_n > 1) ctx.nontrivial(ctx.d.str() + std::to_string(seed));
}
PBT_MAIN
