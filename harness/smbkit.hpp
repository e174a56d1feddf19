// Building whole simulations in memory: a Cfg, the shared memory block and hand-placed particles.
#ifndef SMBKIT_HPP
#define SMBKIT_HPP
#include "world.hpp"
#include "maxwellSolver/maxwellSolverYee.hpp"
namespace smbkit
{
  using namespace world;
  typedef long double L;
  struct Seed { int sp; double r, z, vr, vp, vz, w; }; // positions in metres

  struct Sim
  {
    World w; Cfg *cfg; SMB *smb; double dr, dz; long cr, cz; // cells per domain
    explicit Sim(const World &w_) : w(w_)
    {
      cfg = make_cfg(w); smb = new SMB(cfg, cfg->geometry, cfg->time, 0, 1);
      dr = w.radius / w.nr; dz = w.longitude / w.nz; cr = w.nr / w.dr_n; cz = w.nz / w.dz_n;
    }
    ~Sim()
    {
      for (long i = 0; i < w.dr_n; ++i)
        for (long j = 0; j < w.dz_n; ++j)
        {
          Domain *d = dom(i, j);
          for (auto s : d->species_p) delete s;
        }
      // the rest is leaked by design of the code under test
    }
    Domain *dom(long i, long j) { return smb->domains(i, j); }
    SpecieP *specie(long i, long j, int n) { return dom(i, j)->species_p[n]; }
    int nspecies() { return (int)dom(0, 0)->species_p.size(); }
    void home(double r, double z, long &i, long &j)
    {
      double R = dom(0, 0)->geometry.cell_size[0], Z = dom(0, 0)->geometry.cell_size[1];
      i = std::min(std::max((long)floor(r / R) / cr, 0L), w.dr_n - 1); j = std::min(std::max((long)floor(z / Z) / cz, 0L), w.dz_n - 1);
    }
    Particle *add(const Seed &s) { long i, j; home(s.r, s.z, i, j); return add_to(s, i, j); }
    Particle *add_to(const Seed &s, long i, long j)
    {
      SpecieP *sp = specie(i, j, s.sp);
      Particle *p = mkp(s.r, s.z, s.vr, s.vp, s.vz, s.w, sp->id); sp->particles.push_back(p);
      return p;
    }
    void bind() { for (long i = 0; i < w.dr_n; ++i) for (long j = 0; j < w.dz_n; ++j) dom(i, j)->bind_cell_numbers(); }
    double e(int c, long i, long k) { return dom(i / cr, k / cz)->maxwell_solver->field_e(c, i % cr, k % cz); }
    double h(int c, long i, long k) { return dom(i / cr, k / cz)->maxwell_solver->field_h(c, i % cr, k % cz); }
    double j(int c, long i, long k) { return dom(i / cr, k / cz)->current->current(c, i % cr, k % cz); }
    struct Rec { int sp; double w; Particle *p; long i, j; };
    std::vector<Rec> all()
    {
      std::vector<Rec> o;
      for (long i = 0; i < w.dr_n; ++i)
        for (long j_ = 0; j_ < w.dz_n; ++j_)
          for (int n = 0; n < nspecies(); ++n)
            for (auto p : specie(i, j_, n)->particles) o.push_back({n, p->weight, p, i, j_});
      std::sort(o.begin(), o.end(), [](const Rec &a, const Rec &b) { return a.w < b.w; });
      return o;
    }
    // fields given on the whole area, put into the domains together with their guard cells
    void set_fields(const std::function<double(int, int, long, long)> &f)
    {
      for (long a = 0; a < w.dr_n; ++a)
        for (long b = 0; b < w.dz_n; ++b)
        {
          MaxwellSolverYee *m = (MaxwellSolverYee *)dom(a, b)->maxwell_solver;
          for (int c = 0; c < 3; ++c)
            for (long i = -2; i < cr + 2; ++i)
              for (long k = -2; k < cz + 2; ++k)
              {
                long I = a * cr + i, K = b * cz + k; bool in = I >= 0 && K >= 0 && I < w.nr && K < w.nz;
                m->field_e[c].set(i, k, in ? f(0, c, I, K) : 0);
                double h = in ? f(1, c, I, K) : 0; m->field_h[c].set(i, k, h); m->field_h_at_et[c].set(i, k, h);
              }
        }
    }
    void step(bool advance = true) { smb->solve_maxvell(); if (advance) { smb->advance_particles(); smb->solve_current(); } }
  };
  // which electric nodes the walls leave alive, on the whole area
  inline bool e_alive(const World &w, int c, long i, long k)
  {
    if (i == w.nr - 1 || k == w.nz - 1) return false;
    if (c == 2) return true;
    if (k == 0) return false;
    return c == 0 || i > 0;
  }
  // plasma-like macroparticles: light enough for a stable step, heavy enough to matter; all weights differ
  inline std::vector<Seed> gen_plasma(Src &g, const World &w, int n, double vmax, double strength)
  {
    std::vector<Seed> o; double dr = w.radius / w.nr, dz = w.longitude / w.nz;
    double wp = strength / w.t_step, dens = wp * wp * EPS * ME / (QE * QE);
    for (int q = 0; q < n; ++q)
    {
      Seed s; s.sp = (int)g.draw(w.sp.size());
      int how = (int)g.range(0, 4);
      // exactly at a wall the radial step is lost in rounding, which the deposition's formulas amplify
      double lr = g.open(0.501, w.nr - 0.501), lz = g.open(0.501, w.nz - 0.501);
      if (how == 0) lr = std::min(std::max((double)g.range(1, w.dr_n) * (w.nr / w.dr_n) + g.sgn() * g.decade(-4, -0.5), 0.501), w.nr - 0.501); // by a domain border
      if (how == 1) lz = std::min(std::max((double)g.range(1, w.dz_n) * (w.nz / w.dz_n) + g.sgn() * g.decade(-4, -0.5), 0.501), w.nz - 0.501);
      if (how == 2) lr = 0.5 + g.decade(-3, 0);
      s.r = lr * dr; s.z = lz * dz;
      // displacements of 1e-15 m lose their digits in the deposition: no velocities around zero
      auto v = [&]() { return g.sgn() * g.real(0.001, 1) * vmax; };
      s.vr = v(); s.vp = g.chance(1, 6) ? 0. : v(); s.vz = v();
      s.w = dens * 3.14159 * dr * dr * dz * (2 * floor(lr) + 1) * g.real(0.1, 1) * (1 + 1e-6 * q);
      o.push_back(s);
    }
    std::set<double> seen; for (auto &s : o) while (!seen.insert(s.w).second) s.w *= 1 + 1e-9;
    return o;
  }
}
#endif
