// Particle pushers against the published schemes evaluated in extended precision, and against the
// invariants those schemes exist for.
#include "smbkit.hpp"
#if defined(SWITCH_PUSHER_VAY)
#include "pusher/pusherVay.hpp"
typedef PusherVay P_;
#elif defined(SWITCH_PUSHER_HC)
#include "pusher/pusherHC.hpp"
typedef PusherHC P_;
#else
#include "pusher/pusherBoris.hpp"
typedef PusherBoris P_;
#endif
using namespace world;

namespace
{
  typedef long double L;
  struct V { L x, y, z; };
  V operator+(V a, V b) { return {a.x + b.x, a.y + b.y, a.z + b.z}; }
  V operator-(V a, V b) { return {a.x - b.x, a.y - b.y, a.z - b.z}; }
  V operator*(V a, L k) { return {a.x * k, a.y * k, a.z * k}; }
  L dot(V a, V b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
  V cross(V a, V b) { return {a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x}; }
  L len(V a) { return sqrtl(dot(a, a)); }
  const L c = 3e8L;

  struct Fields : public MaxwellSolver
  {
    double e0[3], er[3], ez[3], h0[3], hr[3], hz[3];
    Fields() { memset(e0, 0, sizeof e0); memset(er, 0, sizeof er); memset(ez, 0, sizeof ez); memset(h0, 0, sizeof h0); memset(hr, 0, sizeof hr); memset(hz, 0, sizeof hz); }
    void set_pml() {}
    void calc_field_h() {}
    void calc_field_e() {}
    vector3d<double> get_field_e(double r, double z)
    { vector3d<double> v; for (int i = 0; i < 3; ++i) v[i] = e0[i] + er[i] * r + ez[i] * z; return v; }
    vector3d<double> get_field_h(double r, double z)
    { vector3d<double> v; for (int i = 0; i < 3; ++i) v[i] = h0[i] + hr[i] * r + hz[i] * z; return v; }
  };

  bool relativistic(V v)
  {
#if defined(SWITCH_PUSHER_BORIS)
    return false;
#elif defined(SWITCH_PUSHER_BORIS_ADAPTIVE)
    return dot(v, v) > (L)REL_LIMIT * (L)REL_LIMIT;
#else
    return true;
#endif
  }
  V boris(V v, V e, V b) // e = qE dt/2m, b = qB dt/2m
  {
    bool rel = relativistic(v);
    V u = v;
    if (rel) u = u * (1 / sqrtl(1 - dot(v, v) / (c * c)));
    V um = u + e;
    V t = rel ? b * (1 / sqrtl(1 + dot(um, um) / (c * c))) : b;
    V s = t * (2 / (1 + dot(t, t)));
    V up = um + cross(um + cross(um, t), s);
    V un = up + e;
    if (rel) un = un * (1 / sqrtl(1 + dot(un, un) / (c * c)));
    return un;
  }
  V vay(V v, V e, V b)
  {
    L g = 1 / sqrtl(1 - dot(v, v) / (c * c));
    V u = v * g;
    V up = u + e * 2 + cross(v, b);
    L gp2 = 1 + dot(up, up) / (c * c), b2 = dot(b, b), us = dot(up, b) / c, s = gp2 - b2;
    L gn = sqrtl((s + sqrtl(s * s + 4 * (b2 + us * us))) / 2);
    V t = b * (1 / gn);
    V un = (up + t * dot(up, t) + cross(up, t)) * (1 / (1 + dot(t, t)));
    return un * (1 / sqrtl(1 + dot(un, un) / (c * c)));
  }
  V hc(V v, V e, V b)
  {
    L g = 1 / sqrtl(1 - dot(v, v) / (c * c));
    V um = v * g + e;
    L gm2 = 1 + dot(um, um) / (c * c), b2 = dot(b, b), us = dot(um, b) / c, s = gm2 - b2;
    L gn = sqrtl((s + sqrtl(s * s + 4 * (b2 + us * us))) / 2);
    V t = b * (1 / gn);
    V up = (um + t * dot(um, t) + cross(um, t)) * (1 / (1 + dot(t, t)));
    up = up + cross(up, t); // second half of the rotation
    V un = up + e;
    return un * (1 / sqrtl(1 + dot(un, un) / (c * c)));
  }
  V reference(V v, V e, V b)
  {
#if defined(SWITCH_PUSHER_VAY)
    return vay(v, e, b);
#elif defined(SWITCH_PUSHER_HC)
    return hc(v, e, b);
#else
    return boris(v, e, b);
#endif
  }
  double comp(Src &g, double m) { int k = (int)g.range(0, 5); return k == 0 ? 0 : k == 1 ? m : k == 2 ? -m : g.real(-m, m); }

  struct Setup
  {
    TimeSim *t; std::vector<SpecieP *> sp; Fields f; Geometry *geo;
    ~Setup() { for (auto x : sp) { for (auto p : x->particles) delete p; x->particles.clear(); delete x; } delete geo; delete t; }
    Setup(Src &g, Ctx &ctx)
    {
      geo = new Geometry({0.01, 0.02}, {0, 0, 10, 20}, {true, true, true, true});
      t = mk_time(g.decade(-14, -11));
      int n = (int)g.range(1, 3);
      for (int i = 0; i < n; ++i)
        sp.push_back(new SpecieP(i, "s" + std::to_string(i), g.pick(std::vector<double>{-1, 1, -2, 3}), g.pick(std::vector<double>{1, 1836, 7, 40000}), 10, 1e15, 1e15, 1, geo, t));
      int mode = (int)g.range(0, 3); // both, B only, E only, nothing
      L k = 0; for (auto x : sp) k = std::max(k, fabsl(x->charge) * t->step / (2 * x->mass));
      double em = mode == 0 || mode == 2 ? (double)(g.decade(-7, -0.5) * c / k) : 0;
      double hm = mode == 0 || mode == 1 ? (double)(g.decade(-6, 1.5) / (k * MU)) : 0;
      bool grad = g.flip();
      for (int i = 0; i < 3; ++i)
      {
        f.e0[i] = comp(g, em); f.h0[i] = comp(g, hm);
        if (grad) { f.er[i] = comp(g, em) * 30; f.ez[i] = comp(g, em) * 20; f.hr[i] = comp(g, hm) * 30; f.hz[i] = comp(g, hm) * 20; }
      }
      ctx.d << n << " species, dt " << t->step << ", E " << f.e0[0] << "," << f.e0[1] << "," << f.e0[2] << " H " << f.h0[0] << "," << f.h0[1] << "," << f.h0[2] << (grad ? " with gradients" : "");
    }
  };
  V gen_v(Src &g)
  {
    L m;
    int k = (int)g.range(0, 5);
    if (k == 0) return {0, 0, 0};
    if (k == 1) m = c * g.real(0.2, 0.98);
    else if (k == 2) m = c * (1 - g.decade(-7, -2));
    else if (k == 3) m = g.decade(2, 7.6);
#ifdef REL_LIMIT
    else if (k == 4) m = REL_LIMIT * (1 + g.sgn() * g.decade(-6, -1)); // around the adaptive threshold
#endif
    else m = c * g.real(0.001, 0.16);
    L a = g.real(-1, 1), ph = g.real(0, 2 * M_PI); int ax = (int)g.range(0, 3);
    if (ax == 1) return {m, 0, 0};
    if (ax == 2) return {0, m, 0};
    if (ax == 3) return {0, 0, m};
    L s = sqrtl(1 - a * a);
    return {m * s * cosl(ph), m * s * sinl(ph), m * a};
  }
}

#ifndef ENABLE_EXTERNAL_FIELDS
PBT_PROP(push_step, "1..3 species, 1..12, sometimes 300, macroparticles, random E/H (uniform or varying in space), velocities from 0 to 0.9999999c; "
                    "non-trivial: a field is present and some particle moves")
{
  Setup s(g, ctx);
  std::vector<V> v0; std::vector<Particle *> ps; std::vector<SpecieP *> own; std::vector<Particle> before;
  int n = (int)g.range(1, g.chance(1, 20) ? 300 : 12); bool moving = false;
  for (int i = 0; i < n; ++i)
  {
    V v = gen_v(g);
    SpecieP *sp = s.sp[g.draw(s.sp.size())];
    Particle *p = mkp(g.open(0, 0.01), g.open(0, 0.02), (double)v.x, (double)v.y, (double)v.z, g.decade(0, 9));
    p->pos_old_r = g.unit(); p->sin = 0.3; p->mark = i; p->cell_r = i; p->cell_z = 2 * i;
    v = {p->vel_r, p->vel_phi, p->vel_z};
    sp->particles.push_back(p); ps.push_back(p); own.push_back(sp); v0.push_back(v); before.push_back(*p);
    if (len(v) > 0) moving = true;
    ctx.d << "; v=(" << p->vel_r << "," << p->vel_phi << "," << p->vel_z << ") at " << p->pos_r << "," << p->pos_z;
  }
  P_ pusher(&s.f, s.sp, s.t);
  // the stack the pusher works on holds whatever earlier calls left there
  { volatile unsigned char junk[4096]; for (size_t i = 0; i < sizeof junk; ++i) junk[i] = (unsigned char)(0xA5 + i); }
  pusher();
  for (int i = 0; i < n; ++i)
  {
    Particle &p = *ps[i]; const Particle &q = before[i];
    pbt::require(p.pos_r == q.pos_r && p.pos_z == q.pos_z && p.pos_phi == q.pos_phi && p.weight == q.weight && p.pos_old_r == q.pos_old_r
                 && p.mark == q.mark && p.cell_r == q.cell_r && p.cell_z == q.cell_z && p.specie_id == q.specie_id,
                 "the pusher changed something other than the velocity");
    L k = (L)own[i]->charge * s.t->step / (2 * (L)own[i]->mass);
    vector3d<double> fe = s.f.get_field_e(p.pos_r, p.pos_z), fh = s.f.get_field_h(p.pos_r, p.pos_z);
    V e = V{fe[0], fe[1], fe[2]} * k, b = V{fh[0], fh[1], fh[2]} * (k * (L)MU);
    V want = reference(v0[i], e, b), got = {p.vel_r, p.vel_phi, p.vel_z};
    L g0 = relativistic(v0[i]) ? 1 / sqrtl(1 - dot(v0[i], v0[i]) / (c * c)) : 1;
    // conditioning: gamma of the input amplifies the rounding of v; |b| and the kick enter linearly
    L scale = len(v0[i]) + len(e) + 1e-3L, tol = 1e-11L * (1 + g0 * g0 * 1e-2L) * (1 + len(b)) * scale;
    if (!(len(got - want) <= tol))
      pbt::failf("particle %d: velocity (%.12g, %.12g, %.12g) became (%.12g, %.12g, %.12g), the scheme gives (%.12Lg, %.12Lg, %.12Lg)", i,
                 (double)v0[i].x, (double)v0[i].y, (double)v0[i].z, p.vel_r, p.vel_phi, p.vel_z, want.x, want.y, want.z);
    if (relativistic(v0[i])) pbt::require(len(got) <= c, "a particle left the pusher faster than light");
    if (len(e) == 0)
    {
      L tolv = 1e-11L * (1 + g0 * g0 * 1e-2L) * (1 + len(b));
      if (fabsl(len(got) - len(v0[i])) > tolv * (len(v0[i]) + 1e-3L))
        pbt::failf("a magnetic field alone changed the speed from %.15Lg to %.15Lg", len(v0[i]), len(got));
      if (len(b) > 0)
        if (fabsl(dot(got, b) - dot(v0[i], b)) > tolv * (len(v0[i]) + 1e-3L) * len(b))
          pbt::fail("the velocity component along the magnetic field changed");
    }
    if (len(b) == 0 && relativistic(v0[i]))
    {
      V u0 = v0[i] * (1 / sqrtl(1 - dot(v0[i], v0[i]) / (c * c)));
      V un = u0 + e * 2; V w = un * (1 / sqrtl(1 + dot(un, un) / (c * c)));
      if (len(got - w) > tol) pbt::fail("with an electric field alone, momentum did not grow by q E dt");
    }
  }
  if (moving) ctx.nontrivial(ctx.d.str());
}

#endif

PBT_PROP(area, "up to 30 macroparticles of 2..3 species in 1..64 domains with random fields: all of them get the velocity of the configured scheme in the fields of their place; non-trivial: some particle is there")
{
  World w = gen_grid(g, 4, 4, 4, 7); if (g.flip()) w.sp.push_back({"heavy", 2, 7, 1e15, 1}); w.sp[1].mass = g.pick(std::vector<double>{1836, 3});
  smbkit::Sim s(w); uint64_t fs = g.seed64(); double ea = g.decade(-3, 0.5) * C0 * ME / (QE * w.t_step), ha = g.decade(-3, 1) * ME / (QE * w.t_step) / MU;
  s.set_fields([&](int m, int c, long i, long k) { uint64_t x = pbt::mix(pbt::mix(fs, (uint64_t)(m * 3 + c)), (uint64_t)(i * 1000 + k)); return ((double)(x >> 40) / (1 << 24) * 2 - 1) * (m ? ha : ea); });
  int n = (int)g.range(1, g.chance(1, 20) ? 300 : 30); std::vector<Particle *> ps; std::vector<V> v0; std::vector<int> sp; ctx.d << show(w) << ", dt " << w.t_step << ", " << n << " particles, E up to " << ea << ", H up to " << ha;
  for (int i = 0; i < n; ++i)
  {
    V v = gen_v(g); int q = (int)g.draw(w.sp.size());
    ps.push_back(s.add({q, g.open(0.5, w.nr - 0.5) * s.dr, g.open(0.5, w.nz - 0.5) * s.dz, (double)v.x, (double)v.y, (double)v.z, 1})); v0.push_back({ps[i]->vel_r, ps[i]->vel_phi, ps[i]->vel_z}); sp.push_back(q);
  }
  s.bind(); std::vector<V> e, h;
  for (auto p : ps)
  {
    long i, j; s.home(p->pos_r, p->pos_z, i, j); MaxwellSolver *m = s.dom(i, j)->maxwell_solver; vector3d<double> a = m->get_field_e(p->pos_r, p->pos_z), b = m->get_field_h(p->pos_r, p->pos_z);
    e.push_back({a[0], a[1], a[2]}); h.push_back({b[0], b[1], b[2]});
  }
  for (long i = 0; i < w.dr_n; ++i) for (long j = 0; j < w.dz_n; ++j) s.dom(i, j)->push_particles();
  for (int i = 0; i < n; ++i)
  {
    L k = (L)w.sp[sp[i]].charge * (L)QE * w.t_step / (2 * (L)w.sp[sp[i]].mass * ME); V a = e[i] * k, b = h[i] * (k * (L)MU), want = reference(v0[i], a, b), got = {ps[i]->vel_r, ps[i]->vel_phi, ps[i]->vel_z};
    L g0 = relativistic(v0[i]) ? 1 / sqrtl(1 - dot(v0[i], v0[i]) / (c * c)) : 1, tol = 1e-11L * (1 + g0 * g0 * 1e-2L) * (1 + len(b)) * (len(v0[i]) + len(a) + 1e-3L);
    if (!(len(got - want) <= tol))
      pbt::failf("%s %d: velocity (%.12g, %.12g, %.12g) became (%.12g, %.12g, %.12g), the configured scheme gives (%.12Lg, %.12Lg, %.12Lg)", w.sp[sp[i]].name.c_str(), i,
                 (double)v0[i].x, (double)v0[i].y, (double)v0[i].z, (double)got.x, (double)got.y, (double)got.z, want.x, want.y, want.z);
  }
  ctx.nontrivial(ctx.d.str());
}

#ifndef ENABLE_EXTERNAL_FIELDS
PBT_PROP(push_many, "a gyrating particle is stepped 5..200 times in a uniform magnetic field; non-trivial: total gyration over 0.1 rad")
{
  Setup s(g, ctx);
  for (int i = 0; i < 3; ++i) { s.f.e0[i] = s.f.er[i] = s.f.ez[i] = 0; s.f.hr[i] = s.f.hz[i] = 0; }
  V v = gen_v(g); if (len(v) == 0) v = {1e6, 0, 0};
  Particle *p = mkp(0.005, 0.01, (double)v.x, (double)v.y, (double)v.z, 1);
  s.sp[0]->particles.push_back(p);
  P_ pusher(&s.f, s.sp, s.t);
  int n = (int)g.range(5, 200);
  L k = (L)s.sp[0]->charge * s.t->step / (2 * (L)s.sp[0]->mass);
  V b = V{s.f.h0[0], s.f.h0[1], s.f.h0[2]} * (k * (L)MU);
  V v0 = {p->vel_r, p->vel_phi, p->vel_z};
  for (int i = 0; i < n; ++i) pusher();
  V vn = {p->vel_r, p->vel_phi, p->vel_z};
  L g0 = 1 / sqrtl(1 - dot(v0, v0) / (c * c)); if (!relativistic(v0)) g0 = 1;
  L tol = 1e-11L * n * (1 + g0 * g0 * 1e-2L) * (1 + len(b));
  ctx.d << "; " << n << " steps, v0 " << (double)len(v0) << " |b| " << (double)len(b);
  if (fabsl(len(vn) - len(v0)) > tol * len(v0)) pbt::failf("speed drifts in a magnetic field: %.15Lg after %d steps, %.15Lg at start", len(vn), n, len(v0));
  // each step rotates about b by 2 atan(|b|/gamma): compare with the closed form
  L bl = len(b);
  if (bl > 0)
  {
    V ax = b * (1 / bl);
#if defined(SWITCH_PUSHER_HC)
    { // Higuera-Cary rotates with the gamma of the averaged velocity
      V u0 = v0 * g0; L us = dot(u0, b) / c, q = g0 * g0 - bl * bl;
      g0 = sqrtl((q + sqrtl(q * q + 4 * (bl * bl + us * us))) / 2);
    }
#endif
    L th = -2 * atanl(bl / g0) * n; // v' = v + v x b ... : rotation about b by a negative angle
    V w = v0 * cosl(th) + cross(ax, v0) * sinl(th) + ax * (dot(ax, v0) * (1 - cosl(th)));
    bool near_limit = false;
#if defined(SWITCH_PUSHER_BORIS_ADAPTIVE)
    near_limit = fabsl(len(v0) / REL_LIMIT - 1) < 1e-5;
#endif
#if defined(SWITCH_PUSHER_VAY)
    near_limit = true; // Vay's rotation angle differs at finite step; covered by push_step
#endif
    if (!near_limit && len(vn - w) > (tol * 10 + 1e-12L * n) * len(v0))
      pbt::failf("after %d steps the velocity is (%.12Lg,%.12Lg,%.12Lg), rotation about the field gives (%.12Lg,%.12Lg,%.12Lg)", n, vn.x, vn.y, vn.z, w.x, w.y, w.z);
    if (fabsl(th) > 0.1) ctx.nontrivial(ctx.d.str());
  }
}
#endif
PBT_MAIN
