// Domains are handled in parallel: no data races, and no result depends on the order in which threads run.
#include "smbkit.hpp"
using namespace smbkit;
namespace gompshim { extern int threads; extern uint64_t order_seed, regions; }

namespace
{
  World gen_world(Src &g, Ctx &ctx)
  {
    World w = gen_grid(g, 4, 4, 4, 6);
    if (w.dr_n * w.dz_n == 1) throw pbt::Discard();
    w.macro = g.range(20, 400);
    w.sp[0].temperature = g.pick(std::vector<double>{1, 1000}); 
#ifdef ENABLE_PML
    if (g.flip()) { w.pml_l = g.real(0, 0.5); w.pml_r = g.real(0, 0.5); w.pml_o = g.real(0, 0.5); }
#endif
    ctx.d << show(w) << ", pml " << w.pml_l << "," << w.pml_r << "," << w.pml_o;
    return w;
  }
}

PBT_PROP(races, "2..16 domains on 2..8 threads under the thread sanitizer: filling, beams, 1..4 whole steps with particles around domain borders; "
                "non-trivial: every case")
{
  World w = gen_world(g, ctx);
  if (g.flip()) w.bm.push_back({"beam", -1, 1, 1e8, 0, 2, 1e-3, w.longitude / 3, w.radius * g.real(0.2, 0.9), 1e14});
  gompshim::threads = (int)g.range(2, 8); gompshim::order_seed = 0;
  int steps = (int)g.range(1, 4), n = (int)g.range(0, 60);
  ctx.d << ", " << gompshim::threads << " threads, " << steps << " steps, " << w.bm.size() << " beams";
  auto seeds = gen_plasma(g, w, n, 1.4e8, 0.2);
  Sim s(w); s.smb->distribute(); for (auto &x : seeds) s.add(x); s.bind();
  for (int i = 0; i < steps; ++i) { s.smb->inject_beam(); s.step(); s.cfg->time->current += s.cfg->time->step; }
  // the parallel regions must be run in parallel at all for this to mean something
  ctx.nontrivial(ctx.d.str());
}

PBT_PROP(order, "2..16 domains, thread teams of 1..8 run in two different orders: fields, currents and particles agree after 1..5 steps; "
                "non-trivial: some particle crossed a domain border")
{
  World w = gen_world(g, ctx);
  int ta = (int)g.range(1, 8), tb = (int)g.range(1, 8), steps = (int)g.range(1, 5), n = (int)g.range(1, 40);
  uint64_t oa = g.seed64() | 1, ob = g.seed64() | 1;
  ctx.d << ", teams of " << ta << " and " << tb << ", " << steps << " steps, " << n << " particles";
  auto seeds = gen_plasma(g, w, n, 1.4e8, 0.3);
  Sim a(w), b(w); for (auto &x : seeds) { a.add(x); b.add(x); } a.bind(); b.bind();
  bool crossed = false; std::map<double, std::pair<long, long>> where; for (auto &r : a.all()) where[r.w] = {r.i, r.j};
  for (int st = 0; st < steps; ++st)
  {
    gompshim::threads = ta; gompshim::order_seed = oa; a.step();
    gompshim::threads = tb; gompshim::order_seed = ob; b.step();
    auto pa = a.all(), pb = b.all();
    if (pa.size() != pb.size() || pa.size() != seeds.size()) pbt::failf("step %d: %zu and %zu particles of %zu", st, pa.size(), pb.size(), seeds.size());
    for (size_t q = 0; q < pa.size(); ++q)
    {
      Particle *x = pa[q].p, *y = pb[q].p; auto t = where[pa[q].w]; if (t.first != pa[q].i || t.second != pa[q].j) crossed = true;
      if (pa[q].w != pb[q].w || pa[q].i != pb[q].i || pa[q].j != pb[q].j || !(fabs(x->pos_r - y->pos_r) <= 1e-9 * a.dr && fabs(x->pos_z - y->pos_z) <= 1e-9 * a.dz
          && fabs(x->vel_r - y->vel_r) <= 1 && fabs(x->vel_phi - y->vel_phi) <= 1 && fabs(x->vel_z - y->vel_z) <= 1))
        pbt::failf("step %d: particle %zu depends on the order of threads", st, q);
    }
    double me = 0, mh = 0, mj = 0;
    for (int c = 0; c < 3; ++c) for (long i = 0; i < w.nr; ++i) for (long k = 0; k < w.nz; ++k)
    { me = std::max(me, fabs(b.e(c, i, k))); mh = std::max(mh, fabs(b.h(c, i, k))); mj = std::max(mj, fabs(b.j(c, i, k))); }
    for (int c = 0; c < 3; ++c) for (long i = 0; i < w.nr; ++i) for (long k = 0; k < w.nz; ++k)
      if (!(fabs(a.e(c, i, k) - b.e(c, i, k)) <= 1e-7 * me && fabs(a.h(c, i, k) - b.h(c, i, k)) <= 1e-7 * mh && fabs(a.j(c, i, k) - b.j(c, i, k)) <= 1e-5 * mj))
        pbt::failf("step %d: node %ld,%ld depends on the order of threads: E %g/%g H %g/%g J %g/%g", st, i, k, a.e(c, i, k), b.e(c, i, k), a.h(c, i, k), b.h(c, i, k), a.j(c, i, k), b.j(c, i, k));
  }
  if (gompshim::regions == 0) throw pbt::Discard();
  if (crossed) ctx.nontrivial(ctx.d.str());
}
PBT_MAIN
