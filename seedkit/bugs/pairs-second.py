PROPERTY = 'C16'
NEEDS = 'more ions than electrons in a cell, the former not a multiple of the latter'
BREAKS = 'electrons of the second group are left without ions, those of the first take their place'
EDITS = [('src/collisions/collisionsTA77S.cpp', '                         (*map_el2cell(i, j)[fge+els_1st_group]),', '                         (*map_el2cell(i, j)[fge+els_1st_group/c_i]),', 0)]
CFG = {'collisions': 'TA77S'}
DEMO = r'''
#include "smbkit.hpp"
using namespace smbkit;
static World base(long nr, long nz, long a, long b) { World w; w.nr = nr; w.nz = nz; w.dr_n = a; w.dz_n = b; w.radius = nr * 1e-3; w.longitude = nz * 1e-3; w.t_step = 1e-12; w.sp.push_back({"electrons", -1, 1, 1e15, 1}); w.sp.push_back({"ions", 1, 1836, 1e15, 0.1}); return w; }

int main()
{
  World w = base(4, 4, 1, 1); w.t_step = 1e-13; Sim s(w); std::vector<Particle *> e;
  // 3 electrons of the same velocity (they do not collide with each other) and 8 ions: 2 ions, 2 of 3 electrons have one more
  for (int k = 0; k < 3; ++k) e.push_back(s.add({0, 1.5e-3, 1.5e-3, 5e5, 1e6, -5e5, 1e13}));
  for (int k = 0; k < 8; ++k) s.add({1, 1.5e-3, 1.5e-3, -3e3, 1e2, 2e2, 1e13});
  s.bind(); CollisionsTA77S *c = (CollisionsTA77S *)s.dom(0, 0)->collisions; int n = 0;
  for (int t = 0; t < 20; ++t)
  {
    for (auto *p : e) { p->vel_r = 5e5; p->vel_phi = 1e6; p->vel_z = -5e5; }
    c->clear(); c->sort_to_cells(); c->random_sort(); c->collect_weighted_params_tot_grid(); c->collide();
    for (auto *p : e) if (p->vel_r == 5e5 && p->vel_phi == 1e6) ++n;
  }
  printf("electrons without collision: %d of 60\n", n);
  return n < 5 ? 0 : 1;
}
'''
