PROPERTY = 'C13'
NEEDS = 'absorbing layer at the outer wall and a grid that is longer than wide (or wider than long)'
BREAKS = 'the thickness of the outer layer is counted in axial instead of radial cells'
EDITS = [('src/cfg.cpp', '  _pml[2] = floor(outer_wall * n_grid_r);', '  _pml[2] = floor(outer_wall * min(n_grid_r, n_grid_z));')]
DEMO = r'''
#include "smbkit.hpp"
using namespace smbkit;
static World base(long nr, long nz, long a, long b) { World w; w.nr = nr; w.nz = nz; w.dr_n = a; w.dz_n = b; w.radius = nr * 1e-3; w.longitude = nz * 1e-3; w.t_step = 1e-12; w.sp.push_back({"electrons", -1, 1, 1e15, 1}); w.sp.push_back({"ions", 1, 1836, 1e15, 0.1}); return w; }

int main()
{
  World w = base(32, 16, 1, 1); w.pml_l = w.pml_r = w.pml_o = 0.25; w.s1 = 1e-5; w.s2 = 1.5; Sim s(w);
  auto &p = s.cfg->geometry->pml_size; printf("layers of %zu, %zu and %zu cells\n", (size_t)p[1], (size_t)p[2], (size_t)p[3]);
  return p[1] == 4 && p[2] == 8 && p[3] == 4 ? 0 : 1;
}
'''
