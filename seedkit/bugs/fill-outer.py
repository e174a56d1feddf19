PROPERTY = 'C10'
NEEDS = 'an area divided into domains along the radius'
BREAKS = 'outer domains count one ring too many into their matter, so the outer domains carry more than the configured density'
EDITS = [('src/specieP.cpp', '  if (geometry->walls[2]) top_r_num -= 1;', '  if (geometry->walls[2] && bot_r_num == 0) top_r_num -= 1;')]
DEMO = r'''
#include "smbkit.hpp"
using namespace smbkit;
static World base(long nr, long nz, long a, long b) { World w; w.nr = nr; w.nz = nz; w.dr_n = a; w.dz_n = b; w.radius = nr * 1e-3; w.longitude = nz * 1e-3; w.t_step = 1e-12; w.sp.push_back({"electrons", -1, 1, 1e15, 1}); w.sp.push_back({"ions", 1, 1836, 1e15, 0.1}); return w; }

int main()
{
  double m[2];
  for (int k = 0; k < 2; ++k)
  {
    World w = base(8, 8, k ? 2 : 1, 1); w.macro = 40000; Sim s(w); s.smb->distribute(); m[k] = 0;
    for (int a = 0; a < (k ? 2 : 1); ++a) for (auto *p : s.specie(a, 0, 0)->particles) m[k] += p->weight;
  }
  printf("matter in the undivided area %g, divided %g\n", m[0], m[1]);
  return std::fabs(m[0] - m[1]) < 0.05 * m[0] ? 0 : 1;
}
'''
