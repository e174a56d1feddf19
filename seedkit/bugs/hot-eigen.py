PROPERTY = 'C11'
NEEDS = 'a plasma of several ten keV with the eigen distribution of velocities'
BREAKS = 'the three velocity components together are faster than light'
EDITS = [('src/specieP.cpp', '  if (therm_vel_cmp > REL_LIMIT)', '  if (therm_vel_cmp > 3 * REL_LIMIT)', 1)]
CFG = {'velocity': 'EIGEN'}
DEMO = r'''
#include "smbkit.hpp"
using namespace smbkit;
static World base(long nr, long nz, long a, long b) { World w; w.nr = nr; w.nz = nz; w.dr_n = a; w.dz_n = b; w.radius = nr * 1e-3; w.longitude = nz * 1e-3; w.t_step = 1e-12; w.sp.push_back({"electrons", -1, 1, 1e15, 1}); w.sp.push_back({"ions", 1, 1836, 1e15, 0.1}); return w; }

int main()
{
  World w = base(8, 8, 1, 1); w.sp[0].temperature = 1.2e5; Sim s(w); SpecieP *p = s.specie(0, 0, 0); s.add({0, 3e-3, 3e-3, 0, 0, 0, 1}); s.bind(); p->velocity_distribution();
  Particle *q = p->particles[0]; double v = std::sqrt(q->vel_r * q->vel_r + q->vel_phi * q->vel_phi + q->vel_z * q->vel_z); printf("speed %g of light\n", v / 3e8);
  return v > 0 && v < 3e8 ? 0 : 1;
}
'''
