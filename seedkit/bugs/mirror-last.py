PROPERTY = 'C09'
NEEDS = 'an area divided into domains along the axis and a particle reflected by the right wall'
BREAKS = 'the right wall reflects half a cell too late in the last of several domains'
EDITS = [('src/specieP.cpp', '  double longitude_wall = geometry->size[1] - dz / 2.;', '  double longitude_wall = geometry->size[1] - (geometry->cell_dims[1] > 0 ? 0 : dz / 2.);')]
DEMO = r'''
#include "smbkit.hpp"
using namespace smbkit;
static World base(long nr, long nz, long a, long b) { World w; w.nr = nr; w.nz = nz; w.dr_n = a; w.dz_n = b; w.radius = nr * 1e-3; w.longitude = nz * 1e-3; w.t_step = 1e-12; w.sp.push_back({"electrons", -1, 1, 1e15, 1}); w.sp.push_back({"ions", 1, 1836, 1e15, 0.1}); return w; }

int main()
{
  double z[2];
  for (int k = 0; k < 2; ++k)
  {
    Sim s(base(8, 16, 1, k ? 2 : 1)); SpecieP *p = s.specie(0, k, 0); Particle *q = s.add_to({0, 3.3e-3, 15.4e-3, 0, 0, 2e8, 1}, 0, k); s.bind();
    q->pos_old_r = q->pos_r; q->pos_old_z = q->pos_z; p->mover_cylindrical(); p->reflect(); z[k] = q->pos_z;
  }
  printf("reflected to %.9g in the undivided area, to %.9g in the divided one\n", z[0], z[1]);
  return std::fabs(z[0] - z[1]) < 1e-12 && std::fabs(z[0] - (31e-3 - 15.6e-3)) < 1e-9 ? 0 : 1;
}
'''
