PROPERTY = 'C04'
NEEDS = 'a macroparticle between a half and one cell from the axis in a domain that is not the first one along the axis'
BREAKS = 'its share at the right nodes depends on the number of the domain, so the map does not add up to its weight'
EDITS = [('include/algo/weighter.hpp', '    dz2 = (pos_z + 0.5 * dz) - (z_k + 0.5) * dz;', '    dz2 = (pos_z + 0.5 * dz) - (z_k_shift + 0.5) * dz;', 2)]
DEMO = r'''
#include "smbkit.hpp"
using namespace smbkit;
static World base(long nr, long nz, long a, long b) { World w; w.nr = nr; w.nz = nz; w.dr_n = a; w.dz_n = b; w.radius = nr * 1e-3; w.longitude = nz * 1e-3; w.t_step = 1e-12; w.sp.push_back({"electrons", -1, 1, 1e15, 1}); w.sp.push_back({"ions", 1, 1836, 1e15, 0.1}); return w; }

int main()
{
  double d[2];
  for (int k = 0; k < 2; ++k)
  {
    Sim s(base(8, 16, 1, k ? 2 : 1)); s.add({0, 0.8e-3, 12.3e-3, 0, 0, 0, 1e6}); s.bind(); SpecieP *p = s.specie(0, k, 0); p->calc_density();
    int q = k ? 4 : 12; d[k] = p->density_map(1, q) + p->density_map(1, q + 1);
  }
  printf("density in the undivided area %g, divided %g\n", d[0], d[1]);
  return d[0] > 0 && std::fabs(d[0] - d[1]) < 1e-9 * d[0] ? 0 : 1;
}
'''
