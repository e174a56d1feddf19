PROPERTY = 'C18'
NEEDS = 'the energy of a particle whose speed is above the limit of the classical formula but not close to the light velocity'
BREAKS = 'kinetic energy from momentum is the classical one up to half of the light velocity'
EDITS = [('src/phys/rel.cpp', '    if (momentum_2 > REL_LIMIT_POW_2 * mass * mass)', '    if (momentum_2 > 0.5 * LIGHT_VEL_POW_2 * mass * mass)')]
DEMO = r'''
#include "smbkit.hpp"
using namespace smbkit;
static World base(long nr, long nz, long a, long b) { World w; w.nr = nr; w.nz = nz; w.dr_n = a; w.dz_n = b; w.radius = nr * 1e-3; w.longitude = nz * 1e-3; w.t_step = 1e-12; w.sp.push_back({"electrons", -1, 1, 1e15, 1}); w.sp.push_back({"ions", 1, 1836, 1e15, 0.1}); return w; }

#include "phys/rel.hpp"
int main()
{
  double m = 9.1e-31, v = 1.5e8, g = 1 / std::sqrt(1 - 0.25), e = (g - 1) * m * 9e16, got = phys::rel::energy_m(m, g * m * v * g * m * v); printf("energy %g instead of %g\n", got, e);
  return std::fabs(got / e - 1) < 0.01 ? 0 : 1;
}
'''
