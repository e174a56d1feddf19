PROPERTY = 'C15'
NEEDS = 'a specie with azimuthal flow (rotating plasma)'
BREAKS = 'the flow around the axis is counted as heat in the temperature map'
EDITS = [('src/specieP.cpp', '          + pow(momentum_map_w[1](r, z), 2)', '          + momentum_map_w[1](r, z) * momentum_map_w[2](r, z)')]
DEMO = r'''
#include "smbkit.hpp"
using namespace smbkit;
static World base(long nr, long nz, long a, long b) { World w; w.nr = nr; w.nz = nz; w.dr_n = a; w.dz_n = b; w.radius = nr * 1e-3; w.longitude = nz * 1e-3; w.t_step = 1e-12; w.sp.push_back({"electrons", -1, 1, 1e15, 1}); w.sp.push_back({"ions", 1, 1836, 1e15, 0.1}); return w; }

int main()
{
  Sim s(base(8, 8, 1, 1)); for (int k = 0; k < 10; ++k) s.add({0, 3.3e-3, 3.3e-3, 0, 1e6, 0, 1e6}); s.bind(); SpecieP *p = s.specie(0, 0, 0); p->calc_temperature();
  double t = p->temperature_map(3, 3), e = 0.5 * 9.1e-31 * 1e12 / 1.6e-19; printf("temperature of a cold rotating plasma %g, energy of its flow %g eV\n", t, e);
  return std::fabs(t) < 1e-6 * e ? 0 : 1;
}
'''
