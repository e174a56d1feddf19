PROPERTY = 'C03'
NEEDS = 'a particle in a domain that does not touch the axis, with a radial magnetic field'
BREAKS = 'the radial magnetic field there is weighted with the volume of a ring counted from the border of the domain instead of the axis'
EDITS = [('include/maxwellSolver.hpp', '    vol_2 = CELL_VOLUME(i_r+2, dr, dz);', '    vol_2 = CELL_VOLUME(i_r_shift+2, dr, dz);', 0)]
DEMO = r'''
#include "smbkit.hpp"
using namespace smbkit;
static World base(long nr, long nz, long a, long b) { World w; w.nr = nr; w.nz = nz; w.dr_n = a; w.dz_n = b; w.radius = nr * 1e-3; w.longitude = nz * 1e-3; w.t_step = 1e-12; w.sp.push_back({"electrons", -1, 1, 1e15, 1}); w.sp.push_back({"ions", 1, 1836, 1e15, 0.1}); return w; }

int main()
{
  double f[2];
  for (int k = 0; k < 2; ++k)
  {
    Sim s(base(16, 8, k ? 2 : 1, 1));
    for (int a = 0; a < (k ? 2 : 1); ++a) { auto *m = s.dom(a, 0)->maxwell_solver; m->field_h = 1; m->field_h.overlay_set(1); ((MaxwellSolverYee *)m)->field_h_at_et = 1; ((MaxwellSolverYee *)m)->field_h_at_et.overlay_set(1); }
    f[k] = s.dom(k ? 1 : 0, 0)->maxwell_solver->get_field_h(11.3e-3, 3.3e-3)[0];
  }
  printf("radial field in the undivided area %g, divided %g\n", f[0], f[1]);
  return std::fabs(f[0] - f[1]) < 1e-9 * std::fabs(f[0]) ? 0 : 1;
}
'''
