PROPERTY = 'C21'
NEEDS = 'particles moving along the axis in the first cells at the left wall, off the axis'
BREAKS = 'only a half of their current reaches the electric field there, so charge and field stop to match at the next nodes'
EDITS = [('src/maxwellSolver/maxwellSolverYee.cpp', '      field_e[2].dec(i, k, (curr(2, i, k)', '      field_e[2].dec(i, k, (curr(2, i, k) / 2', 1)]
DEMO = r'''
#include "smbkit.hpp"
using namespace smbkit;
static World base(long nr, long nz, long a, long b) { World w; w.nr = nr; w.nz = nz; w.dr_n = a; w.dz_n = b; w.radius = nr * 1e-3; w.longitude = nz * 1e-3; w.t_step = 1e-12; w.sp.push_back({"electrons", -1, 1, 1e15, 1}); w.sp.push_back({"ions", 1, 1836, 1e15, 0.1}); return w; }

int main()
{
  Sim s(base(8, 8, 1, 1)); auto *m = (MaxwellSolverYee *)s.dom(0, 0)->maxwell_solver; m->field_e = 0; m->field_h = 0; m->field_h_at_et = 0; m->field_h_at_et.overlay_set(0);
  s.dom(0, 0)->current->current = 0; s.dom(0, 0)->current->current[2].set(3, 0, 1); s.dom(0, 0)->current->current[2].set(3, 2, 1); m->calc_field_e();
  printf("field of a unit current at the left wall %g, inside %g\n", m->field_e(2, 3, 0), m->field_e(2, 3, 2));
  return m->field_e(2, 3, 2) != 0 && std::fabs(m->field_e(2, 3, 0) / m->field_e(2, 3, 2) - 1) < 1e-9 ? 0 : 1;
}
'''
