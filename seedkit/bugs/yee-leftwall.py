PROPERTY = "C06"
NEEDS = "absorbing layer on the left wall and a wave that reaches it off the axis"
BREAKS = "the axial electric field at the left wall is not damped by the layer's conductivity"
EDITS = [("src/maxwellSolver/maxwellSolverYee.cpp", "      double sigma_t = sigma(i, k) * time->step;", "      double sigma_t = sigma(0, k - 1) * time->step;", 1)]
DEMO = '''
#include "smbkit.hpp"
using namespace smbkit;
int main()
{
  World w; w.nr = 12; w.nz = 12; w.dr_n = 1; w.dz_n = 1; w.radius = 12e-3; w.longitude = 12e-3; w.t_step = 1e-12;
  w.pml_l = 3; w.pml_r = 3; w.pml_o = 3; w.s1 = 1e-5; w.s2 = 1.5; // layers
  w.sp.push_back({"electrons", -1, 1, 1e15, 1}); w.sp.push_back({"ions", 1, 1836, 1e15, 0.1});
  w.pml_l = 0.25; w.pml_r = 0.25; w.pml_o = 0.25;
  Sim s(w);
  MaxwellSolverYee *m = (MaxwellSolverYee *)s.dom(0, 0)->maxwell_solver;
  m->field_e = 0; m->field_h_at_et = 0; m->field_h = 0; s.dom(0, 0)->current->current = 0;
  for (int i = 0; i < 11; ++i) m->field_e[2].set(i, 0, 1);
  m->calc_field_e();
  bool ok = true;
  for (int i = 0; i < 11; ++i)
  {
    double st = m->sigma(i, 0) * w.t_step, e2 = 2 * m->epsilon(i, 0), want = (e2 - st) / (e2 + st);
    if (!(st > 0) || std::fabs(m->field_e(2, i, 0) - want) > 1e-9) { printf("row %d: %g instead of %g\\n", i, m->field_e(2, i, 0), want); ok = false; }
  }
  return ok ? 0 : 1;
}
'''
