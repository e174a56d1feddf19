PROPERTY = 'C20'
NEEDS = 'two domains whose electric fields are advanced at the same time by different threads'
BREAKS = 'the handle of the currents is shared among threads, so a domain may use the currents of another one'
EDITS = [('src/maxwellSolver/maxwellSolverYee.cpp', '  Grid3D<double> curr = current->current;', '  static Grid3D<double> curr;\n  curr = current->current;')]
BUILD = {'flags': ['-fsanitize=thread']}
ENV = {'TSAN_OPTIONS': 'exitcode=66 halt_on_error=1'}
DEMO = r'''
#include "smbkit.hpp"
using namespace smbkit;
static World base(long nr, long nz, long a, long b) { World w; w.nr = nr; w.nz = nz; w.dr_n = a; w.dz_n = b; w.radius = nr * 1e-3; w.longitude = nz * 1e-3; w.t_step = 1e-12; w.sp.push_back({"electrons", -1, 1, 1e15, 1}); w.sp.push_back({"ions", 1, 1836, 1e15, 0.1}); return w; }

#include <thread>
#include <atomic>
int main()
{
  Sim s(base(32, 32, 2, 1)); std::atomic<int> go(0);
  for (int a = 0; a < 2; ++a) { auto *m = (MaxwellSolverYee *)s.dom(a, 0)->maxwell_solver; m->field_e = 0; m->field_h = 0; m->field_h_at_et = 0; m->field_h_at_et.overlay_set(0); s.dom(a, 0)->current->current = 1 + a; }
  auto f = [&](int a) { ++go; while (go < 2) {} for (int t = 0; t < 200; ++t) s.dom(a, 0)->maxwell_solver->calc_field_e(); };
  std::thread x(f, 0), y(f, 1); x.join(); y.join(); // the sanitizer reports races, if any
  return 0;
}
'''
