PROPERTY = "C05"
NEEDS = "a flight that crosses a radial and an axial cell edge in one step, inwards and backwards, axial edge first"
BREAKS = "one part of the current of such a flight is deposited to the wrong column, so charge continuity fails"
EDITS = [("src/current/currentVB.cpp", "simple_current_distribution(r1, z1, r2, z2,i_n + 1, k_n, p_charge);",
          "simple_current_distribution(r1, z1, r2, z2,i_n + 1, k_n + 1, p_charge);", 1)]
DEMO = '''
#include "smbkit.hpp"
using namespace smbkit;
// total axial current of a flight, weighted with node volumes, equals charge * displacement / time
static double flight(double r0, double z0, double r1, double z1)
{
  World w; w.nr = 16; w.nz = 16; w.dr_n = 1; w.dz_n = 1; w.radius = 16e-3; w.longitude = 16e-3; w.t_step = 1e-12;
  w.sp.push_back({"electrons", -1, 1, 1e15, 1}); w.sp.push_back({"ions", 1, 1836, 1e15, 0.1});
  Sim s(w); Particle *p = s.add({0, r0, z0, 0, 0, 0, 1e6}); p->pos_r = r1; p->pos_z = z1; s.bind();
  Domain *d = s.dom(0, 0); d->current->current = 0; d->current->current.overlay_set(0); ((CurrentVB *)d->current)->current_distribution();
  // the charge that passed every plane between nodes k and k+1
  double worst = 0;
  for (int k = 0; k < 15; ++k)
  {
    double q = 0; for (int i = 0; i < 16; ++i) { double V = (i ? 2 * i : 0.25) * M_PI * 1e-3 * 1e-3 * 1e-3; q += s.j(2, i, k) * V / 1e-3 * 1e-12; }
    auto sh = [&](double z) { double t = z / 1e-3 - k; return t <= 0 ? 0. : t >= 1 ? 1. : t; }; // share of the particle beyond node k
    double exp = -1.6e-19 * 1e6 * (sh(z1) - sh(z0)); worst = std::max(worst, std::fabs(q - exp) / (1.6e-13));
  }
  return worst;
}
int main()
{
  double a = flight(5.2e-3, 7.1e-3, 4.8e-3, 6.7e-3), b = flight(4.8e-3, 6.7e-3, 5.2e-3, 7.1e-3), c = flight(5.3e-3, 7.1e-3, 4.9e-3, 6.6e-3);
  printf("charge not carried: %g %g %g\\n", a, b, c);
  return a < 1e-3 && b < 1e-3 && c < 1e-3 ? 0 : 1;
}
'''
