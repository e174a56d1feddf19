PROPERTY = "C02"
NEEDS = "Higuera-Cary pusher, magnetic field with both azimuthal and axial components, radial motion"
BREAKS = "the rotation of the momentum is no longer energy-conserving for oblique magnetic fields"
EDITS = [("src/pusher/pusherHC.cpp", "b_cross[1] = b[1]*b[2];", "b_cross[1] = b[2]*b[1] * inv_b;"),
         ("src/pusher/pusherHC.cpp", "      b_cross[0] = b[0]*b[1];\n", "      double inv_b = 1.0 / (1.0 + b2[0]);\n      b_cross[0] = b[0]*b[1];\n")]
CFG = dict(pusher="HC")
DEMO = '''
#include "smbkit.hpp"
using namespace smbkit;
int main()
{
  World w; w.nr = 16; w.nz = 16; w.dr_n = 1; w.dz_n = 1; w.radius = 16e-3; w.longitude = 16e-3; w.t_step = 1e-12;
  w.sp.push_back({"electrons", -1, 1, 1e15, 1}); w.sp.push_back({"ions", 1, 1836, 1e15, 0.1});
  Sim s(w); s.set_fields([](int kind, int c, long, long) { return kind ? (c == 0 ? 4e5 : c == 1 ? -3e5 : 5e5) : 0.; });
  Particle *p = s.add({0, 8.2e-3, 8.4e-3, 1e8, 0.7e8, -1.2e8, 1}); s.bind();
  double v0 = sqrt(p->vel_r * p->vel_r + p->vel_phi * p->vel_phi + p->vel_z * p->vel_z);
  s.dom(0, 0)->push_particles();
  double v1 = sqrt(p->vel_r * p->vel_r + p->vel_phi * p->vel_phi + p->vel_z * p->vel_z);
  printf("speed before %.12g after %.12g\\n", v0, v1);
  return std::fabs(v1 / v0 - 1) < 1e-9 ? 0 : 1;
}
'''
