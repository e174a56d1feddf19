PROPERTY = 'C17'
NEEDS = 'external electric and magnetic fields at once, of different amplitude'
BREAKS = 'the magnetic field gets the amplitude of the electric one'
EDITS = [('src/SMB.cpp', '                                      cfg->external_fields[1].params);', '                                      cfg->external_fields[!cfg->external_fields[0].params.empty() ? 0 : 1].params);')]
CFG = {'external': True}
DEMO = r'''
#include "smbkit.hpp"
using namespace smbkit;
static World base(long nr, long nz, long a, long b) { World w; w.nr = nr; w.nz = nz; w.dr_n = a; w.dz_n = b; w.radius = nr * 1e-3; w.longitude = nz * 1e-3; w.t_step = 1e-12; w.sp.push_back({"electrons", -1, 1, 1e15, 1}); w.sp.push_back({"ions", 1, 1836, 1e15, 0.1}); return w; }

int main()
{
  World w = base(8, 8, 1, 1); w.ef = "const_z"; w.hf = "const_z"; w.ep = {1e4}; w.hp = {2e3}; Sim s(w); s.dom(0, 0)->apply_external_fields();
  double e = s.dom(0, 0)->external_fields->get_field_e(4.3e-3, 4.3e-3)[2], h = s.dom(0, 0)->external_fields->get_field_h(4.3e-3, 4.3e-3)[2]; printf("fields %g %g\n", e, h);
  return std::fabs(e / 1e4 - 0.9) < 0.2 && std::fabs(h / 2e3 - 0.9) < 0.2 ? 0 : 1;
}
'''
