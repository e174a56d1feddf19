PROPERTY = 'C07'
NEEDS = 'an area with at least four domains along the radius'
BREAKS = 'currents of radially adjacent domains in the last column of domains are not added together from the second pair on'
EDITS = [('src/SMB.cpp', '        for (unsigned int j = idy; j < z_domains; j+=2)', '        for (unsigned int j = idy; j < z_domains - (z_domains > 1 && i > 1); j+=2)', 1)]
DEMO = r'''
#include "smbkit.hpp"
using namespace smbkit;
static World base(long nr, long nz, long a, long b) { World w; w.nr = nr; w.nz = nz; w.dr_n = a; w.dz_n = b; w.radius = nr * 1e-3; w.longitude = nz * 1e-3; w.t_step = 1e-12; w.sp.push_back({"electrons", -1, 1, 1e15, 1}); w.sp.push_back({"ions", 1, 1836, 1e15, 0.1}); return w; }

int main()
{
  Sim s(base(16, 8, 4, 2)); for (int a = 0; a < 4; ++a) for (int b = 0; b < 2; ++b) { s.dom(a, b)->current->current = 1; s.dom(a, b)->current->current.overlay_set(1); }
  s.smb->current_overlay(); bool ok = true;
  for (int b = 0; b < 2; ++b) for (int a = 0; a < 3; ++a) { double l = s.dom(a, b)->current->current(0, 3, 1 + b), r = s.dom(a + 1, b)->current->current(0, 0, 1 + b); if (l != 2 || r != 2) { printf("next to the border of domains %d,%d and %d,%d: %g %g instead of 2\n", a, b, a + 1, b, l, r); ok = false; } }
  return ok ? 0 : 1;
}
'''
