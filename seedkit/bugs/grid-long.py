PROPERTY = 'C01'
NEEDS = 'radially adjacent domains that are longer along the axis than along the radius'
BREAKS = 'the cells shared by such domains are stitched along a part of their border only'
EDITS = [('include/algo/grid.hpp', '        for (unsigned int i = o_s; i < y_real_size - o_s; ++i)', '        for (unsigned int i = o_s; i < (y_real_size < x_real_size ? y_real_size : x_real_size) - o_s; ++i)')]
DEMO = r'''
#include "smbkit.hpp"
using namespace smbkit;
static World base(long nr, long nz, long a, long b) { World w; w.nr = nr; w.nz = nz; w.dr_n = a; w.dz_n = b; w.radius = nr * 1e-3; w.longitude = nz * 1e-3; w.t_step = 1e-12; w.sp.push_back({"electrons", -1, 1, 1e15, 1}); w.sp.push_back({"ions", 1, 1836, 1e15, 0.1}); return w; }

int main()
{
  Grid<double> a(5, 9, 2), b(5, 9, 2); a = 1; b = 2; a.overlay_set(10); b.overlay_set(20); a.overlay_x(b); bool ok = true;
  for (int d = 0; d < 2; ++d) for (int k = 0; k < 9; ++k)
  { double l = a(5 + d, k), r = b(d, k); if (l != r || l != 12) { printf("shared cell %d,%d holds %g and %g instead of 12\n", d, k, l, r); ok = false; } }
  return ok ? 0 : 1;
}
'''
