PROPERTY = "C14"
NEEDS = "a rectangle or dot probe that starts inside a domain other than the first one along the axis"
BREAKS = "the rectangle's part is written to a shifted place of the frame, or can not be written at all"
EDITS = [("src/outController.cpp", "            eff_engine_offset.push_back(eff_prb_size[1] + dmn->geometry.cell_dims[1] - prb->dims[1]);",
          "            eff_engine_offset.push_back(z == 0 ? 0 : dmn->geometry.cell_dims[1] + (eff_prb_size[1] & 1) - std::min(prb->dims[1], dmn->geometry.cell_dims[1]));")]
DEMO = '''
#include "smbkit.hpp"
#include "outController.hpp"
using namespace smbkit;
int main()
{
  World w; w.nr = 8; w.nz = 16; w.dr_n = 1; w.dz_n = 2; w.radius = 8e-3; w.longitude = 16e-3; w.t_step = 1e-12;
  w.sp.push_back({"electrons", -1, 1, 1e15, 1}); w.sp.push_back({"ions", 1, 1836, 1e15, 0.1});
  Probe p; p.component = "E/z"; p.shape = "rec"; p.schedule = 1; p.r0 = 1; p.z0 = 11; p.r1 = 5; p.z1 = 14; w.pr.push_back(p);
  Sim s(w);
  HighFive::File *f = new HighFive::File("demo.h5", HighFive::File::Create | HighFive::File::Excl);
  OutController oc(f, s.cfg->geometry, s.cfg->time, s.cfg->probes, s.smb, s.cfg->cfg2value(), false);
  for (int b = 0; b < 2; ++b) for (int i = 0; i < 8; ++i) for (int k = 0; k < 8; ++k) s.dom(0, b)->maxwell_solver->field_e[2].set(i, k, 100 * i + b * 8 + k);
  s.cfg->time->current = 0; oc();
  for (auto &d : f->store().dsets)
    for (int i = 1; i < 5; ++i) for (int k = 11; k < 14; ++k)
    { double got = d.second.data[(i - 1) * 3 + k - 11]; if (got != 100 * i + k) { printf("%s: cell %d,%d holds %g\\n", d.first.c_str(), i, k, got); return 1; } }
  return f->store().dsets.size() == 1 ? 0 : 1;
}
'''
