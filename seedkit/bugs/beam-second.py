PROPERTY = "C12"
NEEDS = "a beam of several bunches with gaps and a start time later than zero"
BREAKS = "the second and later bunches are injected at the wrong time (their start time is counted once per bunch)"
EDITS = [("src/beamP.cpp", "double bunch_start_time = start_time + (bunch_length + bunches_distance) / velocity * current_bunch_number;",
          "double bunch_start_time = start_time + (bunch_length + bunches_distance) / velocity * current_bunch_number\n      + start_time * (current_bunch_number > 1);")]
DEMO = '''
#include "smbkit.hpp"
using namespace smbkit;
int main()
{
  World w; w.nr = 8; w.nz = 32; w.dr_n = 1; w.dz_n = 1; w.radius = 8e-3; w.longitude = 32e-3; w.t_step = 1e-12; w.macro = 4000;
  w.sp.push_back({"electrons", -1, 1, 1e15, 1}); w.sp.push_back({"ions", 1, 1836, 1e15, 0.1});
  w.bm.push_back({"beam_electrons", -1, 1, 1e8, 5e-12, 3, 1e-3, 2e-3, 3e-3, 1e14});
  Sim s(w); SpecieP *b = s.specie(0, 0, 2); std::vector<int> n;
  for (int k = 0; k < 120; ++k) { s.cfg->time->current = k * 1e-12; size_t q = b->particles.size(); s.smb->inject_beam(); n.push_back(b->particles.size() - q); }
  // bunches last 20 steps, gaps 10 steps, start after 5 steps
  int per[3] = {0, 0, 0}, other = 0;
  for (int k = 0; k < 120; ++k) { int ph = k - 5; int q = ph >= 0 ? ph / 30 : -1; if (ph >= 0 && q < 3 && ph % 30 <= 20) per[q] += n[k]; else other += n[k]; }
  printf("injected %d %d %d, outside of bunches %d\\n", per[0], per[1], per[2], other);
  return other <= 0 && per[0] > 10 && std::abs(per[2] - per[0]) <= per[0] / 10 + 2 ? 0 : 1;
}
'''
