PROPERTY = "C08"
NEEDS = "a macroparticle that leaves its domain through the corner, radially and axially in the same step"
BREAKS = "a particle crossing the corner of a domain stays with the domain it left instead of the one that contains it"
EDITS = [("src/SMB.cpp", "else if (i_dst != i || j_dst != j) // check that destination domain is different, than source",
          "else if ((i_dst != i) != (j_dst != j)) // check that destination domain is different, than source")]
CFG = {}
DEMO = '''
#include "smbkit.hpp"
using namespace smbkit;
int main()
{
  World w; w.nr = 16; w.nz = 16; w.dr_n = 2; w.dz_n = 2; w.radius = 16e-3; w.longitude = 16e-3; w.t_step = 1e-13;
  w.sp.push_back({"electrons", -1, 1, 1e15, 1}); w.sp.push_back({"ions", 1, 1836, 1e15, 0.1});
  Sim s(w);
  s.add_to({0, 8.3e-3, 8.4e-3, 0, 0, 0, 1}, 0, 0); s.bind(); s.smb->particles_runaway_collector();
  size_t here = s.specie(1, 1, 0)->particles.size(), was = s.specie(0, 0, 0)->particles.size();
  printf("particle in its own domain: %zu, left behind: %zu\\n", here, was);
  return here == 1 && was == 0 ? 0 : 1;
}
'''
