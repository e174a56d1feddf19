// Runs the program once and stores what it wrote: h_dump CONFIG OUT SEED
#include "smbkit.hpp"
#include <highfive/H5File.hpp>
int picopic_main(int argc, char **argv);
int main(int argc, char **argv)
{
  if (argc < 4) return 2; vshim::fatal_aborts = false; vrand::seed(strtoull(argv[3], nullptr, 10));
  std::vector<std::string> a{"picopic", "-f", argv[1]}; std::vector<char *> v; for (auto &s : a) v.push_back(&s[0]); v.push_back(nullptr);
  try { if (picopic_main(3, v.data())) return 3; } catch (std::exception &e) { fprintf(stderr, "%s\n", e.what()); return 4; }
  FILE *f = fopen(argv[2], "wb"); if (!f) return 2;
  auto text = [&](const std::string &s) { long n = (long)s.size(); fwrite(&n, sizeof n, 1, f); fwrite(s.data(), 1, s.size(), f); };
  auto num = [&](long n) { fwrite(&n, sizeof n, 1, f); };
  auto &all = HighFive::Store::all(); num((long)all.size());
  for (auto &s : all)
  {
    text(s.first); num((long)s.second->sattrs.size()); for (auto &x : s.second->sattrs) { text(x.first); text(x.second); }
    num((long)s.second->dsets.size());
    for (auto &d : s.second->dsets) { text(d.first); num((long)d.second.dims.size()); for (size_t x : d.second.dims) num((long)x); num((long)d.second.data.size()); fwrite(d.second.data.data(), sizeof(double), d.second.data.size(), f); }
  }
  fclose(f); return 0;
}
