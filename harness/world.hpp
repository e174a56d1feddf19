// Shared generators: configurations, geometries, particles; plus small numeric helpers.
#ifndef WORLD_HPP
#define WORLD_HPP
#include "pbt.hpp"
#include <thread>
#include <memory>
#include <sys/syscall.h>
#include <sys/stat.h>
#include <fcntl.h>
#include "defines.hpp"
#include "constant.hpp"
#include "msg.hpp"
#include "geometry.hpp"
#include "timeSim.hpp"
#include "algo/grid.hpp"
#include "algo/grid3d.hpp"
#include "specieP.hpp"
#include "beamP.hpp"
#include "cfg.hpp"
#include "domain.hpp"
#include "SMB.hpp"

namespace vrand { void seed(uint64_t s); }

namespace world
{
  using pbt::Src; using pbt::Ctx;
  static const double C0 = 3e8, EPS = 8.85e-12, MU = 1.26e-6, QE = 1.6e-19, ME = 9.1e-31;

  struct Species { std::string name; double charge, mass, density, temperature; };
  struct Beam
  {
    std::string name; double charge, mass, velocity, start_time; int amount; double distance, length, radius, density;
  };
  struct Probe { std::string component, specie, shape; int schedule; long r0, z0, r1, z1; };

  struct World
  {
    double radius, longitude; long nr, nz, dr_n, dz_n;
    double pml_l = 0, pml_r = 0, pml_o = 0, s1 = 1e-5, s2 = 1.5;
    double t_start = 0, t_end = 1e-10, t_step = 1e-13;
    double macro = 1000; double ratio = 2;
    std::vector<Species> sp; std::vector<Beam> bm; std::vector<Probe> pr;
    std::string ef = "none", hf = "none"; std::vector<double> ep, hp;
    std::string data_root = "."; std::string log_file = "log"; std::string comment = "No comments"; bool compress = false; int level = 1;
    static std::string n(double v) { char b[64]; snprintf(b, 64, "%.17g", v); return b; }
    std::string json() const
    {
      std::ostringstream o;
      auto arr = [&](const std::vector<double> &v) { std::string s = "["; for (size_t i = 0; i < v.size(); ++i) s += (i ? "," : "") + n(v[i]); return s + "]"; };
      o << "{\"macro_amount\":" << n(macro) << ",\"beam_plasma_macro_size_ratio\":" << n(ratio)
        << ",\"log_file\":\"" << log_file << "\",\"comment\":\"" << comment << "\",\"geometry\":{\"size\":{\"radius\":" << n(radius)
        << ",\"longitude\":" << n(longitude) << "},\"grid\":{\"radius\":" << nr << ",\"longitude\":" << nz
        << "},\"domains_amount\":{\"radius\":" << dr_n << ",\"longitude\":" << dz_n << "},\"pml\":{\"left_wall\":" << n(pml_l)
        << ",\"right_wall\":" << n(pml_r) << ",\"outer_wall\":" << n(pml_o) << ",\"sigma_1\":" << n(s1) << ",\"sigma_2\":" << n(s2)
        << "}},\"time\":{\"start\":" << n(t_start) << ",\"end\":" << n(t_end) << ",\"step\":" << n(t_step)
        << "},\"external_fields\":{\"electric\":{\"formfactor\":\"" << ef << "\",\"params\":" << arr(ep)
        << "},\"magnetic\":{\"formfactor\":\"" << hf << "\",\"params\":" << arr(hp) << "}},\"particles\":[";
      for (size_t i = 0; i < sp.size(); ++i)
        o << (i ? "," : "") << "{\"name\":\"" << sp[i].name << "\",\"charge\":" << n(sp[i].charge) << ",\"mass\":" << n(sp[i].mass)
          << ",\"density\":" << n(sp[i].density) << ",\"temperature\":" << n(sp[i].temperature) << "}";
      o << "],\"beams\":[";
      for (size_t i = 0; i < bm.size(); ++i)
        o << (i ? "," : "") << "{\"name\":\"" << bm[i].name << "\",\"charge\":" << n(bm[i].charge) << ",\"mass\":" << n(bm[i].mass)
          << ",\"velocity\":" << n(bm[i].velocity) << ",\"start_time\":" << n(bm[i].start_time) << ",\"bunch\":{\"amount\":" << bm[i].amount
          << ",\"distance\":" << n(bm[i].distance) << ",\"length\":" << n(bm[i].length) << ",\"radius\":" << n(bm[i].radius)
          << ",\"density\":" << n(bm[i].density) << ",\"profile\":{\"radial\":\"rectangle\",\"longitudinal\":\"rectangle\"}}}";
      o << "],\"data\":{\"data_root\":\"" << data_root << "\",\"compression\":{\"use\":" << (compress ? "true" : "false") << ",\"level\":" << level << "},\"probes\":[";
      for (size_t i = 0; i < pr.size(); ++i)
      {
        auto &p = pr[i];
        o << (i ? "," : "") << "{\"component\":\"" << p.component << "\",";
        if (!p.specie.empty()) o << "\"specie\":\"" << p.specie << "\",";
        o << "\"schedule\":" << p.schedule << ",\"shape\":\"" << p.shape << "\",";
        if (p.shape == "rec") o << "\"start\":{\"r\":" << p.r0 << ",\"z\":" << p.z0 << "},\"end\":{\"r\":" << p.r1 << ",\"z\":" << p.z1 << "}}";
        else if (p.shape == "col") o << "\"z\":" << p.z0 << "}";
        else if (p.shape == "row") o << "\"r\":" << p.r0 << "}";
        else o << "\"r\":" << p.r0 << ",\"z\":" << p.z0 << "}";
      }
      o << "]}}";
      return o.str();
    }
  };

  struct MemFile
  {
    int fd; std::string path;
    explicit MemFile(const std::string &content)
    {
      fd = (int)syscall(SYS_memfd_create, "cfg", 0);
      if (fd < 0 || ::write(fd, content.data(), content.size()) != (ssize_t)content.size()) { perror("memfd"); _exit(3); }
      path = "/proc/self/fd/" + std::to_string(fd);
    }
    ~MemFile() { ::close(fd); }
  };
  inline Cfg *make_cfg(const std::string &json) { MemFile f(json); return new Cfg(f.path); }
  inline Cfg *make_cfg(const World &w) { return make_cfg(w.json()); }

  // a grid of R x Z domains, each a x b cells
  inline World gen_grid(Src &g, int max_dom_r, int max_dom_z, int min_cells, int max_cells, bool even = true)
  {
    World w;
    bool wide = max_dom_r > 1 && g.chance(1, 14); // now and then many domains or wide ones
    if (wide) { if (g.flip()) { max_dom_r = g.flip() ? 8 : max_dom_r; max_dom_z = 8; } else max_cells *= 4; }
    static const std::vector<long> doms = {1, 2, 4, 6, 8};
    auto pick = [&](int m) { std::vector<long> v; for (long x : doms) if (x <= m) v.push_back(x); return g.pick(v); };
    w.dr_n = pick(max_dom_r); w.dz_n = pick(max_dom_z);
    w.nr = w.dr_n * g.range(min_cells, max_cells);
    w.nz = w.dz_n * g.range(min_cells, max_cells);
    if (!wide && max_dom_z > 1 && g.chance(1, 40)) // a long and narrow one
    {
      bool z = g.flip(); (z ? w.dr_n : w.dz_n) = 1; (z ? w.nr : w.nz) = min_cells; long &d = z ? w.dz_n : w.dr_n; (z ? w.nz : w.nr) = d * g.range(100 / d, 700 / d);
    }
    w.radius = (double)w.nr * g.pick(std::vector<double>{1e-3, 5.859375e-4, 2.5e-4, 1e-2});
    w.longitude = (double)w.nz * g.pick(std::vector<double>{1e-3, 5.859375e-4, 4e-4, 2e-2});
    double dmin = std::min(w.radius / w.nr, w.longitude / w.nz);
    w.t_step = dmin / C0 * g.pick(std::vector<double>{0.3, 0.5, 0.1});
    w.sp.push_back({"electrons", -1, 1, 1e15, 1});
    w.sp.push_back({"ions", 1, 1836, 1e15, 0.1});
    return w;
  }
  inline std::string show(const World &w)
  {
    std::ostringstream o;
    o << "grid " << w.nr << "x" << w.nz << " cells in " << w.dr_n << "x" << w.dz_n << " domains, size " << w.radius << "x" << w.longitude;
    return o.str();
  }
  inline TimeSim *mk_time(double step, double cur = 0, double end = 1)
  {
    TimeSim *t = new TimeSim(); t->start = 0; t->current = cur; t->step = step; t->end = end; t->print_header_counter = 0; return t;
  }
  inline Particle *mkp(double r, double z, double vr, double vp, double vz, double w, unsigned short id = 0)
  {
    Particle *p = new Particle();
    p->pos_r = r; p->pos_phi = 0; p->pos_z = z; p->pos_old_r = r; p->pos_old_phi = 0; p->pos_old_z = z;
    p->vel_r = vr; p->vel_phi = vp; p->vel_z = vz; p->weight = w; p->sin = 0; p->specie_id = id;
    return p;
  }
}
#endif
