PROPERTY = 'C22'
NEEDS = 'termination by SIGQUIT (control+backslash) while the run goes on'
BREAKS = 'the signal is caught but ignored: the run goes on to its end instead of being terminated with the number of the signal'
EDITS = [('src/PiCoPiC.cpp', '''  if ( signum == SIGINT
       || signum == SIGQUIT
       || signum == SIGPIPE
''', '''  if ( signum == SIGINT
       || signum == SIGPIPE
''')]
BUILD = {'with_main': True}
COMMON = r'''
#include "smbkit.hpp"
#include <highfive/H5File.hpp>
#include <sys/wait.h>
#include <signal.h>
using namespace smbkit;
int picopic_main(int argc, char **argv);
static World base() { World w; w.nr = 8; w.nz = 8; w.dr_n = 1; w.dz_n = 1; w.radius = 8e-3; w.longitude = 8e-3; w.t_step = 1e-12; w.t_end = 10.5e-12; w.macro = 100; w.data_root = "out"; w.sp.push_back({"electrons", -1, 1, 1e13, 1}); w.sp.push_back({"ions", 1, 1836, 1e13, 0.1}); Probe p; p.component = "E/r"; p.schedule = 1; p.shape = "rec"; p.r0 = p.z0 = 0; p.r1 = p.z1 = 4; w.pr.push_back(p); return w; }
static int run(const World &w) { MemFile cfg(w.json()); std::string a[3] = {"picopic", "-f", cfg.path}; char *v[4] = {&a[0][0], &a[1][0], &a[2][0], nullptr}; vshim::fatal_aborts = false; return picopic_main(3, v); }
'''
DEMO = COMMON + r'''
static long n = 0;
static void tick() { if (++n == 60) raise(SIGQUIT); }
extern "C" unsigned sleep(unsigned) { return 0; }
int main()
{
  pid_t p = fork(); if (!p) { alarm(60); int f = open("/dev/null", O_WRONLY); dup2(f, 1); dup2(f, 2); vshim::on_tick = tick; vshim::on_data = tick; exit(run(base())); }
  int st = 0; waitpid(p, &st, 0); printf("exit code %d\n", WIFEXITED(st) ? WEXITSTATUS(st) : -1);
  return WIFEXITED(st) && WEXITSTATUS(st) == SIGQUIT ? 0 : 1;
}
'''
