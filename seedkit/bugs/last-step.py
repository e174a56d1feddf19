import os
ns = {}; exec(open(os.path.join("/verif/seedkit/bugs", "quit-ignored.py")).read(), ns)
PROPERTY = 'C23'
NEEDS = 'an end of the simulation, that is not in the second half of a step'
BREAKS = 'the last step is not made and its frame not written'
EDITS = [('src/PiCoPiC.cpp', 'while (sim_time_clock->current <= sim_time_clock->end)', 'while (sim_time_clock->current + 0.45 * sim_time_clock->step <= sim_time_clock->end)')]
BUILD = {'with_main': True}
DEMO = ns['COMMON'] + r'''
int main()
{
  long got[2];
  for (int k = 0; k < 2; ++k)
  {
    int fd[2]; if (pipe(fd)) return 2; pid_t p = fork();
    if (!p) { alarm(60); int f = open("/dev/null", O_WRONLY); dup2(f, 1); dup2(f, 2); World w = base(); w.t_end = (k ? 10.2 : 10.6) * 1e-12; int rc = run(w); long n = 0; for (auto &s : HighFive::Store::all()) for (auto &d : s.second->dsets) n = (long)d.second.dims[0]; if (rc || write(fd[1], &n, sizeof n) < 0) _exit(3); _exit(0); }
    int st = 0; waitpid(p, &st, 0); got[k] = -1; if (!st && read(fd[0], &got[k], sizeof got[k]) < 0) return 2;
  }
  printf("frames %ld %ld\n", got[0], got[1]); return got[0] == 11 && got[1] == 11 ? 0 : 1;
}
'''
