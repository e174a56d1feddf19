import os
ns = {}; exec(open(os.path.join("/verif/seedkit/bugs", "quit-ignored.py")).read(), ns)
PROPERTY = 'C22'
NEEDS = 'two pauses of the same run'
BREAKS = 'the request to continue is not forgotten, so the second pause ends at once, without being told to: the data file is taken again'
EDITS = [('src/PiCoPiC.cpp', '''          lock_.store(false, std::memory_order_relaxed);
          recreate_writers_.store(false, std::memory_order_relaxed);
        }
''', '''          lock_.store(false, std::memory_order_relaxed);
        }
''')]
BUILD = {'with_main': True}
DEMO = ns['COMMON'] + r'''
static bool open_now() { for (auto &s : HighFive::Store::all()) if (s.second->open) return true; return false; }
static long n = 0; static int stage = 0, held = 0;
static void tick() { ++n; if (stage == 0 && n > 60) { stage = 1; raise(SIGUSR1); } else if (stage == 3 && !open_now()) {} }
// seconds of a pause: continue after three of them
extern "C" unsigned sleep(unsigned)
{
  if (stage == 1 || stage == 4) { if (!open_now()) ++held; if (held == 3 || (stage == 4 && open_now())) { if (held < 3) _exit(7); held = 0; ++stage; raise(SIGUSR2); } }
  else if (stage == 2) { stage = 4; raise(SIGUSR1); }
  return 0;
}
int main()
{
  pid_t p = fork(); if (!p) { alarm(60); int f = open("/dev/null", O_WRONLY); dup2(f, 1); dup2(f, 2); vshim::on_tick = tick; vshim::on_data = tick; int rc = run(base()); _exit(rc ? rc : stage >= 5 ? 0 : 8); }
  int st = 0; waitpid(p, &st, 0); printf("exit code %d\n", WIFEXITED(st) ? WEXITSTATUS(st) : -1);
  return WIFEXITED(st) && WEXITSTATUS(st) == 0 ? 0 : 1;
}
'''
