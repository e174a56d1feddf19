PROPERTY = 'C25'
NEEDS = 'a run of more than a day'
BREAKS = 'the hours of the elapsed time, that the progress table shows, count the whole days again: "1d 25h 1m 1s" instead of "1d 1h 1m 1s"'
EDITS = [('src/algo/common.cpp', 'hr = (int)((time_sec - d * sec_in_day) / sec_in_hr);', 'hr = (int)(time_sec / sec_in_hr);')]
CFG = {}
DEMO = r'''
#include <cstdio>
#include <ctime>
#include <string>
#include "algo/common.hpp"
#include "defines.hpp"
static long shown = 0;
extern "C" time_t time(time_t *t) { time_t v = constant::SIMULATION_START_TIME + shown; if (t) *t = v; return v; }
int main()
{
  shown = 90061;
  std::string s = algo::common::get_simulation_duration();
  printf("%s\n", s.c_str());
  return s.find("25h") == std::string::npos && s.find("1d 1h 1m") == 0 ? 0 : 1;
}
'''
