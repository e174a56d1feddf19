PROPERTY = 'C19'
NEEDS = 'a multiple of a number that is not an integer'
BREAKS = 'the result is a multiple of the rounded number only'
EDITS = [('src/algo/common.cpp', '    while ( res / what != floor(res / what) )', '    while ( res % (unsigned int)what != 0 )')]
DEMO = r'''
#include "smbkit.hpp"
using namespace smbkit;
static World base(long nr, long nz, long a, long b) { World w; w.nr = nr; w.nz = nz; w.dr_n = a; w.dz_n = b; w.radius = nr * 1e-3; w.longitude = nz * 1e-3; w.t_step = 1e-12; w.sp.push_back({"electrons", -1, 1, 1e15, 1}); w.sp.push_back({"ions", 1, 1836, 1e15, 0.1}); return w; }

#include "algo/common.hpp"
int main() { unsigned int a = algo::common::nearest_divide(7, 2.5), b = algo::common::nearest_divide(7, 4); printf("%u %u\n", a, b); return a == 10 && b == 8 ? 0 : 1; }
'''
