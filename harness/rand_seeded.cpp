// Deterministic replacement of src/math/rand.cpp: same interface and ranges, seedable.
#include <cstdint>
#include <cmath>
#include <vector>
#include "math/rand.hpp"
namespace vrand
{
  uint64_t state = 88172645463325252ULL;
  std::vector<double> queue; // values to be returned before any others
  void seed(uint64_t s) { state = s * 0x9E3779B97F4A7C15ULL + 0x1234567ULL; queue.clear(); }
  void push(double v) { queue.push_back(v); }
  static uint64_t next()
  {
    uint64_t z = (state += 0x9E3779B97F4A7C15ULL);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
    return z ^ (z >> 31);
  }
  double u01()
  {
    if (!queue.empty()) { double v = queue.front(); queue.erase(queue.begin()); return v; }
    return (double)(next() >> 11) * 0x1.0p-53;
  }
}
namespace math::random
{
  double uniform() { return vrand::u01(); }
  double uniform1() { return vrand::u01() * (1. - 1e-11); }
  double uniform2() { return vrand::u01() * 2. - 1.; }
  double uniform_angle() { return vrand::u01() * 2. * constant::PI; }
  double normal(double stddev)
  {
    double u = 1. - vrand::u01(), v = vrand::u01();
    return stddev * std::sqrt(-2. * std::log(u)) * std::cos(2. * M_PI * v);
  }
  double random_reverse(double vel, int power)
  {
    int n = (int)std::floor(vel); double r = 0, f = 1.;
    while (n >= 1) { f /= power; r += (n % power) * f; n /= power; }
    return r;
  }
}
