// The common basis: relativity, plasma formulas, vectors, random numbers, text and directories.
#include "smbkit.hpp"
#include <filesystem>
#include <thread>
#include "algo/common.hpp"
#include "math/rand.hpp"
#include "phys/rel.hpp"
#include "phys/plasma.hpp"
using namespace smbkit;

namespace
{
  typedef long double ld;
  const ld C = 3e8L;
  bool refused(const std::function<void()> &f) { try { f(); } catch (vshim::Fatal &) { return true; } return false; }
  void near(double got, ld want, ld tol, const char *what) { if (!(fabsl((ld)got - want) <= tol * fabsl(want))) pbt::failf("%s is %.17g instead of %.17Lg", what, got, want); }
  double ks(std::vector<double> v, const std::function<double(double)> &F)
  {
    std::sort(v.begin(), v.end()); double d = 0; size_t n = v.size();
    for (size_t i = 0; i < n; ++i) { double f = F(v[i]); d = std::max(d, std::max(fabs(f - (double)i / n), fabs((double)(i + 1) / n - f))); }
    return d;
  }
}

PBT_PROP(relativity, "velocities from rest up to 1-1e-9 of the light's, and beyond, in any direction, masses over 30 decades; non-trivial: faster than 1e5")
{
  ld beta = 0; int how = (int)g.range(0, 3);
  if (how == 0) beta = g.real(0, 1); else if (how == 1) beta = powl(10, g.real(-9, 0)); else if (how == 2) beta = 1 - powl(10, g.real(-9, -1)); else beta = g.real(0.15, 0.18);
  double a = g.real(0, M_PI), p = g.real(0, 2 * M_PI), m = g.decade(-35, -5); if (g.chance(1, 8)) a = g.flip() ? 0 : M_PI / 2;
  vector3d<double> v((double)(beta * C * sinl(a) * cosl(p)), (double)(beta * C * sinl(a) * sinl(p)), (double)(beta * C * cosl(a)));
  ld v2 = (ld)v[0] * v[0] + (ld)v[1] * v[1] + (ld)v[2] * v[2]; double v2d = (double)v2; ctx.d << "velocity " << v[0] << "," << v[1] << "," << v[2] << " mass " << m;
  if (v2d >= 9e16) throw pbt::Discard();
  ld gm = 1 / sqrtl(1 - v2 / (C * C)), tol = 1e-14L + 4e-16L * gm * gm;
  near(phys::rel::lorenz_factor(v2d), gm, tol, "Lorentz factor");
  vector3d<double> q = phys::rel::momentum(m, v); for (int i = 0; i < 3; ++i) near(q[i], gm * m * v[i], tol, "momentum");
  near(phys::rel::momentum_0(m, v), gm * m * C, tol, "zeroth momentum");
  ld kin = gm * gm / (gm + 1) * v2 * m, cl = 0.5L * m * v2; // (gamma - 1) m c^2 without cancellation
  double e = phys::rel::energy(m, v2d), em = phys::rel::energy_m(m, (double)(gm * gm * m * m * v2));
  ld etol = 1e-13L + 4e-16L * gm * gm * (1 + 2 / (gm - 1 + 1e-30L));
  if (v2 > 5e7L * 5e7L * 1.000001L) near(e, kin, etol, "energy"); else if (!(fabsl(e - kin) <= etol * kin) && !(fabsl(e - cl) <= 1e-13L * cl)) pbt::failf("energy is %.17g, neither %.17Lg nor the classical %.17Lg", e, kin, cl);
  ld p2 = gm * gm * m * m * v2, emc = 0.5L * p2 / m;
  ld emtol = 1e-13L + 8e-16L * gm / (gm - 1 + 1e-30L);
  if (p2 > 5e7L * 5e7L * 1.000001L * m * m) near(em, kin, emtol, "energy from momentum"); else if (!(fabsl(em - kin) <= emtol * kin) && !(fabsl(em - emc) <= 1e-13L * emc)) pbt::failf("energy from momentum is %.17g, neither %.17Lg nor the classical %.17Lg", em, kin, emc);
  ld u2 = gm * gm * v2; near(phys::rel::lorenz_factor_inv((double)u2), 1 / gm, 1e-14L, "inverse Lorentz factor");
  double over = g.chance(1, 4) ? 9e16 * (1 + g.decade(-12, 3)) : 0;
  if (over && !refused([&] { phys::rel::lorenz_factor(over); })) pbt::failf("squared velocity %.17g above the light's was not refused", over);
  if (!refused([&] { phys::rel::momentum(0, v); })) pbt::fail("zero mass was not refused");
  if (v2 > 1e10L) ctx.nontrivial(ctx.d.str());
}

PBT_PROP(plasma, "densities of 1e6..1e30, temperatures of 1e-3..1e6 eV, masses and velocities over many decades; non-trivial: every case")
{
  double ne = g.decade(6, 30), ni = g.decade(6, 30), te = g.decade(-3, 6), ti = g.decade(-3, 6); ctx.d << "densities " << ne << " " << ni << " temperatures " << te << " " << ti;
  if (g.chance(1, 2)) ni = ne;
  const ld q = 1.602e-19L, e0 = 8.854e-12L, me = 9.109e-31L, h = 1.05457e-34L;
  double d = phys::plasma::debye_length(ne, ni, te, ti); near(d, 1 / sqrtl(q / e0 * ((ld)ne / te + (ld)ni / ti)), 2e-3L, "Debye length");
  near(phys::plasma::plasma_frequency(ne), sqrtl(ne / e0 / me) * q, 2e-3L, "plasma frequency");
  double ma = g.decade(-31, -25), mb = g.decade(-31, -25), v = g.decade(0, 8); ld cl = logl((ld)d * ma / ((ld)ma + mb) * mb * v / h), L = std::max((ld)2, cl);
  double got = phys::plasma::coulomb_logarithm(ma, mb, d, v); if (!(fabsl(got - L) <= 1e-3L)) pbt::failf("Coulomb logarithm is %.9g instead of %.9Lg", got, L);
  double ea = g.pick(std::vector<double>{-1, 1, 2, 5}) * 1.6e-19, eb = g.pick(std::vector<double>{-1, 1, 3}) * 1.6e-19, p = g.decade(-28, -18);
  near(phys::plasma::collision_freqency(ea, eb, ne, got, p, v), powl((ld)ea * eb, 2) * ne * got / (8 * M_PIl * 8.85e-12L * 8.85e-12L * (ld)p * p * v), 3e-3L, "collision frequency");
  double bad = g.flip() ? 0 : -ne; if (!refused([&] { phys::plasma::debye_length(bad, ni, te, ti); }) || !refused([&] { phys::plasma::debye_length(ne, bad, te, ti); })) pbt::failf("density %g was not refused", bad);
  double x = g.flip() ? g.decade(-300, 300) : g.real(0, 10); near(algo::common::sq_rt(x), sqrtl(x), 1e-15L, "square root"); if (algo::common::sq_rt(0) != 0) pbt::fail("square root of zero");
  ctx.nontrivial(ctx.d.str());
}

PBT_PROP(vectors, "operators and products of vectors with whole components up to 1000; non-trivial: every case")
{
  double a[3], b[3], s = (double)(g.range(1, 1000) * g.sgn()); for (int i = 0; i < 3; ++i) { a[i] = (double)g.range(-1000, 1000); b[i] = (double)(g.range(1, 1000) * g.sgn()); }
  if (g.chance(1, 3)) for (int i = 0; i < 3; ++i) b[i] = a[i] + (g.chance(1, 3) ? 1 : 0); bool zero = !b[0] || !b[1] || !b[2];
  vector3d<double> x(a[0], a[1], a[2]), y(b[0], b[1], b[2]), z, w; ctx.d << a[0] << "," << a[1] << "," << a[2] << " and " << b[0] << "," << b[1] << "," << b[2] << " and " << s;
  auto is = [&](vector3d<double> v, double p, double q, double r, const char *what) { if (!(v[0] == p && v[1] == q && v[2] == r)) pbt::failf("%s gives %g,%g,%g instead of %g,%g,%g", what, v[0], v[1], v[2], p, q, r); };
#define OP(o, oe, name) is(x o y, a[0] o b[0], a[1] o b[1], a[2] o b[2], name); is(x o s, a[0] o s, a[1] o s, a[2] o s, name " a number"); z = x; z oe y; is(z, a[0] o b[0], a[1] o b[1], a[2] o b[2], name " in place"); z = x; z oe s; is(z, a[0] o s, a[1] o s, a[2] o s, name " a number in place");
  OP(+, +=, "adding") OP(-, -=, "subtracting") OP(*, *=, "multiplying by") if (!zero) { OP(/, /=, "dividing by") }
  is(x, a[0], a[1], a[2], "an operand after the operators"); is(y, b[0], b[1], b[2], "an operand after the operators");
  z = s; is(z, s, s, s, "assigning a number");
  bool eq = a[0] == b[0] && a[1] == b[1] && a[2] == b[2]; if ((x == y) != eq || (x != y) != !eq) pbt::fail("comparison of vectors"); z = s; if (!(z == s)) pbt::fail("comparison with a number");
  if (x.dot(y) != a[0] * b[0] + a[1] * b[1] + a[2] * b[2]) pbt::fail("scalar product"); if (x.length2() != a[0] * a[0] + a[1] * a[1] + a[2] * a[2]) pbt::fail("square of length"); near(x.length(), sqrtl((ld)x.length2()), 1e-15L, "length");
  w = x; is(w.cross(y), a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0], "vector product"); w = x; is(w.abs(), fabs(a[0]), fabs(a[1]), fabs(a[2]), "absolute value"); w = x; is(w.pow(2), a[0] * a[0], a[1] * a[1], a[2] * a[2], "square");
  ctx.nontrivial(ctx.d.str());
}

PBT_PROP(numbers, "samples of 2000..20000 real random numbers, deviations over many decades, two of them in turn, two threads; reversed digits of numbers up to 1e9 in bases up to 1000; non-trivial: every case")
{
  size_t n = (size_t)g.range(2000, 20000); double sd = g.decade(-9, 9), lim = sqrt(31 / (2. * n)); ctx.d << n << " numbers, deviation " << sd; std::vector<double> v(n);
  auto uni = [&](double (*f)(), double lo, double hi, const char *what) { for (auto &x : v) { x = f(); if (!(x >= lo && x <= hi)) pbt::failf("%s gives %.17g", what, x); } double d = ks(v, [&](double x) { return (x - lo) / (hi - lo); }); if (d > lim) pbt::failf("%s is not uniform, distance %g", what, d); std::vector<double> c; for (size_t i = 0; i + 1 < n; ++i) c.push_back(fmod((v[i] - lo) / (hi - lo) + (v[i + 1] - lo) / (hi - lo), 1)); if (ks(c, [](double x) { return x; }) > sqrt(31 / (double)n)) pbt::failf("successive numbers of %s depend on each other", what); };
  uni(math::random::uniform, 0, 1, "uniform"); uni(math::random::uniform1, 0, 1, "uniform1"); uni(math::random::uniform2, -1, 1, "uniform2"); uni(math::random::uniform_angle, 0, 2 * M_PI, "uniform_angle");
  double sd2 = sd * g.real(1.5, 9); for (size_t i = 0; i < n; ++i) v[i] = i / 7 % 3 == 1 ? math::random::normal(sd2) * (sd / sd2) : math::random::normal(sd); double d = ks(v, [&](double x) { return 0.5 * erfc(-x / sd / sqrt(2)); }); if (d > lim) pbt::failf("normal is not normal, distance %g", d);
  std::vector<double> a(20), b(20); std::thread t([&] { for (auto &x : b) x = math::random::uniform(); }); for (auto &x : a) x = math::random::uniform(); t.join(); if (a == b) pbt::fail("two threads have the same random numbers");
  long num = g.range(0, 1000000000), base = g.range(2, 1000), k = num; ld want = 0, f = 1; while (k) { f /= base; want += f * (k % base); k /= base; }
  double got = math::random::random_reverse((double)num + g.real(0, 0.9), (int)base); if (!(fabsl(got - want) < 1e-12L) || got < 0 || got >= 1) pbt::failf("%ld reversed in base %ld is %.15g instead of %.15Lg", num, base, got, want);
  ctx.nontrivial(ctx.d.str());
}

PBT_PROP(text, "lines split by delimiters, boolean words, files of numbers, command line options, multiples; non-trivial: every case")
{
  char dl = g.pick(std::vector<char>{':', ',', ' ', '/'}); std::string s; std::vector<std::string> want, got; int n = (int)g.range(0, 8); for (int i = 0, k = (int)g.range(0, 2); i < k; ++i) s += dl;
  for (int i = 0; i < n; ++i) { std::string w; for (int j = 0, k = (int)g.range(1, 5); j < k; ++j) w += (char)('a' + g.draw(26)); want.push_back(w); s += w; if (i + 1 < n || g.flip()) for (int j = 0, k = (int)g.range(1, 3); j < k; ++j) s += dl; }
  algo::common::splitstr(s, dl, got); ctx.d << "'" << s << "'"; if (got != want) pbt::failf("splitting gives %zu parts instead of %zu", got.size(), want.size());
  std::string t = g.flip() ? "true" : "false"; std::string u = t; for (auto &c : u) if (g.flip()) c = (char)toupper(c); if (algo::common::to_bool(u) != (t == "true")) pbt::failf("%s is read wrong", u.c_str());
  std::ostringstream o; std::vector<double> nums; o.precision(17); for (int i = 0, k = (int)g.range(0, 30); i < k; ++i) { double x = g.chance(1, 4) ? (double)g.range(-9, 9) : g.decade(-30, 30) * g.sgn(); nums.push_back(x); o << x << (g.chance(1, 3) ? "\n" : " "); }
  MemFile f(o.str()); auto r = algo::common::read_file_to_double(f.path.c_str()); if (r != nums) pbt::failf("%zu numbers were read instead of %zu", r.size(), nums.size());
  if (!refused([] { algo::common::read_file_to_double("/nowhere/numbers"); })) pbt::fail("missing file of numbers was not refused");
  std::vector<std::string> a{"picopic"}; int at = -1; for (int i = 0, k = (int)g.range(0, 4); i < k; ++i) a.push_back("x" + std::to_string(i)); if (g.flip()) { at = (int)g.range(1, (long)a.size()); a.insert(a.begin() + at, "-f"); }
  std::vector<char *> v; for (auto &x : a) v.push_back(&x[0]); char **b = v.data(), **e = b + v.size(); char *val = algo::common::get_cmd_option(b, e, "-f"); bool has = at >= 0, arg = has && at + 1 < (int)a.size();
  if (algo::common::cmd_option_exists(b, e, "-f") != has || (val != nullptr) != arg || (arg && a[at + 1] != val)) pbt::fail("command line option is read wrong");
  unsigned num = (unsigned)g.range(0, 100000), what = (unsigned)g.range(1, 5000), up = (num + what - 1) / what * what, m = algo::common::nearest_divide(num, what); if (m != up) pbt::failf("%u is the nearest multiple of %u from %u, not %u", up, what, num, m);
  { // multiples of fractions: k / 2^j divides whole numbers that k without its twos divides
    unsigned k = (unsigned)g.range(1, 400), j = (unsigned)g.range(0, 4), odd = k; for (unsigned q = 0; q < j && odd % 2 == 0; ++q) odd /= 2;
    unsigned want = (num + odd - 1) / odd * odd, is = algo::common::nearest_divide(num, (double)k / (1 << j)); if (is != want) pbt::failf("%u is the nearest multiple of %g from %u, not %u", want, (double)k / (1 << j), num, is);
  }
  unsigned short h1 = algo::common::hash_from_string(s, 17), h2 = algo::common::hash_from_string(s, 17); if (h1 != h2) pbt::fail("identifier of a name changes");
  ctx.nontrivial(ctx.d.str());
}

PBT_PROP(directories, "paths of 1..6 levels, absolute or relative, some levels existing, some being files, with doubled and trailing slashes; non-trivial: a level had to be made")
{
  namespace fs = std::filesystem; char tmp[] = "/tmp/verif_dirs_XXXXXX"; if (!mkdtemp(tmp)) throw pbt::Discard(); struct Rm { std::string p; ~Rm() { std::error_code e; fs::current_path("/", e); fs::remove_all(p, e); } } rm{tmp};
  fs::current_path(tmp); int n = (int)g.range(1, 6), have = (int)g.range(0, n), file = g.chance(1, 5) ? (int)g.range(0, n - 1) : -1; bool abs = g.flip(); std::string p = abs ? tmp : ""; fs::path q = tmp;
  for (int i = 0; i < n; ++i)
  {
    std::string name(1, (char)('a' + g.draw(5))); if (i || abs) p += g.chance(1, 6) ? "//" : "/"; p += name; q /= name;
    if (file >= 0 && i > file) continue; if (i == file) { std::ofstream o(q); o << "data"; } else if (i < have || (file > i)) fs::create_directory(q);
  }
  bool slash = g.chance(1, 5); if (slash) p += "/"; ctx.d << p.substr(abs ? sizeof tmp - 1 : 0) << (abs ? " absolute " : " ") << have << " exist" << (file >= 0 ? ", a file is in the way" : "");
  bool r = algo::common::make_directory(p), is = fs::is_directory(q);
  if (file >= 0) { if (is || r) pbt::fail("a file in the way was not noticed"); fs::path f = tmp; std::ifstream in; for (auto &e : fs::recursive_directory_iterator(tmp)) if (e.is_regular_file()) f = e.path(); in.open(f); std::string d; in >> d; if (d != "data") pbt::fail("a file in the way was changed"); }
  else { if (!is) pbt::fail("the directory was not made"); if (!r) pbt::fail("the directory exists, but a failure was reported"); if (!algo::common::directory_exists(q.string())) pbt::fail("the directory is not found"); }
  long extra = 0; for (auto &e : fs::recursive_directory_iterator(tmp)) { (void)e; ++extra; } if (extra > n) pbt::failf("%ld entries instead of %d were made", extra, n);
  if (have < n && file < 0) ctx.nontrivial(ctx.d.str());
}
PBT_MAIN
