// the kinds of solver objects C07 combines
#pragma once
#include "../mc/suite.hpp"
#include "../mc/cases.hpp"
#include <memory>
using namespace cases;
using namespace libmpdataxx::opts;

// an object under test, driven operation by operation
struct Obj
{
  virtual ~Obj() {}
  virtual void construct() = 0; virtual void init() = 0; virtual void advance(int) = 0; virtual V read() = 0; virtual void destroy() = 0;
};
struct Kind { std::string name; std::function<std::unique_ptr<Obj>()> make; std::string of; /* the kind this is another set-up of */ };
inline std::vector<Kind> &kinds() { static std::vector<Kind> v; return v; }
struct KindReg { KindReg(const std::string &n, std::function<std::unique_ptr<Obj>()> f, std::function<std::unique_ptr<Obj>()> g) { kinds().push_back({n, f, ""}); kinds().push_back({n + ", other parameters", g, n}); } };
// the same class with another time step, other grid spacings and another tolerance of the pressure solver
template <class P> auto other_tol(P &p, int) -> decltype(p.prs_tol, void()) { p.prs_tol *= 100; }
template <class P> void other_tol(P &, long) {}

template <class K, class B> struct ObjT : Obj
{
  using run_t = typename bind_bc<concurr::serial, typename K::base_t, B>::type;
  Setup s; double unit; bool other;
  std::unique_ptr<run_t> r;
  ObjT(Setup s0, double u, bool o) : s(s0), unit(u), other(o)
  {
    if (!o) return;
    s.dt *= .75; for (int d = 0; d < 3; ++d) s.dx[d] *= 1.1 + .1 * d;
    auto psi = s.psi; s.psi = [psi](int e, int i, int j, int k) { return psi(e, i, j, k) * 1.0625; };
  }
  void construct() { auto p = make_params<K>(s); if (other) other_tol(p, 0); r.reset(new run_t(p)); }
  void init() { cases::init<K>(*r, s); }
  void advance(int n) { r->advance(unit * n); }
  V read() { return observe<K>(*r); }
  void destroy() { r.reset(); }
};
#define KIND(name, K, B, setup, unit) static KindReg SUITE_CAT(kind_, __COUNTER__)(name, [] { return std::unique_ptr<Obj>(new ObjT<K, B>(setup, unit, false)); }, [] { return std::unique_ptr<Obj>(new ObjT<K, B>(setup, unit, true)); });
#define P(...) __VA_ARGS__

inline Setup base(int D, int nx, int ny, int nz, int seed = 0)
{
  Setup s; s.D = D; s.n = {nx, ny, nz}; s.iters = 2;
  auto n = s.n;
  s.psi = [n, seed](int e, int i, int j, int k) { return 1 + u01(e + 10 * seed, cy(i, n[0]), cy(j, n[1]), cy(k, n[2])); };
  Flow f{n, D, D == 1 ? 0 : .15, {true, true, true}, {.3, D > 1 ? .2 : 0, D > 2 ? -.2 : 0}};
  s.gc = f;
  s.G = [n](int i, int j, int k) { return 1 + .25 * u01(77, cy(i, n[0]), cy(j, n[1]), cy(k, n[2])); };
  s.arr = [n](const std::string &a, int i, int j, int k) { return a == "tht_e" ? 300. : a == "tht_abs" || a == "hflux_frc" ? 0. : a.compare(0, 7, "mix_len") == 0 ? .5 : a == "vab_coeff" ? .25 * u01(5, cy(i, n[0]), cy(j, n[1]), cy(k, n[2])) : a.compare(0, 9, "vab_relax") == 0 ? .125 : .5 * u01(6, cy(i, n[0]), cy(j, n[1]), cy(k, n[2])); };
  return s;
}
inline Setup vel(Setup s, int nv, double ref = 0, std::vector<std::string> arrs = {})
{
  auto n = s.n;
  s.psi = [n, nv, ref](int e, int i, int j, int k) { double x = u01(e, cy(i, n[0]), cy(j, n[1]), cy(k, n[2])); return e < nv ? .4 * (x - .4) : ref + x; };
  s.arrs = arrs; if (ref > 100) s.dt = .1;
  return s;
}
inline Setup iters(Setup s, int n) { s.iters = n; return s; }
inline Setup along_x(Setup s) { s.gc = [](int d, int, int, int) { return d == 0 ? .25 : 0.; }; return s; }
