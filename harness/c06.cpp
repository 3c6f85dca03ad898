// C06: splitting advance() into any sequence of calls does not change the solution.
// Every sequence of {advance(k), read} operations reaching a given number of steps is executed on the real
// solver; the state seen by every read has to be the one a single call with the same number of steps yields.
#include "../mc/suite.hpp"
#include "../mc/cases.hpp"
#include <memory>
using namespace cases;
using namespace libmpdataxx::opts;
#ifndef PART
#define PART 0
#endif

namespace
{
  // sequences of operations: 'r' read, '0'..'5' advance by so many steps
  void seqs(int left, int zeros, const std::string &cur, std::vector<std::string> &out)
  {
    if (left == 0) out.push_back(cur);
    for (int k = 1; k <= left; ++k) seqs(left - k, zeros, cur + char('0' + k), out);
    if (zeros) { seqs(left, zeros - 1, cur + '0', out); seqs(left, zeros - 1, cur + 'r', out); }
  }
  template <class K, class B> void explore(suite::Ctx &c, const Setup &s, int n = 4, int zeros = 2)
  {
    if (c.thorough) { n += 1; zeros += 1; }
    using run_t = typename bind_bc<concurr::serial, typename K::base_t, B>::type;
    std::vector<V> ref;
    for (int k = 0; k <= n; ++k)
    {
      c.item(suite::fmt("one call advance(%d)", k));
      run_t run(make_params<K>(s)); init<K>(run, s);
      run.advance(k);
      ref.push_back(observe<K>(run));
      c.state(ref.back());
    }
    if (n > 1 && ref[1] == ref[2]) c.viol("harness:" + c.name, "state does not change");
    std::vector<std::string> all;
    seqs(n, zeros, "", all);
    for (auto &q : all)
    {
      if (!c.item(q)) continue;
      run_t run(make_params<K>(s)); init<K>(run, s);
      int done = 0; bool started = false;
      for (size_t i = 0; i <= q.size(); ++i)
      {
        char op = i < q.size() ? q[i] : 'r';
        c.step();
        if (op != 'r') { run.advance(op - '0'); done += op - '0'; started = true; continue; }
        V v = observe<K>(run);
        if (!started) continue;
        ++c.traces;
        if (v.size() != ref[done].size() || memcmp(v.data(), ref[done].data(), v.size() * 8))
        {
          size_t k = 0; while (k < v.size() && v[k] == ref[done][k]) ++k;
          c.viol("split:" + c.name, suite::fmt("after operations %s (%zu done) value %zu reads %.17g; a single advance(%d) gives %.17g", q.c_str(), i, k, k < v.size() ? v[k] : 0, done, k < v.size() ? ref[done][k] : 0));
          break;
        }
      }
      if (c.enough()) return;
    }
    c.sample(suite::fmt("%zu sequences of operations, up to %d steps; last: %s", all.size(), n, all.back().c_str()));
  }

  Setup base(int D, int nx, int ny, int nz)
  {
    Setup s; s.D = D; s.n = {nx, ny, nz}; s.iters = 2;
    auto n = s.n;
    s.psi = [n](int e, int i, int j, int k) { return 1 + u01(e, cy(i, n[0]), cy(j, n[1]), cy(k, n[2])); };
    Flow f{n, D, D == 1 ? 0 : .15, {true, true, true}, {.3, D > 1 ? .2 : 0, D > 2 ? -.2 : 0}};
    s.gc = f;
    s.G = [n](int i, int j, int k) { return 1 + .25 * u01(77, cy(i, n[0]), cy(j, n[1]), cy(k, n[2])); };
    s.arr = [n](const std::string &a, int i, int j, int k) { return a == "vab_coeff" ? .25 * u01(5, cy(i, n[0]), cy(j, n[1]), cy(k, n[2])) : a.compare(0, 9, "vab_relax") == 0 ? .125 : .5 * u01(6, cy(i, n[0]), cy(j, n[1]), cy(k, n[2])); };
    return s;
  }
  // velocities small enough for the advection scheme; tracer positive
  Setup vel(Setup s, int nv, int skip = 0)
  {
    auto n = s.n; int D = s.D;
    s.psi = [n, nv, skip](int e, int i, int j, int k) { double x = u01(e, cy(i, n[0]), cy(j, n[1]), cy(k, n[2])); return e < nv ? .4 * (x - .4) : skip ? 300 + x : 1 + x; };
    return s;
  }
}

#if PART == 0
#define M1(O) CASE("1D mpdata opts=" #O, 3, [](suite::Ctx &c) { explore<Mpd<CT<1, 2, O>>, C1>(c, base(1, 6, 1, 1), 5, 2); })
M1(0); M1(pfc); M1(ABS | pfc); M1(iga); M1(fct | ABS); M1(iga | fct | tot); M1(nug); M1(dfl | tot); M1(ABS | tot | khn | pfc | npa);
CASE("1D mpdata delayed equation", 3, [](suite::Ctx &c) { explore<Mpd<Delay<CT<1, 3, iga | fct>, 2>>, C1>(c, base(1, 6, 1, 1), 4, 2); });
CASE("1D mpdata open", 3, [](suite::Ctx &c) { explore<Mpd<CT<1, 2, iga | fct>>, O1>(c, base(1, 6, 1, 1), 4, 2); });
#define RH1(S) CASE("1D rhs " #S, 3, [](suite::Ctx &c) { explore<Rhs<ctRhs<1, (int)solvers::S, iga | fct>>, C1>(c, base(1, 6, 1, 1), 5, 2); })
RH1(euler_a); RH1(euler_b); RH1(trapez);
CASE("1D vip", 3, [](suite::Ctx &c) { explore<Vip<ctVip<1, (int)solvers::trapez, 0>>, C1>(c, vel(base(1, 6, 1, 1), 1), 4, 2); });
CASE("1D vip div_3rd", 3, [](suite::Ctx &c) { explore<Vip<ctVip<1, (int)solvers::euler_b, ABS | div_2nd | div_3rd>>, C1>(c, vel(base(1, 7, 1, 1), 1), 5, 2); });
#endif
#if PART == 1
#define M2(O) CASE("2D mpdata opts=" #O, 4, [](suite::Ctx &c) { explore<Mpd<CT<2, 2, O>>, C2>(c, base(2, 5, 4, 1), 4, 2); })
M2(0); M2(iga | fct); M2(ABS | fct | tot); M2(nug | iga | fct); M2(dfl); M2(ABS | div_2nd | div_3rd);
CASE("2D mpdata open/rigid", 4, [](suite::Ctx &c) { auto s = base(2, 5, 4, 1); s.gc = [](int d, int i, int j, int) { return d == 0 ? .25 : 0.; }; explore<Mpd<CT<2, 1, iga | fct>>, BC<opn, opn, rgd, rgd>>(c, s, 4, 2); });
#define RH2(S) CASE("2D rhs " #S, 4, [](suite::Ctx &c) { explore<Rhs<ctRhs<2, (int)solvers::S, nug | iga>>, C2>(c, base(2, 5, 4, 1), 4, 2); })
RH2(euler_a); RH2(euler_b); RH2(trapez);
CASE("3D mpdata iga|fct|tot", 5, [](suite::Ctx &c) { explore<Mpd<CT<3, 1, iga | fct | tot>>, C3>(c, base(3, 4, 4, 4), 4, 1); });
CASE("3D rhs trapez", 5, [](suite::Ctx &c) { explore<Rhs<ctRhs<3, (int)solvers::trapez, iga>>, C3>(c, base(3, 4, 4, 4), 4, 1); });
#endif
#if PART == 2
CASE("2D vip", 4, [](suite::Ctx &c) { explore<Vip<ctVip<2, (int)solvers::trapez, iga>>, C2>(c, vel(base(2, 5, 4, 1), 2), 4, 2); });
CASE("2D vip expl absorber", 4, [](suite::Ctx &c) { auto s = vel(base(2, 5, 4, 1), 2); s.arrs = {"vab_coeff", "vab_relax0", "vab_relax1"}; explore<Vip<ctVip<2, (int)solvers::trapez, iga, (int)solvers::expl>>, C2>(c, s, 4, 2); });
CASE("2D vip impl absorber", 4, [](suite::Ctx &c) { auto s = vel(base(2, 5, 4, 1), 2); s.arrs = {"vab_coeff", "vab_relax0", "vab_relax1"}; explore<Vip<ctVip<2, (int)solvers::trapez, iga, (int)solvers::impl>>, C2>(c, s, 4, 2); });
CASE("2D vip div_3rd", 4, [](suite::Ctx &c) { explore<Vip<ctVip<2, (int)solvers::euler_b, ABS | div_2nd | div_3rd>>, C2>(c, vel(base(2, 5, 5, 1), 2), 5, 1); });
CASE("3D vip", 6, [](suite::Ctx &c) { explore<Vip<ctVip<3, (int)solvers::trapez, iga>>, C3>(c, vel(base(3, 4, 4, 4), 3), 3, 1); });
CASE("1D shallow water", 4, [](suite::Ctx &c) { explore<Shw<ctShw<1, fct | ABS>>, C1>(c, vel(base(1, 6, 1, 1), 1), 4, 2); });
CASE("2D shallow water", 5, [](suite::Ctx &c) { explore<Shw<ctShw<2, fct | ABS>>, C2>(c, vel(base(2, 5, 5, 1), 2), 4, 2); });
#endif
#if PART == 3
CASE("2D prs mr", 6, [](suite::Ctx &c) { explore<Prs<ctPrs<2, (int)solvers::mr, iga>>, C2>(c, vel(base(2, 5, 5, 1), 2), 3, 2); });
CASE("2D prs cr", 6, [](suite::Ctx &c) { explore<Prs<ctPrs<2, (int)solvers::cr, iga>>, C2>(c, vel(base(2, 5, 5, 1), 2), 4, 2); });
CASE("2D prs gcrk", 6, [](suite::Ctx &c) { explore<Prs<ctPrs<2, (int)solvers::gcrk, iga>>, C2>(c, vel(base(2, 5, 5, 1), 2), 4, 2); });
CASE("2D prs cr impl absorber", 6, [](suite::Ctx &c) { auto s = vel(base(2, 5, 5, 1), 2); s.arrs = {"vab_coeff", "vab_relax0", "vab_relax1"}; explore<Prs<ctPrs<2, (int)solvers::cr, iga, (int)solvers::impl>>, C2>(c, s, 3, 2); });
CASE("3D prs cr", 8, [](suite::Ctx &c) { explore<Prs<ctPrs<3, (int)solvers::cr, iga>>, C3>(c, vel(base(3, 4, 4, 4), 3), 3, 1); });
#endif
#if PART == 4
CASE("2D sgs dns", 7, [](suite::Ctx &c) { explore<Sgs<ctSgs<2, (int)solvers::dns, (int)solvers::compact, iga>>, C2>(c, vel(base(2, 5, 5, 1), 2), 3, 2); });
CASE("2D sgs smg", 7, [](suite::Ctx &c) { explore<Sgs<ctSgs<2, (int)solvers::smg, (int)solvers::normal, iga>>, C2>(c, vel(base(2, 5, 5, 1), 2), 3, 2); });
CASE("2D boussinesq explicit", 7, [](suite::Ctx &c) { auto s = vel(base(2, 5, 5, 1), 2, 1); s.arrs = {"tht_e", "tht_abs", "hflux_frc"}; s.dt = .1; s.arr = [](const std::string &a, int, int j, int k) { return a == "tht_e" ? 300. : 0.; }; explore<Bou<ctBou<2, false, iga>>, C2>(c, s, 3, 2); });
CASE("2D boussinesq implicit", 7, [](suite::Ctx &c) { auto s = vel(base(2, 5, 5, 1), 2, 1); s.psi = [p = s.psi](int e, int i, int j, int k) { return p(e, i, j, k) - (e == 2 ? 300 : 0); }; s.arrs = {"tht_e", "tht_abs", "hflux_frc"}; s.dt = .1; s.arr = [](const std::string &a, int, int j, int k) { return a == "tht_e" ? 300. : 0.; }; explore<Bou<ctBou<2, true, iga>>, C2>(c, s, 3, 2); });
CASE("3D boussinesq explicit", 9, [](suite::Ctx &c) { auto s = vel(base(3, 4, 4, 4), 3, 1); s.arrs = {"tht_e", "tht_abs", "hflux_frc"}; s.dt = .1; s.arr = [](const std::string &a, int, int j, int k) { return a == "tht_e" ? 300. : 0.; }; explore<Bou<ctBou<3, false, iga>>, C3>(c, s, 3, 1); });
#endif
