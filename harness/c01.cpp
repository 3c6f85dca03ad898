// C01: bit-identical results for every team size under every interleaving.
// The real openmp class runs under the controlled scheduler. For each configuration and team size the base
// schedule is recorded access by access; phases without value-changing conflicts are insensitive to the
// interleaving (every other one gives the same state), every conflict is reversed by explicit schedules.
#include "../mc/mc.hpp"
#include "../mc/suite.hpp"
#include "../mc/cases.hpp"
#include "../mc/race.hpp"
#include <libmpdata++/concurr/openmp.hpp>
#include <memory>
#include <set>
#include <dlfcn.h>
using namespace cases;

namespace
{
  using race::explore;
  template <class K, class B> void add(suite::Ctx &c, const Setup &s, std::vector<int> hist = {2, 1})
  {
    explore(c, 4, [&](int) {
      auto p = make_params<K>(s);
      typename bind_bc<concurr::openmp, typename K::base_t, B>::type run(p);
      init<K>(run, s);
      for (int h : hist) { run.advance(h); V v = observe<K>(run); mc::obs_bytes(v.data(), v.size() * 8); }
    });
  }

  // fields and flows without symmetries; cyclic in the directions marked
  Setup mk(int D, I3 n, const char *wrap, double lo, double hi, double amp, I3 base = {{3, -2, 1}}, int iters = 2)
  {
    Setup s; s.D = D; s.n = n; s.iters = iters; s.dt = .1; s.dx[0] = 1; s.dx[1] = 1.25; s.dx[2] = .75;
    Flow f; f.n = n; f.D = D; f.amp = amp; for (int d = 0; d < 3; ++d) { f.wrap[d] = d < D && wrap[d] == 'c'; f.base[d] = base[d] * .0625; }
    s.gc = f;
    bool w[3] = {f.wrap[0], f.wrap[1], f.wrap[2]};
    auto idx = [n, w](int d, int i) { return w[d] ? cy(i, n[d]) : i; };
    s.psi = [=](int e, int i, int j, int k) { return lo + (hi - lo) * u01(e + 3, idx(0, i), idx(1, j), idx(2, k)); };
    s.G = [=](int i, int j, int k) { return 1 + .5 * u01(77, idx(0, i), idx(1, j), idx(2, k)); };
    s.arr = [=](const std::string &a, int i, int j, int k) { return .1 * u01(a.size() + a.back(), idx(0, i), idx(1, j), idx(2, k)); };
    return s;
  }
}

using namespace libmpdataxx::opts;
#define RUN(name, cost, K, B, ...) CASE(name, cost, [](suite::Ctx &c) { add<K, B>(c, __VA_ARGS__); })
#define P(...) __VA_ARGS__

template <int D, int NE, long O> using M = Mpd<CT<D, NE, O>>;
static const I3 n1{{9, 1, 1}}, n2{{7, 5, 1}}, n3{{4, 7, 5}};

#if PART == 0 // 1D advection
RUN("1d upwind", 1, P(M<1, 1, 0>), C1, mk(1, n1, "c", 1, 2, 0, {{5}}, 1));
RUN("1d iga fct 2eq", 1, P(M<1, 2, iga | fct>), C1, mk(1, n1, "c", 1, 2, 0, {{5}}));
RUN("1d abs fct tot iters3", 1, P(M<1, 1, libmpdataxx::opts::abs | fct | tot>), C1, mk(1, n1, "c", -1, 2, 0, {{5}}, 3));
RUN("1d nug fct open", 1, P(M<1, 1, nug | fct | dfl>), O1, mk(1, n1, "o", 1, 2, 0, {{-5}}));
RUN("1d div_2nd div_3rd iga", 1, P(M<1, 1, iga | div_2nd | div_3rd>), C1, mk(1, n1, "c", 1, 2, 0, {{5}}));
RUN("1d fot tot iga khn", 1, P(M<1, 1, iga | tot | fot | khn | pfc | npa>), C1, mk(1, n1, "c", 1, 2, 0, {{5}}));
RUN("1d rhs trapez", 1, P(Rhs<ctRhs<1, (int)solvers::trapez, iga | fct>>), C1, mk(1, n1, "c", 1, 2, 0, {{5}}));
RUN("1d vip", 1, P(Vip<ctVip<1, (int)solvers::trapez, iga | fct>>), C1, mk(1, n1, "c", .5, 1, 0));
RUN("1d shallow water", 1, P(Shw<ctShw<1, iga | fct>>), C1, mk(1, n1, "c", 1, 1.5, 0));
#elif PART == 1 // 2D advection
RUN("2d upwind", 1, P(M<2, 1, 0>), C2, mk(2, n2, "cc", 1, 2, .3, {{3, -2}}, 1));
RUN("2d iga fct", 2, P(M<2, 2, iga | fct>), C2, mk(2, n2, "cc", 1, 2, .3));
RUN("2d abs fct tot iters3", 2, P(M<2, 1, libmpdataxx::opts::abs | fct | tot>), C2, mk(2, n2, "cc", -1, 2, .3, {{3, -2}}, 3));
RUN("2d nug fct dfl", 2, P(M<2, 1, nug | fct | dfl>), C2, mk(2, n2, "cc", 1, 2, .3));
RUN("2d nug fct dfl open", 2, P(M<2, 1, nug | fct | dfl>), O2, mk(2, n2, "oo", 1, 2, .3));
RUN("2d iga tot fct delayed", 2, P(Mpd<Delay<CT<2, 3, iga | tot | fct>, 2>>), C2, mk(2, n2, "cc", 1, 2, .3));
RUN("2d abs khn fct rigid", 2, P(M<2, 1, libmpdataxx::opts::abs | fct | khn | dfl>), R2, mk(2, n2, "rr", 1, 2, .3));
RUN("2d nug polar", 2, P(M<2, 1, nug | fct | dfl>), P(BC<cyc, cyc, pol, pol>), mk(2, {{9, 5, 1}}, "c.", 1, 2, .1, {{1, 0}}));
#elif PART == 2 // 2D, higher order and adaptive steps
RUN("2d iga div_2nd div_3rd", 2, P(M<2, 1, iga | div_2nd | div_3rd>), C2, mk(2, n2, "cc", 1, 2, .3));
RUN("2d iga fct div_2nd div_3rd_dt", 2, P(M<2, 1, iga | fct | div_2nd | div_3rd_dt>), C2, mk(2, n2, "cc", 1, 2, .3));
RUN("2d abs div_2nd div_3rd nug", 2, P(M<2, 1, libmpdataxx::opts::abs | nug | div_2nd | div_3rd>), C2, mk(2, n2, "cc", 1, 2, .3));
RUN("2d tot fot iga fct", 2, P(M<2, 1, iga | fct | tot | fot>), C2, mk(2, n2, "cc", 1, 2, .3));
RUN("2d rhs trapez", 2, P(Rhs<ctRhs<2, (int)solvers::trapez, iga | fct>>), C2, mk(2, n2, "cc", 1, 2, .3));
RUN("2d rhs euler_b", 2, P(Rhs<ctRhs<2, (int)solvers::euler_b, libmpdataxx::opts::abs | fct>>), C2, mk(2, n2, "cc", 1, 2, .3));
RUN("2d shallow water", 3, P(Shw<ctShw<2, iga | fct>>), C2, mk(2, n2, "cc", 1, 1.5, 0));
RUN("2d shallow water abs", 3, P(Shw<ctShw<2, libmpdataxx::opts::abs | fct>>), C2, mk(2, n2, "cc", 1, 1.5, 0));
#elif PART == 3 // 2D velocities and pressure
RUN("2d vip iga", 2, P(Vip<ctVip<2, (int)solvers::trapez, iga | fct>>), C2, mk(2, n2, "cc", .5, 1, 0));
RUN("2d vip expl absorber open", 2, P(Vip<ctVip<2, (int)solvers::trapez, iga | fct, (int)solvers::expl>>), O2, ([] { auto s = mk(2, n2, "oo", .5, 1, 0); s.arrs = {"vab_coeff", "vab_relax0", "vab_relax1"}; return s; })());
RUN("2d vip div_3rd", 2, P(Vip<ctVip<2, (int)solvers::trapez, iga | div_2nd | div_3rd>>), C2, mk(2, n2, "cc", .5, 1, 0));
RUN("2d prs cr", 4, P(Prs<ctPrs<2, (int)solvers::cr, iga | fct>>), C2, mk(2, n2, "cc", -1, 1, 0));
RUN("2d prs mr rigid", 4, P(Prs<ctPrs<2, (int)solvers::mr, iga | fct>>), R2, mk(2, n2, "rr", -1, 1, 0));
RUN("2d prs gcrk impl absorber", 4, P(Prs<ctPrs<2, (int)solvers::gcrk, iga | fct, (int)solvers::impl>>), P(BC<cyc, cyc, rgd, rgd>), ([] { auto s = mk(2, n2, "cr", -1, 1, 0); s.arrs = {"vab_coeff", "vab_relax0", "vab_relax1"}; return s; })());
RUN("2d prs cr open", 4, P(Prs<ctPrs<2, (int)solvers::cr, libmpdataxx::opts::abs | fct>>), O2, ([] { auto s = mk(2, n2, "oo", -.1, .1, 0); auto f = s.psi; s.psi = [f](int e, int i, int j, int k) { return e == 2 ? 1 + f(e, i, j, k) : e * .1 + .3 + (i > 0 && i < n2[0] - 1 && j > 0 && j < n2[1] - 1 ? f(e, i, j, k) : 0); }; return s; })());
RUN("2d boussinesq expl", 5, P(Bou<ctBou<2, false, iga | fct>>), P(BC<cyc, cyc, rgd, rgd>), ([] { auto s = mk(2, n2, "cr", 0, 1, 0); auto f = s.psi; s.psi = [f](int e, int i, int j, int k) { return e == 2 ? 300 + f(e, i, j, k) : f(e, i, j, k) - .5; }; s.arrs = {"tht_e", "tht_abs", "hflux_frc"}; auto a = s.arr; s.arr = [a](const std::string &n, int i, int j, int k) { return n == "tht_e" ? 300 + j * .1 : a(n, i, j, k); }; return s; })());
#elif PART == 4 // 2D sub-grid models
RUN("2d sgs dns normal", 5, P(Sgs<ctSgs<2, (int)solvers::dns, (int)solvers::normal, iga | fct>>), C2, mk(2, n2, "cc", -1, 1, 0));
RUN("2d sgs dns pade", 5, P(Sgs<ctSgs<2, (int)solvers::dns, (int)solvers::pade, iga | fct>>), C2, mk(2, n2, "cc", -1, 1, 0));
RUN("2d sgs dns compact", 5, P(Sgs<ctSgs<2, (int)solvers::dns, (int)solvers::compact, iga | fct>>), C2, mk(2, n2, "cc", -1, 1, 0));
RUN("2d sgs smg compact density rigid", 5, P(Sgs<ctSgs<2, (int)solvers::smg, (int)solvers::compact, iga | fct | nug>>), R2, mk(2, n2, "rr", -1, 1, 0));
RUN("2d sgs smgani compact", 5, P(Sgs<ctSgs<2, (int)solvers::smgani, (int)solvers::compact, iga | fct>>), P(BC<cyc, cyc, rgd, rgd>), mk(2, n2, "cr", -1, 1, 0));
RUN("2d boussinesq impl", 5, P(Bou<ctBou<2, true, iga | fct, 0, 0, (int)solvers::impl>>), P(BC<cyc, cyc, rgd, rgd>), ([] { auto s = mk(2, n2, "cr", -.5, .5, 0); s.arrs = {"tht_e", "tht_abs", "hflux_frc", "vab_coeff", "vab_relax0", "vab_relax1"}; auto a = s.arr; s.arr = [a](const std::string &n, int i, int j, int k) { return n == "tht_e" ? 300 + j * .1 : a(n, i, j, k); }; return s; })());
#elif PART == 5 // 3D advection
RUN("3d upwind", 2, P(M<3, 1, 0>), C3, mk(3, n3, "ccc", 1, 2, .15, {{3, -2, 1}}, 1));
RUN("3d iga fct", 4, P(M<3, 2, iga | fct>), C3, mk(3, n3, "ccc", 1, 2, .15));
RUN("3d abs fct tot iters3", 4, P(M<3, 1, libmpdataxx::opts::abs | fct | tot>), C3, mk(3, n3, "ccc", -1, 2, .15, {{3, -2, 1}}, 3));
RUN("3d nug fct dfl open", 4, P(M<3, 1, nug | fct | dfl>), O3, mk(3, n3, "ooo", 1, 2, .15));
RUN("3d iga fct rigid", 4, P(M<3, 1, iga | fct | dfl>), R3, mk(3, n3, "rrr", 1, 2, .15));
#elif PART == 6
RUN("3d iga div_2nd div_3rd", 4, P(M<3, 1, iga | div_2nd | div_3rd>), C3, mk(3, n3, "ccc", 1, 2, .15));
RUN("3d abs fct div_2nd div_3rd_dt", 4, P(M<3, 1, libmpdataxx::opts::abs | fct | div_2nd | div_3rd_dt>), C3, mk(3, n3, "ccc", 1, 2, .15));
RUN("3d nug polar", 4, P(M<3, 1, nug | fct | dfl>), P(BC<cyc, cyc, pol, pol, rgd, rgd>), mk(3, {{5, 5, 4}}, "c.r", 1, 2, .05, {{1, 0, 0}}));
RUN("3d rhs trapez", 3, P(Rhs<ctRhs<3, (int)solvers::trapez, iga | fct>>), C3, mk(3, n3, "ccc", 1, 2, .15));
RUN("3d vip iga", 4, P(Vip<ctVip<3, (int)solvers::trapez, iga | fct>>), C3, mk(3, n3, "ccc", .3, .5, 0));
#elif PART == 7
RUN("3d prs cr", 6, P(Prs<ctPrs<3, (int)solvers::cr, iga | fct>>), C3, mk(3, n3, "ccc", -.5, .5, 0));
RUN("3d sgs smg compact gndsky", 8, P(Bou<ctBou<3, true, iga | fct, (int)solvers::smg, (int)solvers::compact>>), P(BC<cyc, cyc, cyc, cyc, gsk, gsk>), ([] { auto s = mk(3, n3, "ccg", -.3, .3, 0); s.arrs = {"tht_e", "tht_abs", "mix_len"}; auto a = s.arr; s.arr = [a](const std::string &n, int i, int j, int k) { return n == "tht_e" ? 300 + k * .1 : n == "mix_len" ? .5 : a(n, i, j, k); }; return s; })());
RUN("3d sgs dns pade", 8, P(Sgs<ctSgs<3, (int)solvers::dns, (int)solvers::pade, iga | fct>>), C3, mk(3, n3, "ccc", -.5, .5, 0));
#elif PART == 8
RUN("3d boussinesq smgani compact gndsky", 8, P(Bou<ctBou<3, true, iga | fct, (int)solvers::smgani, (int)solvers::compact>>), P(BC<cyc, cyc, cyc, cyc, gsk, gsk>), ([] { auto s = mk(3, n3, "ccg", -.3, .3, 0); s.arrs = {"tht_e", "tht_abs", "mix_len_h", "mix_len_v"}; auto a = s.arr; s.arr = [a](const std::string &n, int i, int j, int k) { return n == "tht_e" ? 300 + k * .1 : n.compare(0, 7, "mix_len") == 0 ? .5 : a(n, i, j, k); }; return s; })());
RUN("2d var_dt", 2, P(Mpd<CT<2, 1, iga | fct, true>>), C2, mk(2, n2, "cc", 1, 2, .3));
RUN("1d var_dt vip", 2, P(Vip<ctVip<1, (int)solvers::trapez, iga | fct, 0, true>>), C1, mk(1, n1, "c", .5, 1, 0));
RUN("2d var_dt vip", 2, P(Vip<ctVip<2, (int)solvers::trapez, iga | fct, 0, true>>), C2, mk(2, n2, "cc", .5, 1, 0));
RUN("2d var_dt prs", 4, P(Prs<ctPrs<2, (int)solvers::cr, iga | fct, 0, (int)solvers::trapez, true>>), C2, mk(2, n2, "cc", -1, 1, 0));
RUN("3d var_dt", 4, P(Mpd<CT<3, 1, iga | fct, true>>), C3, mk(3, n3, "ccc", 1, 2, .15));
#endif
