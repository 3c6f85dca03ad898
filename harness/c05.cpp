// C05: runs distributed over processes give what a run of one process gives, and never get stuck.
// The processes are controlled threads of one program, each with a solver object (and threads) of its own; MPI is replaced by a
// stand-in (mock/mpi, mc/mpi.hpp) in which every call is a scheduling point and the time at which messages are delivered is part of the plan.
#include "../mc/mc.hpp"
#include "../mc/suite.hpp"
#include "../mc/mpi.hpp"
#include "../mc/cases.hpp"
#include <libmpdata++/concurr/cxx11_thread.hpp>
#include <algorithm>
using namespace cases;

#if PART == 0
namespace mpi_mock { State *st = nullptr; }
int MPI_Initialized(int *f) { *f = mpi_mock::st->initialised || mpi_mock::st->inited[mpi_mock::me()]; return 0; }
int MPI_Finalized(int *f) { *f = mpi_mock::st->finalized[mpi_mock::me()]; return 0; }
int MPI_Init_thread(int *, char ***, int, int *l) { if (l) *l = mpi_mock::st->level; if (mpi_mock::st->inited[mpi_mock::me()]++) mc::fail("message passing initialised twice"); return 0; }
int MPI_Finalize() { if (mpi_mock::st->finalized[mpi_mock::me()]++) mc::fail("message passing finalised twice"); return 0; }
int MPI_Query_thread(int *l) { *l = mpi_mock::st->level; return 0; }
#endif

namespace
{
#ifdef LIBMPDATAXX_MPI_THREAD_MULTIPLE
  enum { SERIALIZED = 0 };
#else
  enum { SERIALIZED = 1 };
#endif
  using mpi_mock::Delivery; using mpi_mock::EAGER; using mpi_mock::RENDEZVOUS; using mpi_mock::LATE;
  const char *const dname[] = {"eager", "rendezvous", "late"};
  typedef std::vector<double> Calls; // lengths of advance() calls

  template <class K, class B> struct Dist
  {
    using run_t = typename bind_bc<concurr::cxx11_thread, typename K::base_t, B>::type; enum { D = K::ct::n_dims };
    // everything a rank can read; 'exact' first, then the rest
    static void rank(int r, const Setup &s, const Calls &calls, V &out, bool global_set)
    {
      mpi_mock::be(r);
      run_t o(make_params<K>(s));
      init<K>(o, s);
      if (global_set)
        for (int e = 0; e < (int)K::ct::n_eqns; ++e)
        {
          blitz::TinyVector<int, D> n; for (int d = 0; d < D; ++d) n[d] = s.n[d];
          blitz::Array<typename K::ct::real_t, D> g(n); fill(g, [&](int i, int j, int k) { return s.psi(e, i, j, k); }); o.advectee(e) = -77; o.advectee_global_set(g, e);
        }
      for (double t : calls)
      {
        o.advance(t);
        for (int e = 0; e < (int)K::ct::n_eqns; ++e) { auto v = read(o.advectee_global(e)); out.insert(out.end(), v.begin(), v.end()); out.push_back(o.min(e)); out.push_back(o.max(e)); }
        out.push_back(o.time());
      }
    }
    static mc::Outcome go(mc::Plan p, int ranks, int team, Delivery dl, const Setup &s, const Calls &calls, bool gset)
    {
      return mc::run(p, [&] { body(ranks, team, dl, s, calls, gset); });
    }
    static void body(int ranks, int team, Delivery dl, const Setup &s, const Calls &calls, bool gset)
    {
      setenv("OMP_NUM_THREADS", suite::fmt("%d", team).c_str(), 1);
      mpi_mock::start(ranks, dl, SERIALIZED);
      std::vector<V> out(ranks); std::vector<int> th;
      for (int r = 0; r < ranks; ++r) th.push_back(mc::spawn([&, r] { rank(r, s, calls, out[r], gset); }));
      for (int t : th) mc::join(t);
      mpi_mock::finish_all();
      for (int r = 1; r < ranks; ++r) if (out[r].size() != out[0].size() || memcmp(out[r].data(), out[0].data(), 8 * out[0].size())) mc::fail(suite::fmt("process %d reads something else than process 0", r));
      mc::obs_bytes(out[0].data(), 8 * out[0].size());
    }
    // 'tol': allowed relative difference (solvers with sums over the domain, which depend on the order)
    static void explore(suite::Ctx &c, const Setup &s, const Calls &calls, int most_ranks, int most_team, double tol = 0, int bound = 1)
    {
      auto ref = go(mc::Plan(), 1, 1, EAGER, s, calls, false);
      if (ref.status != mc::ST_OK) { c.item("one process"); c.viol("one:" + c.name, std::string("one process: ") + mc::status_name(ref.status) + ": " + ref.msg); return; }
      std::vector<double> rv((double *)ref.obs.data(), (double *)ref.obs.data() + ref.obs.size() / 8); double scale = 0; for (double x : rv) scale = std::max(scale, std::fabs(x));
      c.sample("one process: " + suite::show(rv, 8));
      for (int ranks = 1; ranks <= most_ranks; ++ranks) for (int team = 1; team <= (D == 3 ? std::min(most_team, s.n[1]) : most_team); ++team)
      {
        if (D < 3 && s.n[0] / ranks < team) continue;
        if (!SERIALIZED && team == 1 && !c.thorough) continue; // the other build covers this
        std::string it = suite::fmt("%d processes x %d threads", ranks, team); if (!c.item(it) || c.enough()) continue;
        bool ok = true;
        auto check = [&](const mc::Outcome &o, const std::string &how) {
          c.step(o.turns); ++c.extra["schedules"];
          if (o.status == mc::ST_OK && o.obs.size() == ref.obs.size())
          {
            const double *a = (const double *)o.obs.data(); size_t bad = rv.size();
            for (size_t i = 0; i < rv.size() && bad == rv.size(); ++i) if (tol == 0 ? memcmp(a + i, &rv[i], 8) != 0 : !(std::fabs(a[i] - rv[i]) <= tol * scale)) bad = i;
            if (bad == rv.size()) { c.state(o.obs.data(), o.obs.size()); ++c.traces; return true; }
            ok = false; c.viol("differs:" + c.name + ":" + it, suite::fmt("%s, %s: observable %zu is %.17g instead of %.17g", it.c_str(), how.c_str(), bad, a[bad], rv[bad])); return false;
          }
          ok = false; c.viol("fails:" + c.name + ":" + it, it + ", " + how + ": " + mc::status_name(o.status) + ": " + o.msg + (o.status == mc::ST_OK ? "another number of observables" : "")); return false;
        };
        // every priority order of the threads of all processes (ids: 0 the main thread, then the processes, then their threads)
        for (Delivery dl : {EAGER, RENDEZVOUS, LATE})
        {
          int nt = ranks * team; std::vector<int> perm; for (int i = 1; i <= nt; ++i) perm.push_back(i);
          std::vector<std::vector<int>> orders;
          if (nt <= (c.thorough ? 5 : dl == LATE ? 4 : 3)) { auto q = perm; do orders.push_back(q); while (std::next_permutation(q.begin(), q.end())); }
          else
          { // rotations and reversals
            for (int i = 0; i < nt; ++i) { auto q = perm; std::rotate(q.begin(), q.begin() + i, q.end()); orders.push_back(q); std::reverse(q.begin(), q.end()); orders.push_back(q); }
          }
          for (auto &od : orders)
          {
            mc::Plan p; p.order = od; std::string h = std::string(dname[dl]) + ", order"; for (int x : od) h += suite::fmt(" %d", x);
            if (!check(go(p, ranks, team, dl, s, calls, od == perm), h)) break;
          }
          if (!ok) break;
          // departures from the default schedule at the calls
          if (bound > 0 && ranks * team > 1 && (dl == LATE || c.thorough))
          {
            mc::Plan p; p.dfs = true; p.count_all = true; uint64_t cap = c.thorough ? 200000 : 40;
            auto st = mc::search(p, c.thorough ? bound + 1 : bound, cap, [&] { body(ranks, team, dl, s, calls, false); }, [&](const mc::Outcome &o, const std::vector<uint16_t> &pre) { std::string h = std::string(dname[dl]) + ", choices"; for (auto x : pre) h += suite::fmt(" %d", x); return check(o, h); }, c.thorough ? 300 : 1);
            c.extra[st.complete ? "searches_completed" : "searches_beyond_cap"]++; c.transitions += st.choice_points;
          }
          if (!ok) break;
        }
      }
    }
  };

  template <int D> Setup flow(I3 n, std::array<bool, 3> wrap, int seed = 1, double amp = .25)
  {
    Setup s; s.D = D; s.n = n; s.dt = .5;
    Flow f; f.n = n; f.D = D; f.amp = amp; f.seed = seed; for (int d = 0; d < 3; ++d) { f.wrap[d] = wrap[d]; f.base[d] = wrap[d] || D == 1 ? .2 - .15 * d : 0; }
    s.gc = f; s.psi = [=](int e, int i, int j, int k) { return 1 + u01(e + 31 * seed, wrap[0] ? cy(i, n[0]) : i, D > 1 && wrap[1] ? cy(j, n[1]) : j, D > 2 && wrap[2] ? cy(k, n[2]) : k); };
    s.G = [=](int i, int j, int k) { return 1 + .25 * u01(77, wrap[0] ? cy(i, n[0]) : i, D > 1 && wrap[1] ? cy(j, n[1]) : j, D > 2 && wrap[2] ? cy(k, n[2]) : k); };
    return s;
  }
  // fields of the solvers of velocities: the last ones are tracers (or the depth, the temperature)
  template <int D> Setup veloc(I3 n, std::array<bool, 3> wrap, int seed = 1, double mean = .2)
  {
    Setup s = flow<D>(n, wrap, seed); s.dt = .25;
    s.psi = [=](int e, int i, int j, int k) { double u = u01(e + 31 * seed, wrap[0] ? cy(i, n[0]) : i, D > 1 && wrap[1] ? cy(j, n[1]) : j, D > 2 && wrap[2] ? cy(k, n[2]) : k); return e < D ? (wrap[e] ? mean : 0) + .4 * (u - .5) : 1 + u; };
    s.arr = [=](const std::string &a, int i, int j, int k) { double u = u01(a.size() + 7 * a[a.size() - 1], wrap[0] ? cy(i, n[0]) : i, D > 1 && wrap[1] ? cy(j, n[1]) : j, D > 2 && wrap[2] ? cy(k, n[2]) : k); return a == "vab_coeff" ? .2 * u : a == "mix_len" ? .5 : D == 3 && a == "tht_e" ? 300 + k * .1 : a[0] == 't' ? 300 + u : .1 * u; };
    return s;
  }
  // velocities uniform along open ends (nothing needs to go in or out in total)
  Setup inner(Setup s) { auto p = s.psi; I3 n = s.n; s.psi = [=](int e, int i, int j, int k) { return e == 2 ? p(e, i, j, k) : e * .1 + .3 + (i > 0 && i < n[0] - 1 && j > 0 && j < n[1] - 1 ? p(e, i, j, k) : 0); }; return s; }
  Setup with(Setup s, std::vector<std::string> arrs) { s.arrs = arrs; return s; }
  Setup warm(Setup s, int D) { auto p = s.psi; s.psi = [=](int e, int i, int j, int k) { return e == D ? 300 + p(e, i, j, k) : p(e, i, j, k); }; return s; }
  const std::array<bool, 3> CCC{{true, true, true}}, OOO{{false, false, false}}, COO{{true, false, false}}, OCC{{false, true, true}}, CCO{{true, true, false}};
  using XO_YC = BC<opn, opn, cyc, cyc>; using XC_YO = BC<cyc, cyc, opn, opn>; using XC_YR = BC<cyc, cyc, rgd, rgd>; using XR_YC = BC<rgd, rgd, cyc, cyc>; using XOR = BC<opn, rgd, cyc, cyc>;
  using X3O = BC<opn, opn, cyc, cyc, cyc, cyc>; using X3Z = BC<cyc, cyc, cyc, cyc, rgd, rgd>; using X3G = BC<cyc, cyc, cyc, cyc, gsk, gsk>; using X3R = BC<rgd, rgd, cyc, cyc, rgd, rgd>; using X3M = BC<cyc, cyc, opn, opn, rgd, rgd>;
#if PART == 0
CASE("advection 1D cyclic", 10, [](suite::Ctx &c) { Dist<Mpd<CT<1, 2, 0>>, C1>::explore(c, flow<1>({13, 1, 1}, CCC), {2, 1}, 4, 2); });
CASE("advection 1D open", 10, [](suite::Ctx &c) { Dist<Mpd<CT<1, 1, opts::fct>>, O1>::explore(c, flow<1>({14, 1, 1}, OOO), {2, 1}, 4, 2); });
CASE("advection 1D third order", 10, [](suite::Ctx &c) { Dist<Mpd<CT<1, 1, opts::iga | opts::div_2nd | opts::div_3rd>>, C1>::explore(c, flow<1>({17, 1, 1}, CCC), {2, 1}, 4, 2); });
CASE("advection 1D adaptive, density", 10, [](suite::Ctx &c) { Dist<Mpd<CT<1, 1, opts::nug | opts::iga | opts::fct, true>>, C1>::explore(c, flow<1>({16, 1, 1}, CCC), {.9, .8}, 3, 2); });
CASE("source terms 1D", 10, [](suite::Ctx &c) { Dist<Rhs<ctRhs<1, (int)solvers::trapez, opts::iga>>, C1>::explore(c, flow<1>({13, 1, 1}, CCC), {2, 1}, 3, 2); });
CASE("velocities 1D", 10, [](suite::Ctx &c) { Dist<Vip<ctVip<1, (int)solvers::trapez, opts::iga>>, C1>::explore(c, veloc<1>({13, 1, 1}, CCC), {2, 1}, 3, 2); });
CASE("water 1D", 10, [](suite::Ctx &c) { Dist<Shw<ctShw<1, opts::abs | opts::fct>>, O1>::explore(c, veloc<1>({14, 1, 1}, OOO), {2, 1}, 3, 2); });
#elif PART == 1
CASE("advection 2D cyclic", 10, [](suite::Ctx &c) { Dist<Mpd<CT<2, 2, 0>>, C2>::explore(c, flow<2>({9, 5, 1}, CCC), {2, 1}, 4, 2); });
CASE("advection 2D open", 10, [](suite::Ctx &c) { Dist<Mpd<CT<2, 1, opts::fct | opts::iga>>, O2>::explore(c, flow<2>({11, 5, 1}, OOO), {2, 1}, 3, 2); });
CASE("advection 2D monotone", 10, [](suite::Ctx &c) { Dist<Mpd<CT<2, 1, opts::fct | opts::tot | opts::iga>>, XC_YO>::explore(c, flow<2>({11, 5, 1}, COO), {2, 1}, 3, 2); });
CASE("advection 2D divergent flows, density", 10, [](suite::Ctx &c) { Dist<Mpd<CT<2, 1, opts::dfl | opts::nug | opts::abs | opts::fct>>, XO_YC>::explore(c, flow<2>({11, 5, 1}, OCC), {2, 1}, 3, 2); });
CASE("advection 2D third order", 10, [](suite::Ctx &c) { Dist<Mpd<CT<2, 1, opts::abs | opts::div_2nd | opts::div_3rd>>, C2>::explore(c, flow<2>({13, 6, 1}, CCC), {2, 1}, 3, 2); });
#elif PART == 2
CASE("advection 2D adaptive", 10, [](suite::Ctx &c) { Dist<Mpd<CT<2, 1, opts::iga | opts::fct, true>>, C2>::explore(c, flow<2>({9, 5, 1}, CCC), {.9, .8}, 3, 2); });
CASE("source terms 2D, three passes", 10, [](suite::Ctx &c) { auto s = flow<2>({11, 5, 1}, CCC); s.iters = 3; Dist<Rhs<ctRhs<2, (int)solvers::trapez, opts::abs | opts::fct>>, C2>::explore(c, s, {2, 1}, 3, 2); });
CASE("advection 2D rigid", 10, [](suite::Ctx &c) { Dist<Mpd<CT<2, 1, opts::abs | opts::fct | opts::dfl>>, R2>::explore(c, flow<2>({11, 5, 1}, OOO), {2, 1}, 3, 2); });
CASE("velocities 2D, absorber", 10, [](suite::Ctx &c) { Dist<Vip<ctVip<2, (int)solvers::trapez, opts::iga, (int)solvers::impl>>, C2>::explore(c, with(veloc<2>({9, 5, 1}, CCC), {"vab_coeff", "vab_relax0", "vab_relax1"}), {2, 1}, 3, 2); });
CASE("velocities 2D third order", 10, [](suite::Ctx &c) { Dist<Vip<ctVip<2, (int)solvers::trapez, ABS | opts::div_2nd | opts::div_3rd_dt>>, C2>::explore(c, veloc<2>({13, 5, 1}, CCC), {2, 1}, 3, 2); });
CASE("water 2D", 10, [](suite::Ctx &c) { Dist<Shw<ctShw<2, opts::abs | opts::fct>>, C2>::explore(c, veloc<2>({9, 5, 1}, CCC), {2, 1}, 3, 2); });
#elif PART == 3
CASE("pressure cr 2D", 10, [](suite::Ctx &c) { Dist<Prs<ctPrs<2, (int)solvers::cr, opts::iga | opts::fct>>, XC_YR>::explore(c, veloc<2>({9, 5, 1}, COO), {2, 1}, 3, 2, 1e-5); });
CASE("pressure mr 2D open", 10, [](suite::Ctx &c) { Dist<Prs<ctPrs<2, (int)solvers::mr, opts::abs>>, O2>::explore(c, inner(veloc<2>({9, 5, 1}, OOO)), {2, 1}, 3, 2, 1e-5); });
CASE("pressure gcrk 2D density", 10, [](suite::Ctx &c) { Dist<Prs<ctPrs<2, (int)solvers::gcrk, opts::iga | opts::nug>>, C2>::explore(c, veloc<2>({9, 5, 1}, CCC), {2, 1}, 3, 2, 1e-5); });
CASE("pressure pc 2D rigid", 10, [](suite::Ctx &c) { Dist<Prs<ctPrs<2, (int)solvers::pc, opts::iga>>, XR_YC>::explore(c, veloc<2>({9, 5, 1}, OCC), {2, 1}, 3, 2, 1e-5); });
#elif PART == 4
CASE("viscosity compact 2D", 10, [](suite::Ctx &c) { Dist<Sgs<ctSgs<2, (int)solvers::dns, (int)solvers::compact, opts::iga>>, XC_YR>::explore(c, veloc<2>({9, 5, 1}, COO), {2, 1}, 3, 2, 1e-5); });
CASE("Smagorinsky compact 2D", 10, [](suite::Ctx &c) { Dist<Sgs<ctSgs<2, (int)solvers::smg, (int)solvers::compact, opts::iga>>, XC_YR>::explore(c, veloc<2>({9, 5, 1}, COO), {2, 1}, 3, 2, 1e-5); });
CASE("Boussinesq 2D", 10, [](suite::Ctx &c) { Dist<Bou<ctBou<2, true, opts::iga | opts::fct>>, XC_YR>::explore(c, warm(with(veloc<2>({9, 5, 1}, COO), {"tht_e"}), 2), {2, 1}, 3, 2, 1e-5); });
#elif PART == 5
CASE("advection 3D cyclic", 10, [](suite::Ctx &c) { Dist<Mpd<CT<3, 2, 0>>, C3>::explore(c, flow<3>({8, 4, 3}, CCC), {2, 1}, 4, 3); });
CASE("advection 3D open", 10, [](suite::Ctx &c) { Dist<Mpd<CT<3, 1, opts::fct | opts::iga | opts::dfl>>, X3O>::explore(c, flow<3>({9, 5, 4}, OCC), {2, 1}, 3, 3); });
CASE("advection 3D third order", 10, [](suite::Ctx &c) { Dist<Mpd<CT<3, 1, opts::abs | opts::div_2nd | opts::div_3rd>>, C3>::explore(c, flow<3>({10, 4, 4}, CCC), {2, 1}, 3, 2); });
#elif PART == 6
CASE("advection 3D monotone, mixed ends", 10, [](suite::Ctx &c) { Dist<Mpd<CT<3, 1, opts::fct | opts::abs | opts::nug | opts::dfl>>, X3M>::explore(c, flow<3>({9, 4, 4}, COO), {2, 1}, 3, 3); });
CASE("velocities 3D", 10, [](suite::Ctx &c) { Dist<Vip<ctVip<3, (int)solvers::euler_b, opts::iga>>, C3>::explore(c, veloc<3>({8, 4, 4}, CCC), {2, 1}, 3, 2); });
CASE("velocities 3D third order", 10, [](suite::Ctx &c) { Dist<Vip<ctVip<3, (int)solvers::trapez, ABS | opts::div_2nd | opts::div_3rd>>, C3>::explore(c, veloc<3>({10, 4, 4}, CCC), {2, 1}, 3, 2); });
CASE("pressure cr 3D", 10, [](suite::Ctx &c) { Dist<Prs<ctPrs<3, (int)solvers::cr, opts::iga>>, X3R>::explore(c, veloc<3>({8, 4, 4}, {{false, true, false}}), {2, 1}, 3, 2, 1e-5); });
#elif PART == 7
CASE("Smagorinsky anisotropic 3D", 10, [](suite::Ctx &c) { Dist<Sgs<ctSgs<3, (int)solvers::smgani, (int)solvers::compact, opts::iga>>, X3Z>::explore(c, veloc<3>({8, 4, 4}, CCO), {2, 1}, 3, 2, 1e-5); });
CASE("Boussinesq Smagorinsky 3D", 10, [](suite::Ctx &c) { Dist<Bou<ctBou<3, false, opts::iga, (int)solvers::smg, (int)solvers::compact>>, X3G>::explore(c, warm(with(veloc<3>({8, 4, 4}, CCO), {"tht_e", "tht_abs", "mix_len"}), 3), {2}, 3, 2, 1e-5); });
#endif
}
