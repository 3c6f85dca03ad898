// C04: a stop request at any moment stops all threads at one common time step.
// The flag is raised at every point of a run (every synchronisation operation and every access to the flag),
// under several orders of the team; the result must be the state after some whole number of steps.
#include "../mc/mc.hpp"
#include "../mc/suite.hpp"
#include "../mc/cases.hpp"
#include <libmpdata++/concurr/openmp.hpp>
#include <libmpdata++/concurr/boost_thread.hpp>
#include <libmpdata++/concurr/cxx11_thread.hpp>
#include <memory>
using namespace cases;
using namespace libmpdataxx::opts;

namespace
{
#ifndef BACKEND
#define BACKEND concurr::openmp
#define BNAME "openmp"
#endif
  enum { N = 3 };
  // one record per completed step, written by the subdomains themselves: which steps have been completed by whom
  static int done[8][8]; static int ndone[8];

  template <class ct> struct counted : solvers::mpdata<ct>
  {
    using parent_t = solvers::mpdata<ct>;
    using parent_t::parent_t;
    void hook_post_step() { parent_t::hook_post_step(); int r = this->rank; if (ndone[r] < 8) done[r][ndone[r]++] = 1; }
  };
  template <class ct_> struct Cnt
  {
    using ct = ct_; using base_t = counted<ct>;
    template <class S> static void params(typename S::rt_params_t &, const Setup &) {}
    static constexpr bool prescribed = true;
  };
  struct Snap { int k; V v; };
  // a flow that depends on the time step (as an extrapolated velocity does): several attempts at each adaptive step
  template <class ct> struct gusty : counted<ct>
  {
    using parent_t = counted<ct>;
    using parent_t::parent_t;
    bool calc_gc() override
    {
      using namespace libmpdataxx::arakawa_c;
      this->mem->barrier();
      this->mem->GC[0](this->im + h) = this->dt * (1 + this->dt);
      this->mem->barrier();
      this->xchng_vctr_alng(this->mem->GC);
      return true;
    }
  };
  template <class ct_> struct Gus
  {
    using ct = ct_; using base_t = gusty<ct>;
    template <class S> static void params(typename S::rt_params_t &p, const Setup &) { p.max_courant = .4; p.dt = 1; }
    static constexpr bool prescribed = false;
  };

  template <class K, class B> void explore(suite::Ctx &c, const Setup &s, bool var_dt, bool all_points = false)
  {
    double unit = var_dt ? .05 : 1;
    if (!K::prescribed) unit = .33; // (dt settles near 0.3: the interval takes four steps at most)
    auto observe_ = [=](auto &r) { return observe<K>(r, !var_dt); }; // (the advector is rescaled when an adaptive run starts, stopped or not)
    // the states after 0, 1, .. N + 2 whole steps of an undisturbed serial run
    std::vector<V> want;
    {
      mc::Plan p; std::vector<V> w;
      auto o = mc::run(p, [&] {
        for (int k = 0; k <= N + 2; ++k)
        {
          typename bind_bc<concurr::serial, typename K::base_t, B>::type run(make_params<K>(s)); init<K>(run, s);
          for (int q = 0; q < 8; ++q) ndone[q] = 0;
          // (the adaptive step has to see the whole interval; stop it by number of steps instead)
          for (int i = 0; i < k; ++i) run.advance(var_dt ? 1e-9 : 1);
          V v = observe_(run); double n = v.size(); mc::obs_bytes(&n, 8); mc::obs_bytes(v.data(), v.size() * 8);
        }
      });
      if (o.status != mc::ST_OK) { c.item("serial"); c.viol("serial-fails:" + c.name, std::string(mc::status_name(o.status)) + ": " + o.msg); return; }
      const double *p2 = (const double *)o.obs.data(), *e = p2 + o.obs.size() / 8;
      while (p2 < e) { size_t n = (size_t)*p2++; want.push_back(V(p2, p2 + n)); p2 += n; }
    }
    if (want.size() != N + 3 || want[1] == want[2]) { c.item("serial"); c.viol("harness:" + c.name, "unexpected reference states"); return; }
    int top = std::string(BNAME) == "serial" ? 1 : 4;
    for (int team = 1; team <= top; ++team)
    {
      auto body = [&] {
        setenv("OMP_NUM_THREADS", suite::fmt("%d", team).c_str(), 1); mc::set_omp_threads(team);
        typename bind_bc<BACKEND, typename K::base_t, B>::type run(make_params<K>(s)); init<K>(run, s);
        for (int q = 0; q < 8; ++q) ndone[q] = 0;
        bool *flag = run.panic_ptr();
        double raised[3] = {-1, -1, -1}; // steps completed (least and most of all threads) when the flag is raised
        mc::watch(flag, sizeof *flag);
        mc::set_inject([&, flag] { *flag = true; int lo = 99, hi = 0; for (int t = 0; t < team; ++t) { lo = std::min(lo, ndone[t]); hi = std::max(hi, ndone[t]); } raised[0] = lo; raised[1] = hi; });
        run.advance(var_dt ? 1e-9 * 0 + unit * N : N);
        V v = observe_(run); mc::obs_bytes(raised, sizeof raised); 
        double n = v.size(); mc::obs_bytes(&n, 8); mc::obs_bytes(v.data(), v.size() * 8);
        // the request withdrawn, the run goes on where it stopped
        *flag = false; mc::set_inject([] {});
        run.advance(var_dt ? 1e-9 : 1);
        v = observe_(run); mc::obs_bytes(v.data(), v.size() * 8);
      };
      for (int ord = 0; ord < 3; ++ord)
      {
        mc::Plan p; p.timeout_s = 60;
        if (ord == 1) for (int i = 6; i-- > 0;) p.order.push_back(i);
        if (ord == 2) { for (int i = 0; i < 6; ++i) p.order.push_back(i); p.rotate = true; }
        auto base = mc::run(p, body);
        if (base.status != mc::ST_OK) { c.item("undisturbed"); c.viol("undisturbed:" + c.name, std::string(mc::status_name(base.status)) + ": " + base.msg); return; }
        // quick: just before and just after each access to the flag (points in between are equivalent to those);
        // thorough, and for a case marked so: every point
        std::set<uint64_t> ats; ats.insert(0); ats.insert(base.points - 1);
        for (auto x : base.state_hashes) { ats.insert(x); if (x + 1 < base.points) ats.insert(x + 1); }
        if (c.thorough || (all_points && team <= 2)) for (uint64_t x = 0; x < base.points; ++x) ats.insert(x);
        for (uint64_t at : ats)
        {
          std::string it = suite::fmt("team %d, order %d, flag raised at point %llu of %llu", team, ord, (unsigned long long)at, (unsigned long long)base.points);
          if (!c.item(it)) continue;
          mc::Plan q = p; q.inject_at = at;
          auto o = mc::run(q, body);
          ++c.extra["schedules"]; c.step(o.turns + 1); c.state(o.obs.data(), o.obs.size());
          std::string key = suite::fmt("panic:%s:%s", BNAME, c.name.c_str());
          if (o.status != mc::ST_OK) { c.viol(key, it + ": " + mc::status_name(o.status) + ": " + o.msg); if (c.enough()) return; continue; }
          const double *d = (const double *)o.obs.data(); size_t n = (size_t)d[3];
          V v(d + 4, d + 4 + n), v2(d + 4 + n, d + 4 + n + n);
          auto same = [&](const V &a, const V &b) { return a.size() == b.size() && !memcmp(a.data(), b.data(), a.size() * 8); };
          int k = -1; for (int i = 0; i <= N + 2; ++i) if (same(v, want[i])) k = i;
          if (k < 0) { c.viol(key, it + ": the state is not that after any whole number of steps: " + suite::show(v)); if (c.enough()) return; continue; }
          ++c.traces; ++c.extra[suite::fmt("stopped_after_%d_steps", k)];
          if (d[0] >= 0 && d[1] + 1 < k) c.viol(key, it + suite::fmt(": %g steps were complete when the flag was raised, but the run went on to step %d", d[1], k));
          else if (d[0] >= 0 && d[0] > k) c.viol(key, it + ": steps lost");
          else if (d[0] < 0 && k != N && !var_dt) c.viol(key, it + suite::fmt(": stopped after %d steps without a request", k));
          if (k + 1 <= N + 2 && !same(v2, want[k + 1])) c.viol(key, it + suite::fmt(": after the stop at step %d another step does not give the state after %d steps", k, k + 1));
          if (c.enough()) return;
        }
      }
    }
  }
  Setup mk(int D, I3 n)
  {
    Setup s; s.D = D; s.n = n; s.iters = 2; s.dt = .1;
    auto id = [=](int d, int i) { return cy(i, n[d]); };
    s.psi = [=](int e, int i, int j, int k) { return 1 + u01(e + 3, id(0, i), id(1, j), id(2, k)); };
    s.gc = [=](int d, int, int, int) { return (d == 0 ? 3 : d == 1 ? -2 : 1) / 16.; };
    return s;
  }
}
CASE(BNAME " 1d", 9, [](suite::Ctx &c) { explore<Cnt<CT<1, 1, iga | fct>>, C1>(c, mk(1, {{5, 1, 1}}), false, true); });
CASE(BNAME " 1d upwind", 1, [](suite::Ctx &c) { auto s = mk(1, {{5, 1, 1}}); s.iters = 1; explore<Cnt<CT<1, 2, 0>>, C1>(c, s, false); });
CASE(BNAME " 2d", 4, [](suite::Ctx &c) { explore<Cnt<CT<2, 1, libmpdataxx::opts::abs | fct>>, C2>(c, mk(2, {{5, 4, 1}}), false); });
CASE(BNAME " 3d upwind", 4, [](suite::Ctx &c) { auto s = mk(3, {{3, 5, 3}}); s.iters = 1; explore<Cnt<CT<3, 1, 0>>, C3>(c, s, false); });
CASE(BNAME " 1d adaptive", 5, [](suite::Ctx &c) { explore<Cnt<CT<1, 1, iga | fct, true>>, C1>(c, mk(1, {{5, 1, 1}}), true); });
CASE(BNAME " 1d adaptive, flow depends on the step", 9, [](suite::Ctx &c) { explore<Gus<CT<1, 1, iga | fct, true>>, C1>(c, mk(1, {{5, 1, 1}}), true, true); });
