// C02: every backend terminates and covers the grid, for any thread count, grid shape and history of two objects.
// The real backends run under the controlled scheduler: a missing or surplus barrier arrival is a deadlock it sees.
#include "../mc/mc.hpp"
#include "../mc/suite.hpp"
#include "../mc/cases.hpp"
#include <libmpdata++/concurr/openmp.hpp>
#include <libmpdata++/concurr/boost_thread.hpp>
#include <libmpdata++/concurr/cxx11_thread.hpp>
#include <memory>
using namespace cases;
using namespace libmpdataxx::opts;

namespace
{
  Setup mk(int D, I3 n, bool cyclic)
  {
    Setup s; s.D = D; s.n = n; s.iters = 2; s.dt = .1;
    auto id = [=](int d, int i) { return cyclic ? cy(i, n[d]) : i; };
    s.psi = [=](int e, int i, int j, int k) { return 1 + u01(e + 3, id(0, i), id(1, j), id(2, k)); };
    s.gc = [=](int d, int, int, int) { return (d == 0 ? 3 : d == 1 ? -2 : 1) / 16.; };
    return s;
  }
  // how the thread count is asked for
  struct Ask { int env, icv; }; // env: OMP_NUM_THREADS (-1: unset, -2: empty), icv: omp_set_num_threads()
  std::string name(const Ask &a) { return a.env == -1 ? suite::fmt("omp_set_num_threads(%d)", a.icv) : a.env == -2 ? "OMP_NUM_THREADS=" : a.env == -3 ? "OMP_NUM_THREADS=-1" : suite::fmt("OMP_NUM_THREADS=%d", a.env); }
  void ask(const Ask &a)
  {
    if (a.env == -1) { unsetenv("OMP_NUM_THREADS"); mc::set_omp_threads(a.icv); }
    else { setenv("OMP_NUM_THREADS", a.env == -2 ? "" : a.env == -3 ? "-1" : suite::fmt("%d", a.env).c_str(), 1); mc::set_omp_threads(a.env > 0 ? a.env : 8); }
  }

  template <int D, bool VD> using K_ = Mpd<CT<D, 1, iga | fct, VD>>;
  template <int D, bool CYC> using B_ = typename std::conditional<CYC, typename std::conditional<D == 1, C1, typename std::conditional<D == 2, C2, C3>::type>::type, typename std::conditional<D == 1, O1, typename std::conditional<D == 2, O2, O3>::type>::type>::type;

  struct Solver { virtual ~Solver() {} virtual void adv(double) = 0; virtual V get() = 0; };
  template <template <class, bcond::bcond_e, bcond::bcond_e, bcond::bcond_e, bcond::bcond_e, bcond::bcond_e, bcond::bcond_e> class C, int D, bool VD, bool CYC>
  struct Impl : Solver
  {
    typedef K_<D, VD> K;
    typename bind_bc<C, typename K::base_t, B_<D, CYC>>::type run;
    Impl(const Setup &s) : run(make_params<K>(s)) { init<K>(run, s); }
    void adv(double n) { run.advance(VD ? n * .07 : n); }
    V get() { return observe<K>(run); }
  };

#ifndef BACKEND
#define BACKEND concurr::openmp
#define BNAME "openmp"
#endif
  const bool is_omp = std::string(BNAME) == "openmp";
  template <int D, bool VD, bool CYC> std::unique_ptr<Solver> make(const Setup &s, bool ser)
  {
    if (ser) return std::unique_ptr<Solver>(new Impl<concurr::serial, D, VD, CYC>(s));
    return std::unique_ptr<Solver>(new Impl<BACKEND, D, VD, CYC>(s));
  }

  const char *orders[] = {"first runnable thread first", "last runnable thread first", "threads taking turns to go first"};
  mc::Plan plan(int o)
  {
    mc::Plan p; p.timeout_s = 120; p.fill = 0xff;
    if (o == 1) for (int i = 9; i-- > 0;) p.order.push_back(i);
    if (o == 2) { for (int i = 0; i < 9; ++i) p.order.push_back(i); p.rotate = true; }
    return p;
  }
  std::string shape(int D, const I3 &n) { std::string s = suite::fmt("%d", n[0]); for (int d = 1; d < D; ++d) s += suite::fmt("x%d", n[d]); return s; }

  void judge(suite::Ctx &c, const std::string &key, const mc::Outcome &ref, const mc::Outcome &o, const std::string &how)
  {
    c.step(o.turns + 1); ++c.extra["schedules"];
    c.state(o.obs.data(), o.obs.size());
    if (o.status == mc::ST_THROW && ref.status == mc::ST_THROW) { ++c.traces; ++c.extra["rejected"]; return; }
    if (o.status == mc::ST_THROW && o.msg.find("libmpdata++:") == 0) { ++c.traces; ++c.extra["rejected"]; return; } // refused at construction
    if (o.status == mc::ST_OK && ref.status == mc::ST_OK && o.obs == ref.obs) { ++c.traces; return; }
    std::string m = how + ": ";
    if (o.status != mc::ST_OK) m += std::string(mc::status_name(o.status)) + ": " + o.msg;
    else if (ref.status != mc::ST_OK) m += std::string("runs, but the serial backend ends with ") + mc::status_name(ref.status) + ": " + ref.msg;
    else
    {
      const double *a = (const double *)o.obs.data(), *b = (const double *)ref.obs.data(); size_t n = o.obs.size() / 8, bad = 0, first = n;
      if (o.obs.size() != ref.obs.size()) m += "another number of observables";
      else { for (size_t i = 0; i < n; ++i) if (memcmp(a + i, b + i, 8)) { if (first == n) first = i; ++bad; } m += suite::fmt("%zu of %zu observables differ from the serial backend, no. %zu: %.17g instead of %.17g", bad, n, first, a[first], b[first]); }
    }
    c.viol(key, m);
  }

  template <int D, bool VD, bool CYC> void shapes(suite::Ctx &c)
  {
    std::vector<I3> sh;
    int lo = CYC ? 2 : 1, hi = D == 1 ? 6 : D == 2 ? 4 : 4;
    for (int i = lo; i <= hi + (D == 3); ++i) for (int j = lo; j <= (D > 1 ? hi + (D == 3) : lo); ++j) for (int k = lo; k <= (D > 2 ? hi : lo); ++k)
    {
      if (CYC && (D > 2 ? k : D > 1 ? j : 3) < 3) continue; // (two points of a cyclic last direction are too few for the serial backend)
      if (D == 3 && !c.thorough && k != 3 + (i + j) % 2) continue; // quick: one depth per horizontal shape
      sh.push_back({{i, D > 1 ? j : 1, D > 2 ? k : 1}});
    }
    std::vector<Ask> asks;
    for (int t = 0; t <= 5; ++t) asks.push_back({t, 0});
    asks.push_back({-2, 0}); asks.push_back({-3, 0});
    if (is_omp) for (int t = 1; t <= 5; ++t) asks.push_back({-1, t});
    for (auto &n : sh)
    {
      Setup s = mk(D, n, CYC);
      auto body = [&](bool ser) { return [&, ser] { auto r = make<D, VD, CYC>(s, ser); for (int h : {1, 2}) { r->adv(h); V v = r->get(); mc::obs_bytes(v.data(), v.size() * 8); } }; };
      mc::Outcome ref; bool have = false;
      for (auto &a : asks)
      {
        std::string it = shape(D, n) + " " + name(a);
        if (!c.item(it)) continue;
        if (!have) { ref = mc::run(plan(0), body(true)); have = true; ++c.extra["shapes"]; if (ref.status != mc::ST_OK && ref.status != mc::ST_THROW) { ++c.extra["shapes_serial_fails"]; break; } if (ref.status != mc::ST_OK) c.sample("serial " + it + ": " + mc::status_name(ref.status) + " " + ref.msg); }
        for (int o = 0; o < 3; ++o)
        {
          auto oc = mc::run(plan(o), [&] { ask(a); body(false)(); });
          judge(c, suite::fmt("shape:%s:%dd:%s:%s", BNAME, D, shape(D, n).c_str(), name(a).c_str()), ref, oc, it + ", " + orders[o]);
          if (c.enough()) return;
        }
      }
    }
  }

  // two objects, constructed with different thread counts, advanced in every order
  void two(suite::Ctx &c)
  {
    struct Obj { int D; I3 n; };
    std::vector<Obj> objs = {{1, {{2, 1, 1}}}, {1, {{6, 1, 1}}}, {2, {{4, 3, 1}}}, {3, {{2, 4, 3}}}, {3, {{4, 2, 3}}}};
    auto mko = [&](const Obj &o, bool ser) { Setup s = mk(o.D, o.n, true); return o.D == 1 ? make<1, false, true>(s, ser) : o.D == 2 ? make<2, false, true>(s, ser) : make<3, false, true>(s, ser); };
    std::vector<Ask> asks = {{1, 0}, {2, 0}, {4, 0}};
    if (is_omp) { asks.push_back({-1, 2}); asks.push_back({-1, 4}); asks.push_back({-1, 0}); } // (icv 0: leave as it is)
    int len = 3;
    for (auto &oa : objs) for (auto &ob : objs)
    for (auto &ta : asks) for (auto &tb : asks)
    {
      if (ta.env == -1 && ta.icv == 0) continue;
      if (!c.thorough && oa.D == 3 && ob.D == 3) continue;
      for (int w = 0; w < (1 << len); ++w)
      {
        if (!c.thorough && w != 0 && w != 2 && w != 5) continue; // quick: AAA, ABA, BAB
        // item: where B is constructed (after the first operation on A or before) is part of the history
        for (int late = 0; late < 2; ++late)
        {
          std::string hist; for (int i = 0; i < len; ++i) hist += (w >> i & 1) ? 'B' : 'A';
          if (late && hist[0] == 'B') continue;
          std::string it = suite::fmt("A %dd %s %s, B %dd %s %s constructed %s, advance %s", oa.D, shape(oa.D, oa.n).c_str(), name(ta).c_str(), ob.D, shape(ob.D, ob.n).c_str(), name(tb).c_str(), late ? "after the first advance" : "first", hist.c_str());
          if (!c.item(it)) continue;
          auto body = [&](bool ser) { return [&, ser] {
            auto set = [&](const Ask &a) { if (a.env == -1 && a.icv == 0) unsetenv("OMP_NUM_THREADS"); else ask(a); };
            std::unique_ptr<Solver> o[2];
            set(ta); o[0] = mko(oa, ser);
            if (!late) { set(tb); o[1] = mko(ob, ser); }
            for (int i = 0; i < len; ++i)
            {
              o[hist[i] - 'A']->adv(1);
              if (late && i == 0) { set(tb); o[1] = mko(ob, ser); }
            }
            for (auto &x : o) { V v = x->get(); mc::obs_bytes(v.data(), v.size() * 8); }
          }; };
          auto ref = mc::run(plan(0), body(true));
          auto oc = mc::run(plan(0), body(false));
          judge(c, suite::fmt("two:%s:%s", BNAME, it.c_str()), ref, oc, it);
          if (c.enough()) return;
        }
      }
    }
  }

  // every schedule of the synchronisation operations up to a number of preemptions
  template <int D, bool VD> void sched(suite::Ctx &c, I3 n, int team, int bound, uint64_t cap)
  {
    Setup s = mk(D, n, true); s.iters = 1;
    auto body = [&](bool ser) { return [&, ser] { auto r = make<D, VD, true>(s, ser); r->adv(2); V v = r->get(); mc::obs_bytes(v.data(), v.size() * 8); }; };
    std::string it = suite::fmt("%s team %d, up to %d departures from the default schedule", shape(D, n).c_str(), team, bound);
    if (!c.item(it)) return;
    auto ref = mc::run(plan(0), body(true));
    mc::Plan p = plan(0); p.mutex_points = true; p.count_all = true;
    auto st = mc::search(p, bound, cap, [&] { ask({team, 0}); body(false)(); }, [&](const mc::Outcome &o, const std::vector<uint16_t> &pre) {
      c.item(it);
      std::string m = it + ", choices"; for (auto x : pre) m += suite::fmt(" %d", x);
      judge(c, suite::fmt("sched:%s:%s", BNAME, it.c_str()), ref, o, m);
      return !c.enough();
    }, c.thorough ? 1800 : 100);
    c.extra["choice_points"] += st.choice_points;
    if (!st.complete) ++c.extra["searches_beyond_cap"]; else ++c.extra["searches_completed"];
    c.sample(suite::fmt("%s: %llu schedules%s", it.c_str(), (unsigned long long)st.executions, st.complete ? ", all" : ""));
  }
}

namespace
{
  // subdomains as the solver objects receive them: every extent of the decomposed direction and every team
  std::vector<std::array<int, 4>> ranges_;
  template <int D> struct probe : solvers::mpdata<CT<D, 1, 0>>
  {
    using parent_t = solvers::mpdata<CT<D, 1, 0>>;
    probe(typename parent_t::ctor_args_t args, const typename parent_t::rt_params_t &p) : parent_t(args, p)
    { enum { d = D == 3 ? 1 : 0 }; ranges_.push_back({{this->rank, this->ijk[d].first(), this->ijk[d].last(), 0}}); }
  };
  template <int D> struct Prb { using ct = CT<D, 1, 0>; using base_t = probe<D>; template <class S> static void params(typename S::rt_params_t &, const Setup &) {} static constexpr bool prescribed = true; };
  template <int D> void tiles(suite::Ctx &c)
  {
    int N = c.thorough ? (D == 1 ? 260 : 130) : D == 1 ? 130 : 66;
    for (int n = 3; n <= N; ++n)
    {
      if (!c.item(suite::fmt("%d points, teams of 1..16", n))) continue;
      Setup s = mk(D, D == 3 ? I3{{2, n, 3}} : D == 2 ? I3{{n, 3, 1}} : I3{{n, 1, 1}}, true);
      auto body = [&] {
        for (int t = 1; t <= 16; ++t)
        {
          setenv("OMP_NUM_THREADS", suite::fmt("%d", t).c_str(), 1); mc::set_omp_threads(t);
          ranges_.clear();
          typename bind_bc<BACKEND, probe<D>, CY<D>>::type run(make_params<Prb<D>>(s));
          double z = ranges_.size(); mc::obs_bytes(&z, 8);
          for (auto &r : ranges_) { double q[3] = {(double)r[0], (double)r[1], (double)r[2]}; mc::obs_bytes(q, sizeof q); }
        }
      };
      auto o = mc::run(plan(0), body); c.step();
      std::string key = suite::fmt("tiles:%s:%dd:%d", BNAME, D, n);
      if (o.status != mc::ST_OK) { c.viol(key, std::string(mc::status_name(o.status)) + ": " + o.msg); if (c.enough()) return; continue; }
      c.state(o.obs.data(), o.obs.size());
      const double *p = (const double *)o.obs.data();
      for (int t = 1; t <= 16; ++t)
      {
        int k = (int)*p++, at = 0; std::string bad, all;
        if (k != std::min(n, t)) bad = suite::fmt("%d subdomains", k);
        for (int i = 0; i < k; ++i, p += 3)
        {
          all += suite::fmt(" %g..%g", p[1], p[2]);
          if ((int)p[0] != i || (int)p[1] != at || p[2] < p[1]) bad = "they do not tile the grid";
          at = (int)p[2] + 1;
        }
        if (at != n) bad = "they do not tile the grid";
        ++c.traces;
        if (!bad.empty()) { c.viol(key, suite::fmt("%d points, %d threads: %s:%s", n, t, bad.c_str(), all.c_str())); break; }
      }
      if (c.enough()) return;
    }
  }
}
#define B BNAME " "
CASE(B "1d cyclic", 3, [](suite::Ctx &c) { shapes<1, false, true>(c); });
CASE(B "1d open", 3, [](suite::Ctx &c) { shapes<1, false, false>(c); });
CASE(B "1d cyclic var_dt", 3, [](suite::Ctx &c) { shapes<1, true, true>(c); });
CASE(B "2d cyclic", 4, [](suite::Ctx &c) { shapes<2, false, true>(c); });
CASE(B "2d open", 5, [](suite::Ctx &c) { shapes<2, false, false>(c); });
CASE(B "3d cyclic", 8, [](suite::Ctx &c) { shapes<3, false, true>(c); });
CASE(B "3d cyclic var_dt", 9, [](suite::Ctx &c) { shapes<3, true, true>(c); });
CASE(B "two objects", 10, [](suite::Ctx &c) { two(c); });
CASE(B "schedules 1d team 2", 7, [](suite::Ctx &c) { sched<1, false>(c, {{4, 1, 1}}, 2, c.thorough ? 2 : 1, 1000000); });
CASE(B "schedules 1d team 3", 7, [](suite::Ctx &c) { sched<1, true>(c, {{4, 1, 1}}, 3, c.thorough ? 2 : 1, 1000000); });
CASE(B "tiles 1d", 2, tiles<1>);
CASE(B "tiles 2d", 2, tiles<2>);
CASE(B "tiles 3d", 2, tiles<3>);
