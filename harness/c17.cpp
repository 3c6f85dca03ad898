// C17: reductions. The library's max/min/sum/sum of products (plain and compensated), called by all threads of a team
// one after another inside a step, under the controlled scheduler: every position of the extremum, every pair of
// consecutive operations, teams, orders and schedules; every thread must get the exact extremum / the sum a team of one gets.
#include "../mc/mc.hpp"
#include "../mc/suite.hpp"
#include "../mc/cases.hpp"
#include <libmpdata++/concurr/openmp.hpp>
#include <libmpdata++/concurr/cxx11_thread.hpp>
using namespace cases;
using namespace libmpdataxx::opts;
#ifndef BACKEND
#define BACKEND concurr::openmp
#define BNAME "openmp"
#endif

namespace
{
  enum Op { MAX, MIN, SUM, SUM2, KSUM, KSUM2, NOP };
  const char *op_name[] = {"max", "min", "sum", "sum of products", "compensated sum", "compensated sum of products"};
  struct Call { int op, field; };
  // the script and the fields: plain memory, only read by the threads; results are written to a slot of each thread's own
  std::vector<Call> script; std::vector<V> fields; I3 gn; V results[8];
  template <int D, class T> struct ctR : CT<D, 2, 0> { using real_t = T; };
  template <class ct> struct probe : solvers::mpdata<ct>
  {
    using parent_t = solvers::mpdata<ct>; using parent_t::parent_t; using real_t = typename ct::real_t;
    template <class A> void put(A a, const V &f) const
    {
      auto I = this->ijk;
      blitz::TinyVector<int, ct::n_dims> x;
      const int d2 = ct::n_dims > 2 ? 2 : 0, d1 = ct::n_dims > 1 ? 1 : 0;
      for (int i = I[0].first(); i <= I[0].last(); ++i)
        for (int j = ct::n_dims > 1 ? I[d1].first() : 0; j <= (ct::n_dims > 1 ? I[d1].last() : 0); ++j)
          for (int k = ct::n_dims > 2 ? I[d2].first() : 0; k <= (ct::n_dims > 2 ? I[d2].last() : 0); ++k)
          { x[0] = i; if (ct::n_dims > 1) x[d1] = j; if (ct::n_dims > 2) x[d2] = k; a(x) = (real_t)f[((size_t)i * gn[1] + j) * gn[2] + k]; }
    }
    void hook_ante_step()
    {
      parent_t::hook_ante_step();
      V &out = results[this->rank];
      for (auto &q : script)
      {
        put(this->state(0), fields[q.field]); put(this->state(1), fields[(q.field + 1) % fields.size()]);
        double r = 0; auto I = this->ijk;
        switch (q.op)
        {
          case MAX: r = this->mem->max(this->rank, this->state(0)(I)); break;
          case MIN: r = this->mem->min(this->rank, this->state(0)(I)); break;
          case SUM: case KSUM: r = this->mem->sum(this->rank, this->state(0), I, q.op == KSUM); break;
          default: r = this->mem->sum(this->rank, this->state(0), this->state(1), I, q.op == KSUM2);
        }
        out.push_back(r);
      }
      this->mem->barrier();
    }
  };
  template <class ct_> struct Prb { using ct = ct_; using base_t = probe<ct>; template <class S> static void params(typename S::rt_params_t &, const Setup &) {} static constexpr bool prescribed = true; };
  template <int D, class T> struct Bd
  {
    // body of one execution: results of all threads, then what the user reads after the run
    static void go(bool ser, int team)
    {
      Setup s; s.D = D; s.n = gn; s.iters = 1;
      s.psi = [](int, int, int, int) { return 0.; }; s.gc = [](int, int, int, int) { return 0.; };
      using K = Prb<ctR<D, T>>;
      for (auto &r : results) r.clear();
      setenv("OMP_NUM_THREADS", suite::fmt("%d", team).c_str(), 1); mc::set_omp_threads(team);
      auto run = [&](auto &r) {
        init<K>(r, s); r.advance(1);
        for (int t = 0; t < (ser ? 1 : team); ++t) mc::obs_bytes(results[t].data(), results[t].size() * 8);
        double v[4] = {(double)r.min(0), (double)r.max(0), (double)r.min(1), (double)r.max(1)}; mc::obs_bytes(v, sizeof v);
      };
      if (ser) { typename bind_bc<concurr::serial, typename K::base_t, CY<D>>::type r(make_params<K>(s)); run(r); }
      else { typename bind_bc<BACKEND, typename K::base_t, CY<D>>::type r(make_params<K>(s)); run(r); }
    }
  };
  mc::Plan plan(int o)
  {
    mc::Plan p; p.timeout_s = 120; p.fill = 0xff;
    if (o == 1) for (int i = 9; i-- > 0;) p.order.push_back(i);
    if (o == 2) { for (int i = 0; i < 9; ++i) p.order.push_back(i); p.rotate = true; }
    return p;
  }
  const char *orders[] = {"first thread first", "last thread first", "taking turns to go first"};
  template <class T> struct Exact
  {
    double ext(const Call &q) const { const V &f = fields[q.field]; T r = (T)f[0]; for (double x : f) r = q.op == MAX ? std::max(r, (T)x) : std::min(r, (T)x); return r; }
    // exact sum and the error that may be made
    void sum(const Call &q, long double &s, long double &tol) const
    {
      const V &f = fields[q.field], &g = fields[(q.field + 1) % fields.size()]; bool two = q.op == SUM2 || q.op == KSUM2; long double a = 0; __float128 e = 0;
      for (size_t i = 0; i < f.size(); ++i) { long double x = (T)f[i]; if (two) x *= (T)g[i]; e += (__float128)x; a += std::fabs(x); }
      s = (long double)e; tol = a * (q.op == KSUM || q.op == KSUM2 ? 6 : (double)f.size()) * 2.3e-16L + (two ? a * std::numeric_limits<T>::epsilon() : 0);
    }
  };
  template <int D, class T> bool judge(suite::Ctx &c, const std::string &key, const mc::Outcome &ref, const mc::Outcome &o, int team, const std::string &how)
  {
    c.step(o.turns + 1); ++c.extra["schedules"]; c.state(o.obs.data(), o.obs.size());
    if (o.status != mc::ST_OK || ref.status != mc::ST_OK) { c.viol(key, how + ": " + mc::status_name(o.status != mc::ST_OK ? o.status : ref.status) + ": " + o.msg + ref.msg); return false; }
    const double *p = (const double *)o.obs.data(), *r = (const double *)ref.obs.data(); size_t n = script.size(); Exact<T> ex;
    if (o.obs.size() != (n * team + 4) * 8 || ref.obs.size() != (n + 4) * 8) { c.viol(key, how + ": not all results"); return false; }
    for (int t = 0; t < team; ++t) for (size_t i = 0; i < n; ++i)
    {
      double got = p[t * n + i]; std::string bad;
      if (script[i].op <= MIN) { double w = ex.ext(script[i]); if (!(got == w)) bad = suite::fmt("instead of %.17g", w); }
      else
      {
        long double w, tol; ex.sum(script[i], w, tol);
        if (memcmp(&got, &r[i], 8)) bad = suite::fmt("instead of the %.17g of a team of one", r[i]);
        else if (!(fabsl(got - w) <= tol)) bad = suite::fmt("but the sum is %.17Lg (error allowed %.2Lg)", w, tol);
      }
      if (bad.empty()) continue;
      c.viol(key, how + suite::fmt(": thread %d gets %.17g for call %zu, %s of field %d, %s; field ", t, got, i, op_name[script[i].op], script[i].field, bad.c_str()) + suite::show(fields[script[i].field])); return false;
    }
    for (int e = 0; e < 2; ++e) for (int m = 0; m < 2; ++m)
    { // what min(), max() give after the run: of the fields used last
      Call q{m ? MAX : MIN, (int)((script.back().field + e) % fields.size())};
      double w = ex.ext(q), got = p[n * team + 2 * e + m];
      if (!(got == w)) { c.viol(key, how + suite::fmt(": %s(%d) is %.17g instead of %.17g", m ? "max" : "min", e, got, w)); return false; }
    }
    ++c.traces; return true;
  }
  // fields: an extremum at every cell, on negative, mixed and positive values; cancelling pairs of large values at every pair of cells
  void positions(size_t n)
  {
    for (double off : {-50., 0., 50.}) for (size_t at = 0; at < n; ++at) for (int up = 0; up < 2; ++up)
    { V f(n); for (size_t i = 0; i < n; ++i) f[i] = off + (double)((i * 7 + 3) % n) / n; f[at] = off + (up ? 2.5 : -2.5); fields.push_back(f); }
  }
  void cancelling(size_t n, bool all)
  {
    for (size_t a = 0; a < n; ++a) for (size_t b = 0; b < n; ++b) if (a != b && (all || (a * 5 + b) % 3 == 0))
    { V f(n); for (size_t i = 0; i < n; ++i) f[i] = .1 + (i % 3) * .3; f[a] = 1e15; f[b] = -1e15; fields.push_back(f); }
    for (int s = 0; s < 20; ++s) { V f(n); for (size_t i = 0; i < n; ++i) f[i] = (u01(s, i, 1, 2) - .5) * std::pow(10., 8 * u01(s, i, 3, 4)); fields.push_back(f); }
  }
  template <int D> std::vector<I3> shapes() { if (D == 1) return {{{4, 1, 1}}, {{7, 1, 1}}}; if (D == 2) return {{{4, 3, 1}}, {{5, 4, 1}}}; return {{{3, 4, 3}}, {{2, 5, 3}}}; }
  template <int D, class T> void where(suite::Ctx &c)
  {
    for (auto &n : shapes<D>())
    {
      gn = n; fields.clear(); script.clear(); size_t N = (size_t)n[0] * n[1] * n[2];
      positions(N); size_t np = fields.size(); if (D > 1) cancelling(N, c.thorough);
      for (size_t f = 0; f < np; ++f) for (int op : {MAX, MIN}) script.push_back({op, (int)f});
      // (no sums in 1D)
      if (D > 1) for (size_t f = 0; f < fields.size(); ++f) for (int op : {SUM, KSUM, SUM2, KSUM2}) if (f >= np || op == SUM || op == KSUM2) script.push_back({op, (int)f});
      mc::Outcome ref; bool have = false;
      for (int t = 1; t <= 5 && t <= n[D == 3 ? 1 : 0]; ++t) for (int o = 0; o < (t > 1 ? 3 : 1); ++o)
      {
        std::string it = suite::fmt("%dx%dx%d points, team of %d, %s", n[0], n[1], n[2], t, orders[o]);
        if (!c.item(it)) continue;
        if (!have) { ref = mc::run(plan(0), [] { Bd<D, T>::go(true, 1); }); have = true; }
        auto oc = mc::run(plan(o), [t] { Bd<D, T>::go(false, t); });
        c.step(script.size() * t);
        judge<D, T>(c, suite::fmt("where:%s:%dd:%s", BNAME, D, it.c_str()), ref, oc, t, it); if (c.enough()) return;
      }
    }
  }
  // one large value, anywhere, and many that are each too small to change it: only compensated summation keeps them
  template <int D, class T> void accuracy(suite::Ctx &c)
  {
    I3 n = D == 2 ? I3{{2, 70, 1}} : I3{{9, 2, 9}}; gn = n; fields.clear(); script.clear(); size_t N = (size_t)n[0] * n[1] * n[2];
    for (size_t at = 0; at < N; ++at) for (double tiny : {1e-16, -1.01e-16 / 2, 6e-17}) { V f(N, tiny); f[at] = 1; fields.push_back(f); fields.push_back(V(N, at % 2 ? 1. : -1.)); }
    for (size_t f = 0; f < fields.size(); f += 2) for (int op : {SUM, KSUM, SUM2, KSUM2}) script.push_back({op, (int)f});
    mc::Outcome ref; bool have = false;
    for (int t = 1; t <= 2; ++t) for (int o = 0; o < t; ++o)
    {
      std::string it = suite::fmt("%dx%dx%d points, team of %d, %s", n[0], n[1], n[2], t, orders[o]);
      if (!c.item(it)) continue;
      if (!have) { ref = mc::run(plan(0), [] { Bd<D, T>::go(true, 1); }); have = true; }
      auto oc = mc::run(plan(o), [t] { Bd<D, T>::go(false, t); });
      c.step(script.size() * t);
      judge<D, T>(c, suite::fmt("accuracy:%s:%dd:%s", BNAME, D, it.c_str()), ref, oc, t, it); if (c.enough()) return;
    }
  }
  // all sequences of 2 (3) operations; fields chosen so that every operand and every result is another number
  template <int D, class T> void pairs(suite::Ctx &c)
  {
    gn = shapes<D>()[0]; fields.clear(); size_t N = (size_t)gn[0] * gn[1] * gn[2];
    for (int f = 0; f < 7; ++f) { V v(N); for (size_t i = 0; i < N; ++i) v[i] = (u01(f, i, 5, 5) - .5) * (f + 1); fields.push_back(v); }
    const int nop = D == 1 ? 2 : 6;
    for (int t = 1; t <= 4 && t <= gn[D == 3 ? 1 : 0]; ++t) for (int o = 0; o < (t > 1 ? 3 : 1); ++o)
    {
      // one run over a sequence of calls that contains all triples of consecutive operations
      script.clear(); int f = 0;
      for (int a = 0; a < nop; ++a) for (int b = 0; b < nop; ++b) for (int e = 0; e < nop; ++e) for (int x : {a, b, e}) script.push_back({x, f++ % 7});
      std::string it = suite::fmt("%dx%dx%d points, all triples of operations, team of %d, %s", gn[0], gn[1], gn[2], t, orders[o]);
      if (!c.item(it)) continue;
      auto ref = mc::run(plan(0), [] { Bd<D, T>::go(true, 1); });
      auto oc = mc::run(plan(o), [t] { Bd<D, T>::go(false, t); });
      judge<D, T>(c, suite::fmt("triples:%s:%dd:%s", BNAME, D, it.c_str()), ref, oc, t, it); if (c.enough()) return;
    }
  }
  // all schedules of the synchronisation operations, up to a number of departures from the default one
  template <int D, class T> void sched(suite::Ctx &c, int t, int bound, uint64_t cap)
  {
    gn = shapes<D>()[0]; fields.clear(); size_t N = (size_t)gn[0] * gn[1] * gn[2];
    for (int f = 0; f < 7; ++f) { V v(N); for (size_t i = 0; i < N; ++i) v[i] = (u01(f, i, 5, 5) - .5) * (f + 1); fields.push_back(v); }
    const int nop = D == 1 ? 2 : 6;
    script.clear(); for (int a = 0; a < nop; ++a) for (int b = 0; b < nop; ++b) { if (!c.thorough && D > 1 && (a + b) % 2) continue; script.push_back({a, (int)script.size() % 7}); script.push_back({b, (int)script.size() % 7}); }
    std::string it = suite::fmt("%dx%dx%d points, team of %d, up to %d departures", gn[0], gn[1], gn[2], t, bound);
    if (!c.item(it)) return;
    auto ref = mc::run(plan(0), [] { Bd<D, T>::go(true, 1); });
    mc::Plan p = plan(0); p.mutex_points = true; p.count_all = true;
    auto st = mc::search(p, bound, cap, [t] { Bd<D, T>::go(false, t); }, [&](const mc::Outcome &o, const std::vector<uint16_t> &pre) {
      c.item(it);
      std::string m = it + ", choices"; for (auto x : pre) m += suite::fmt(" %d", x);
      judge<D, T>(c, suite::fmt("sched:%s:%s", BNAME, it.c_str()), ref, o, t, m);
      return !c.enough();
    }, c.thorough ? 1800 : 90);
    c.extra["choice_points"] += st.choice_points;
    if (!st.complete) ++c.extra["searches_beyond_cap"]; else ++c.extra["searches_completed"];
    c.sample(suite::fmt("%s: %llu schedules%s", it.c_str(), (unsigned long long)st.executions, st.complete ? ", all" : ""));
  }
}
#define B BNAME " "
CASE(B "positions 1D double", 3, [](suite::Ctx &c) { where<1, double>(c); });
CASE(B "positions 1D float", 3, [](suite::Ctx &c) { where<1, float>(c); });
CASE(B "positions 2D double", 5, [](suite::Ctx &c) { where<2, double>(c); });
CASE(B "positions 2D float", 5, [](suite::Ctx &c) { where<2, float>(c); });
CASE(B "positions 3D double", 7, [](suite::Ctx &c) { where<3, double>(c); });
CASE(B "positions 3D float", 7, [](suite::Ctx &c) { where<3, float>(c); });
CASE(B "accuracy 2D", 3, [](suite::Ctx &c) { accuracy<2, double>(c); });
CASE(B "accuracy 3D", 3, [](suite::Ctx &c) { accuracy<3, double>(c); });
CASE(B "sequences 1D", 2, [](suite::Ctx &c) { pairs<1, double>(c); });
CASE(B "sequences 2D", 4, [](suite::Ctx &c) { pairs<2, double>(c); });
CASE(B "sequences 3D", 5, [](suite::Ctx &c) { pairs<3, double>(c); });
CASE(B "sequences 3D float", 5, [](suite::Ctx &c) { pairs<3, float>(c); });
CASE(B "schedules 1D team of 2", 6, [](suite::Ctx &c) { sched<1, double>(c, 2, c.thorough ? 3 : 2, 1000000); });
CASE(B "schedules 1D team of 3", 6, [](suite::Ctx &c) { sched<1, double>(c, 3, c.thorough ? 2 : 1, 1000000); });
CASE(B "schedules 2D team of 2", 6, [](suite::Ctx &c) { sched<2, double>(c, 2, c.thorough ? 2 : 1, 1000000); });
CASE(B "schedules 2D team of 3", 6, [](suite::Ctx &c) { sched<2, double>(c, 3, c.thorough ? 2 : 1, 1000000); });
CASE(B "schedules 3D team of 2", 6, [](suite::Ctx &c) { sched<3, double>(c, 2, c.thorough ? 2 : 1, 1000000); });
