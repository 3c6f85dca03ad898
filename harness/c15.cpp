// C15: source terms follow the chosen integration scheme. Reference: one step of the scheme written out with the
// library's homogeneous advection (of a single field, decided by C10) as ADV; every system of a finite set is advanced.
#include "../mc/dom.hpp"
#include "../mc/fill.hpp"
#include <memory>
using namespace dom;
using libmpdataxx::solvers::euler_a; using libmpdataxx::solvers::euler_b; using libmpdataxx::solvers::trapez; using libmpdataxx::solvers::mixed;
#ifndef PART
#define PART 0
#endif

namespace
{
  struct Call { char what; double dt; int at; double time; };
  // sources: linear coupling M, plus the terms chosen by bits
  enum { NONLIN = 1, GRAD = 2, TIME = 4, CONST = 8 };
  struct Job
  {
    int ne = 2; double M[3][3] = {}; int kind = 0;
    std::vector<Call> log;
    double local(int e, const double *s, double t) const
    {
      double r = 0; for (int k = 0; k < ne; ++k) r += M[e][k] * s[k];
      if (kind & NONLIN) r += .125 * s[0] * s[ne - 1] - .0625 * s[e] * s[e];
      if (kind & TIME) r += .25 * (1 + e) * t - .03125 * t * t;
      if (kind & CONST) r += .5 - .25 * e;
      return r;
    }
  } *cur;
  template <class S, int D> double slope(const S &s, const Dom *, I3 i, std::integral_constant<int, D>);

  // ------------------------------------------------------------------ user code
  template <class ct> struct src_t : libmpdataxx::solvers::mpdata_rhs<ct>
  {
    using parent_t = libmpdataxx::solvers::mpdata_rhs<ct>; using parent_t::parent_t;
    using real_t = typename parent_t::real_t;
    enum { D = ct::n_dims, NE = ct::n_eqns };
    template <class F> void points(F f)
    {
      auto &I = this->ijk;
      I3 lo{{0, 0, 0}}, hi{{0, 0, 0}};
      for (int d = 0; d < D; ++d) { lo[d] = idx(I, d).first(); hi[d] = idx(I, d).last(); }
      for (int i = lo[0]; i <= hi[0]; ++i) for (int j = lo[1]; j <= hi[1]; ++j) for (int k = lo[2]; k <= hi[2]; ++k) f(I3{{i, j, k}});
    }
    template <class T> static auto idx(const T &I, int d) -> decltype(I.lbound(0), libmpdataxx::rng_t()) { return libmpdataxx::rng_t(I.lbound(d), I.ubound(d)); }
    static libmpdataxx::rng_t idx(const libmpdataxx::rng_t &I, int) { return I; }
    template <class A> static auto &el(A &a, I3 i) { blitz::TinyVector<int, D> x; for (int d = 0; d < D; ++d) x[d] = i[d]; return a(x); }
    void update_rhs(libmpdataxx::arrvec_t<typename parent_t::arr_t> &rhs, const real_t &dt, const int &at)
    {
      parent_t::update_rhs(rhs, dt, at);
      if (cur->log.size() < 10000) cur->log.push_back({'u', dt, at, this->time});
      points([&](I3 i) {
        double s[NE]; for (int e = 0; e < NE; ++e) s[e] = el(this->state(e), i);
        for (int e = 0; e < NE; ++e)
        {
          double v = cur->local(e, s, this->time);
          if (cur->kind & GRAD) for (int d = 0; d < D; ++d) { I3 a = i, b = i; a[d]--; b[d]++; int o = (e + 1) % NE; v += (.25 + .125 * d) * (el(this->state(o), b) - el(this->state(o), a)) / 2; }
          if (isset(ct::hint_norhs, bit(e))) el(rhs.at(e), i) = 1e3 + v; // nobody may look at it
          else el(rhs.at(e), i) += v;
        }
      });
    }
    void note(char c) { if (cur->log.size() < 10000) cur->log.push_back({c, this->dt, 0, this->time}); }
    // a scheme of the user's own: explicit weight 1/4 before, 1/2 after the advection
    void hook_mixed_rhs_ante_loop() { note('l'); }
    void hook_mixed_rhs_ante_step() { note('a'); update_rhs(this->rhs, this->dt, 0); this->apply_rhs(this->dt / 4); }
    void hook_mixed_rhs_post_step() { note('p'); update_rhs(this->rhs, this->dt, 1); this->apply_rhs(this->dt / 2); }
  };
  template <int D, int NE, int SCH, int NORHS, long O, bool VD = false, int DEL = 0> struct ctS : CT<D, NE, O, VD> { enum { rhs_scheme = SCH, hint_norhs = NORHS, delayed_step = DEL }; };

  // ------------------------------------------------------------------ reference
  template <class B> struct Ref
  {
    const Dom &g; const Job &job; int norhs; int ne;
    double val(const V &s, I3 i) const
    {
      for (int d = 0; d < g.D; ++d)
      {
        if (g.cyc(d)) i[d] = cy(i[d], g.n[d]);
        else if (i[d] < 0) i[d] = g.l[d] == 'o' ? 0 : -i[d];
        else if (i[d] > g.n[d] - 1) i[d] = g.r[d] == 'o' ? g.n[d] - 1 : 2 * (g.n[d] - 1) - i[d];
      }
      return s[g.at(i)];
    }
    std::vector<V> R(const std::vector<V> &s, double t) const
    {
      std::vector<V> r(ne, V(g.size()));
      g.each([&](I3 i) {
        double q[3]; for (int e = 0; e < ne; ++e) q[e] = s[e][g.at(i)];
        for (int e = 0; e < ne; ++e)
        {
          double v = job.local(e, q, t);
          if (job.kind & GRAD) for (int d = 0; d < g.D; ++d) { I3 a = i, b = i; a[d]--; b[d]++; int o = (e + 1) % ne; v += (.25 + .125 * d) * (val(s[o], b) - val(s[o], a)) / 2; }
          r[e][g.at(i)] = v;
        }
      });
      return r;
    }
    void add(std::vector<V> &s, const std::vector<V> &r, double w) const { for (int e = 0; e < ne; ++e) if (!((norhs >> e) & 1)) for (size_t i = 0; i < s[e].size(); ++i) s[e][i] += w * r[e][i]; }
  };

  void grow(double &big, const V &v) { for (double x : v) if (!(std::fabs(x) <= big)) big = std::isfinite(x) ? std::fabs(x) : INFINITY; }
  struct Probe { std::vector<V> psi0; double dt; std::vector<int> parts; Flw f; V G; int iters = 2; double maxc = .5; };

  template <int D, int NE, int SCH, int NORHS, long O, class B, bool VD = false, int DEL = 0> struct Check
  {
    using ct = ctS<D, NE, SCH, NORHS, O, VD, DEL>;
    using run_t = typename bind_bc<concurr::serial, src_t<ct>, B>::type;
    using adv_k = Mpd<CT<D, 1, O>>;
    using adv_t = typename bind_bc<concurr::serial, typename adv_k::base_t, B>::type;
    const Dom &g;
    std::unique_ptr<adv_t> adv_run; V adv_gc[3], adv_G; int adv_it = 0; double adv_scale = 0;

    V adv(const V &psi, const Probe &p, double scale)
    {
      bool same = adv_run && adv_it == p.iters && adv_scale == scale && adv_G == p.G;
      for (int d = 0; d < D; ++d) same = same && adv_gc[d] == p.f.c[d];
      if (!same)
      {
        Setup s; s.D = D; s.n = g.n; s.iters = p.iters;
        auto q = make_params<adv_k>(s); q.max_abs_div_eps = 1e9;
        adv_run.reset(new adv_t(q)); adv_it = p.iters; adv_scale = scale; adv_G = p.G;
        for (int d = 0; d < D; ++d) { adv_gc[d] = p.f.c[d]; fill(adv_run->advector(d), [&](int i, int j, int k) { return scale * p.f.c[d][g.eat(d, {i, j, k})]; }); }
        if (isset(O, nug)) fill(adv_run->g_factor(), [&](int i, int j, int k) { return p.G[g.at({i, j, k})]; });
      }
      fill(adv_run->advectee(), [&](int i, int j, int k) { return psi[g.at({i, j, k})]; });
      adv_run->advance(1);
      return read(adv_run->advectee());
    }

    bool operator()(suite::Ctx &c, Job &job, const Probe &p, const std::string &tag)
    {
      job.ne = NE; job.log.clear(); cur = &job;
      Setup s; s.D = D; s.n = g.n; s.iters = p.iters; s.dt = p.dt; s.max_courant = p.maxc;
      typename src_t<ct>::rt_params_t q = base_params<src_t<ct>>(s); q.max_abs_div_eps = 1e9;
      std::vector<V> got(NE); std::vector<Call> log;
      {
        run_t r(q);
        for (int e = 0; e < NE; ++e) fill(r.advectee(e), [&](int i, int j, int k) { return p.psi0[e][g.at({i, j, k})]; });
        for (int d = 0; d < D; ++d) fill(r.advector(d), [&](int i, int j, int k) { return p.f.c[d][g.eat(d, {i, j, k})]; });
        if (isset(O, nug)) fill(r.g_factor(), [&](int i, int j, int k) { return p.G[g.at({i, j, k})]; });
        for (int n : p.parts) r.advance(n * (VD ? 1 : 1));
        for (int e = 0; e < NE; ++e) got[e] = read(r.advectee(e));
      }
      log = job.log;
      // the reference
      Ref<B> ref{g, job, NORHS, NE};
      std::vector<V> st = p.psi0; std::vector<V> R; std::vector<Call> want;
      int steps = 0; for (int n : p.parts) steps += n;
      double dt = p.dt, t = 0, scale = 1;
      if (VD)
      { // (all calls of a run with a steady flow have the same time step)
        double dt1 = 0; for (auto &x : log) if (x.what == 'u' && x.dt > 0) { dt1 = SCH == trapez ? 2 * x.dt : x.dt; break; }
        scale = dt1 / p.dt; dt = dt1; double T = steps; steps = 0; for (double tt = 0; tt < T && steps < 100; tt += dt) ++steps;
      }
      if (steps > 0)
      {
        if (SCH == trapez) { want.push_back({'u', dt / 2, 0, t}); R = ref.R(st, t); }
        if (SCH == mixed) want.push_back({'l', dt, 0, t});
      }
      double big = 1;
      for (int n = 0; n < steps; ++n)
      {
        switch (SCH)
        {
          case euler_a: want.push_back({'u', dt, 0, t}); R = ref.R(st, t); break;
          case euler_b: want.push_back({'u', dt, 0, t}); R = ref.R(st, t); ref.add(st, R, dt); break;
          case trapez: ref.add(st, R, dt / 2); break;
          case mixed: want.push_back({'a', dt, 0, t}); want.push_back({'u', dt, 0, t}); ref.add(st, ref.R(st, t), dt / 4); break;
        }
        for (int e = 0; e < NE; ++e) { st[e] = adv(st[e], p, scale); grow(big, st[e]); }
        t = VD ? t + dt : (n + 1) * dt;
        switch (SCH)
        {
          case euler_a: ref.add(st, R, dt); break;
          case euler_b: break;
          case trapez: want.push_back({'u', dt / 2, 1, t}); R = ref.R(st, t); ref.add(st, R, dt / 2); break;
          case mixed: want.push_back({'p', dt, 0, t}); want.push_back({'u', dt, 1, t}); ref.add(st, ref.R(st, t), dt / 2); break;
        }
        for (int e = 0; e < NE; ++e) { grow(big, st[e]); c.state(st[e]); }
        c.step();
      }
      if (!(big < 1e3)) { c.extra["left_out_growing_without_bound"]++; return true; }
      c.traces++;
      std::string why;
      for (size_t i = 0; why.empty() && i < std::max(log.size(), want.size()); ++i)
      {
        if (i >= log.size() || i >= want.size()) { why = suite::fmt("%zu calls of user code instead of %zu", log.size(), want.size()); break; }
        auto &a = log[i], &b = want[i];
        if (a.what != b.what || a.at != b.at || std::fabs(a.dt - b.dt) > 1e-14 * dt || std::fabs(a.time - b.time) > 1e-13 * (1 + t))
          why = suite::fmt("call %zu of user code is %c(dt=%g, at=%d) at time %g instead of %c(dt=%g, at=%d) at time %g", i, a.what, a.dt, a.at, a.time, b.what, b.dt, b.at, b.time);
      }
      for (int e = 0; why.empty() && e < NE; ++e) for (size_t i = 0; i < got[e].size(); ++i)
        if (!(std::fabs(got[e][i] - st[e][i]) <= 1e-11 * big))
        { why = suite::fmt("equation %d point %zu after %d steps: %.17g instead of %.17g", e, i, steps, got[e][i], st[e][i]); break; }
      if (why.empty()) return true;
      c.viol("rhs:" + c.name, tag + ": " + why);
      return false;
    }
  };
  const char *sname(int s) { return s == euler_a ? "euler_a" : s == euler_b ? "euler_b" : s == trapez ? "trapez" : "mixed"; }

  // all 81 (or a subset of) 2x2 couplings, all fields of 3 values in the first equation
  template <int SCH, int NORHS, long O, class B, int DEL = 0> void lin1d(suite::Ctx &c)
  {
    Dom g = dom_of<B>({{5, 1, 1}});
    Check<1, 2, SCH, NORHS, O, B, false, DEL> chk{g};
    auto flows = all_flows_1d(g, {.25, -.375}, false); flows.resize(c.thorough ? flows.size() : 3);
    flows.insert(flows.begin(), uniform(g, {{0, 0, 0}})); flows.push_back(uniform(g, {{.5, 0, 0}}));
    auto F = all_fields(g, {0, 1, -1}, true);
    auto F2 = impulses(g, .5, -1, 2, false, 1, true);
    int m = 0;
    for (size_t f = 0; f < flows.size(); ++f) for (int q = 0; q < 81; ++q) for (size_t a = 0; a < F.size(); ++a)
    {
      if (!c.thorough && (a + q + f) % 3) continue; // (the couplings and the fields meet in all pairs of residues)
      std::string id = suite::fmt("flow %zu coupling %d field %zu", f, q, a);
      if (!c.item(id)) continue;
      Job job; int x = q; for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) { job.M[i][j] = (x % 3 - 1) * .25; x /= 3; }
      job.kind = m % 5 == 0 ? CONST : 0;
      Probe p{{F[a], F2[(a + q) % F2.size()]}, m % 2 ? .5 : 1, {}, flows[f], V()};
      switch (m++ % 5) { case 0: p.parts = {1}; break; case 1: p.parts = {2}; break; case 2: p.parts = {1, 1}; break; case 3: p.parts = {2, 1}; break; default: p.parts = {3}; }
      if (!chk(c, job, p, id) && c.enough()) return;
    }
    c.sample(suite::fmt("%s, no source in equations of mask %d, %s: %zu flows x 81 couplings x %zu fields", sname(SCH), NORHS, nm(O).c_str(), flows.size(), F.size()));
  }
  // every kind of source, in any number of dimensions
  template <int D, int NE, int SCH, int NORHS, long O, class B, bool VD = false, int DEL = 0> void general(suite::Ctx &c, I3 n, bool closed = false)
  {
    Dom g = dom_of<B>(n);
    Check<D, NE, SCH, NORHS, O, B, VD, DEL> chk{g};
    std::vector<Flw> fl; 
    if (!VD) fl.push_back(uniform(g, {{0, 0, 0}}));
    fl.push_back(potential(g, 1, D == 1 ? .5 : .4, D == 1 ? std::array<double, 3>{{.25, 0, 0}} : std::array<double, 3>{{0, 0, 0}}));
    if (!closed) fl.push_back(uniform(g, {{.25, D > 1 ? -.125 : 0., D > 2 ? .25 : 0.}}));
    if (c.thorough) { fl.push_back(potential(g, 2, .6)); if (VD && D == 1) fl.pop_back(); }
    auto F = impulses(g, .25, 1, -.5, false, c.thorough ? 8 : 3, !isset(O, npa));
    V G = isset(O, nug) ? density(g) : V();
    std::vector<std::vector<int>> parts{{1}, {3}, {1, 2}}; if (VD) parts = {{1}, {2}};
    int m = 0;
    for (size_t f = 0; f < fl.size(); ++f) for (int k = 1; k < 16; ++k) for (size_t a = 0; a < F.size(); ++a)
    {
      if (!c.thorough && F.size() > 16 && (a + k) % (F.size() / 16 + 1)) continue;
      std::string id = suite::fmt("flow %zu source %d field %zu", f, k, a);
      if (!c.item(id)) continue;
      Job job; job.kind = k;
      for (int i = 0; i < NE; ++i) for (int j = 0; j < NE; ++j) job.M[i][j] = ((int)(hsh(i, j, k, a) % 5) - 2) / 8.;
      Probe p{{}, m % 2 ? .5 : .25, parts[m % parts.size()], fl[f], G, 1 + (m / 2) % 2 + (isset(O, iga) ? 0 : 1)};
      if (isset(O, iga)) p.iters = 2;
      for (int e = 0; e < NE; ++e) { V v = F[(a + e * 7) % F.size()]; if (e) for (double &x : v) x = .5 * x + .125 * e; p.psi0.push_back(v); }
      ++m;
      if (!chk(c, job, p, id) && c.enough()) return;
    }
    c.sample(suite::fmt("%s %s %s: %zu flows x 15 kinds of source x %zu fields", sname(SCH), g.name().c_str(), nm(O).c_str(), fl.size(), F.size()));
  }
#define S4(P0, P1, P2, P3) 
#define L1(SCH, NR, O, B, ...) CASE(suite::fmt("1D %s mask %d %s %s " #__VA_ARGS__, sname(SCH), NR, nm(O).c_str(), #B), 20, [](suite::Ctx &c) { lin1d<SCH, NR, (O), B, ##__VA_ARGS__>(c); });
#define GEN(D, NE, SCH, NR, O, B, ...) CASE(suite::fmt("%dD %d eqs %s mask %d %s %s", D, NE, sname(SCH), NR, nm(O).c_str(), #B), D * 10, [](suite::Ctx &c) { general<D, NE, SCH, NR, (O), B>(c, __VA_ARGS__); });
#define GEND(D, NE, SCH, NR, O, B, VD, DEL, ...) CASE(suite::fmt("%dD %d eqs %s mask %d %s %s adaptive %d delayed %d", D, NE, sname(SCH), NR, nm(O).c_str(), #B, VD, DEL), D * 10, [](suite::Ctx &c) { general<D, NE, SCH, NR, (O), B, VD, DEL>(c, __VA_ARGS__); });
  using Om2 = BC<cyc, cyc, opn, opn>; using Rm2 = BC<rgd, rgd, cyc, cyc>; using M3 = BC<cyc, cyc, opn, opn, rgd, rgd>;
#if PART == 0
  L1(euler_a, 0, 0, C1) L1(euler_b, 0, 0, C1) L1(trapez, 0, 0, C1) L1(mixed, 0, 0, C1)
  L1(euler_a, 1, ABS, C1) L1(euler_b, 1, ABS, C1) L1(trapez, 1, ABS, C1) L1(mixed, 1, ABS, C1)
#elif PART == 1
  L1(euler_a, 2, iga | fct, C1) L1(euler_b, 2, iga | fct, C1) L1(trapez, 2, iga | fct, C1) L1(mixed, 2, iga | fct, C1)
  L1(euler_a, 3, 0, O1) L1(euler_b, 3, 0, O1) L1(trapez, 3, 0, O1) L1(mixed, 3, 0, O1)
#elif PART == 2
  L1(euler_a, 0, tot, O1, 1) L1(euler_b, 0, tot, O1, 2) L1(trapez, 0, tot, O1, 1) L1(mixed, 0, tot, O1, 2)
  GEN(1, 3, euler_a, 4, ABS | fct, C1, {{6, 1, 1}}) GEN(1, 3, euler_b, 1, ABS | fct, C1, {{6, 1, 1}}) GEN(1, 3, trapez, 2, ABS | fct, C1, {{6, 1, 1}}) GEN(1, 3, mixed, 5, nug | ABS, C1, {{6, 1, 1}})
#elif PART == 3
  GEN(2, 2, euler_a, 0, 0, C2, {{5, 4, 1}}) GEN(2, 2, euler_b, 0, 0, C2, {{5, 4, 1}}) GEN(2, 2, trapez, 0, 0, C2, {{5, 4, 1}}) GEN(2, 2, mixed, 0, 0, C2, {{5, 4, 1}})
#elif PART == 4
  GEN(2, 3, euler_a, 1, iga | fct, O2, {{4, 5, 1}}) GEN(2, 3, euler_b, 2, ABS | tot, O2, {{4, 5, 1}}) GEN(2, 3, trapez, 4, iga | fct, Om2, {{4, 5, 1}}) GEN(2, 3, mixed, 0, nug | iga, Om2, {{4, 5, 1}})
#elif PART == 5
  GEN(2, 2, euler_a, 0, ABS | fct, Rm2, {{4, 5, 1}}, true) GEN(2, 2, euler_b, 2, nug | ABS, Rm2, {{4, 5, 1}}, true) GEN(2, 2, trapez, 0, ABS | fct | nug, R2, {{4, 5, 1}}, true) GEN(2, 2, mixed, 1, iga | tot, R2, {{4, 5, 1}}, true)
#elif PART == 6
  GEND(1, 2, euler_a, 0, 0, C1, true, 0, {{6, 1, 1}}) GEND(1, 2, euler_b, 0, 0, C1, true, 0, {{6, 1, 1}}) GEND(1, 2, trapez, 0, 0, C1, true, 0, {{6, 1, 1}}) GEND(1, 2, mixed, 0, 0, C1, true, 0, {{6, 1, 1}})
  GEND(2, 2, euler_a, 0, iga, C2, true, 0, {{5, 4, 1}}) GEND(2, 2, trapez, 0, iga, C2, true, 0, {{5, 4, 1}}) GEND(2, 3, trapez, 0, iga, C2, false, 2, {{5, 4, 1}}) GEND(2, 3, euler_b, 0, ABS, C2, false, 5, {{5, 4, 1}})
#elif PART == 7
  GEN(3, 2, euler_a, 0, 0, C3, {{4, 4, 3}}) GEN(3, 2, euler_b, 0, iga | fct, C3, {{4, 4, 3}})
#elif PART == 8
  GEN(3, 2, trapez, 0, iga | fct, M3, {{4, 3, 4}}, true) GEN(3, 2, mixed, 1, ABS, M3, {{4, 3, 4}}, true)
#elif PART == 9
  GEND(3, 3, trapez, 2, nug | ABS, M3, false, 1, {{4, 3, 4}}, true) GEN(3, 2, euler_a, 2, tot, O3, {{3, 3, 4}}) GEND(3, 2, euler_b, 0, iga, C3, true, 0, {{4, 4, 3}})
#endif
}
