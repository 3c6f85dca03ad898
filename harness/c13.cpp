// C13: adaptive time steps. Every step's Courant number, time step and place in time, for steady flows, flows prescribed
// as functions of time and advected velocities; fields against fixed-step advection with the same Courant numbers.
#include "../mc/vip.hpp"
#ifndef PART
#define PART 0
#endif

namespace
{
  using Spans = std::vector<double>;
  const std::vector<Spans> all_spans = {{2}, {.7, 1.6}, {0, 1.1}, {1, 0, .4}, {.05, .05, .05}, {0, 0}};

  // a prescribed flow times a function of time, as user code
  struct Fun { std::string name; double (*f)(double); };
  const std::vector<Fun> funs = {
    {"growing", [](double t) { return .5 + t; }}, {"decaying", [](double t) { return 1 / (1 + t); }}, {"turning", [](double t) { return std::cos(2 * t); }},
    {"starting", [](double t) { return t < .75 ? 0. : 2 * t - 1.5; }}, {"stopping", [](double t) { return t < .6 ? 1. : 0.; }}, {"pulsing", [](double t) { return 1 + .6 * std::sin(9 * t); }}, {"jumping", [](double t) { return t < .5 ? .1 : 3.; }},
    {"resting", [](double) { return 0.; }}};
  const Fun *fun; double dx0[3];
  template <int D> std::vector<A<D>> *pattern; // Courant numbers for unit time step
  template <class ct> struct user_t : libmpdataxx::solvers::mpdata<ct>
  {
    using parent_t = libmpdataxx::solvers::mpdata<ct>; using parent_t::parent_t;
    bool calc_gc()
    {
      this->mem->barrier();
      if (this->rank == 0) for (int d = 0; d < ct::n_dims; ++d) this->mem->GC[d] = this->dt * fun->f(this->time + .5 * this->dt) * (*pattern<ct::n_dims>)[d];
      this->mem->barrier();
      return true;
    }
  };
  template <class base_t> struct cpy_t : base_t
  { // (remembers the Courant numbers as they stand after initialisation)
    using base_t::base_t; enum { D = base_t::n_dims };
    void hook_ante_loop(const typename base_t::advance_arg_t nt)
    {
      base_t::hook_ante_loop(nt);
      if (pattern<D> && pattern<D>->empty()) for (int d = 0; d < D; ++d) { A<D> a(this->mem->GC[d].copy()); a /= this->dt; pattern<D>->push_back(a); }
    }
  };

  // Courant number of the busiest cell
  template <int D> double cfl(const Dom &g, const std::vector<A<D>> &gc, const V &G)
  {
    double m = 0;
    g.each([&](I3 i) { double s = 0; for (int d = 0; d < D; ++d) { I3 a = i; a[d]--; s += .5 * std::fabs(at<D>(gc[d], i) + at<D>(gc[d], a)); } m = std::max(m, G.size() ? s / G[g.at(i)] : s); });
    return m;
  }
  double cfl(const Dom &g, const Flw &f, const V &G)
  {
    double m = 0;
    g.each([&](I3 i) { double s = 0; for (int d = 0; d < g.D; ++d) { I3 a = i; a[d]--; s += .5 * std::fabs(f.c[d][g.eat(d, i)] + f.c[d][g.eat(d, a)]); } m = std::max(m, G.size() ? s / G[g.at(i)] : s); });
    return m;
  }
  struct Track { std::vector<double> time; std::vector<size_t> steps; }; // after every advance()
  // what does not depend on the kind of flow: bound, positive steps, time adds up, advance() stops at the first step that reaches the end
  template <int D> std::string common(suite::Ctx &c, const Dom &g, const V &G, const std::vector<Rec<D>> &log, const Track &t, const Spans &sp, double maxc, bool intrp = false)
  {
    double now = 0; size_t k = 0;
    for (size_t q = 0; q < t.time.size(); ++q)
    {
      double end = now + sp[q];
      for (; k < t.steps[q]; ++k)
      {
        auto &r = log[k]; c.step();
        if (!(r.dt > 0) || std::isinf(r.dt)) return suite::fmt("step %zu has length %.17g", k + 1, r.dt);
        if (!(std::fabs(r.time - now) <= 1e-13 * (1 + now))) return suite::fmt("step %zu starts at %.17g instead of %.17g", k + 1, r.time, now);
        if (!(now < end)) return suite::fmt("advance(%g) takes step %zu at %.17g, beyond the end %.17g", sp[q], k + 1, now, end);
        double x = cfl<D>(g, r.gc[0], G);
        if (!(x <= maxc * (1 + 1e-13))) return suite::fmt("step %zu has Courant number %.17g, the bound is %g", k + 1, x, maxc);
        double next = now + r.dt; if (!(next > now)) return suite::fmt("step %zu does not advance the time", k + 1); now = next;
      }
      if (!(std::fabs(t.time[q] - now) <= 1e-13 * (1 + now))) return suite::fmt("time after advance() #%zu is %.17g instead of %.17g", q + 1, t.time[q], now);
      if (!(now >= end)) return suite::fmt("advance(%g) stops at %.17g, short of %.17g", sp[q], now, end);
      now = t.time[q];
    }
    if (k != log.size()) return "steps beyond the last advance()";
    return "";
  }
  template <class run_t> Track spans(run_t &r, const std::vector<size_t> *, const Spans &sp, std::function<size_t()> steps)
  {
    Track t; for (double s : sp) { r.advance(s); t.time.push_back(r.time()); t.steps.push_back(steps()); }
    return t;
  }

  // ------------------------------------------------------------------ flows given by the user, steady or not
  template <int D, long O, class B, bool USER> struct Given
  {
    using ct = CT<D, 1, O, true>;
    using base_t = log_t<cpy_t<typename std::conditional<USER, user_t<ct>, libmpdataxx::solvers::mpdata<ct>>::type>>;
    const Dom &g; Adv<D, O, B, CT<D, 1, O>> adv{g};
    bool operator()(suite::Ctx &c, const std::string &id, const V &psi, const Flw &f, const V &G, int iters, double dt, double maxc, const Spans &sp)
    {
      Setup s; s.D = D; s.n = g.n; s.iters = iters; s.dt = dt; s.max_courant = maxc;
      auto q = base_params<base_t>(s); q.max_abs_div_eps = 1e9;
      std::vector<Rec<D>> log; logp<D> = &log; std::vector<A<D>> pat; pattern<D> = &pat;
      using run_t = typename bind_bc<concurr::serial, base_t, B>::type;
      V fin; Track t; bool rest = false; double x0 = cfl(g, f, G);
      {
        run_t r(q);
        fill(r.advectee(), [&](int i, int j, int k) { return psi[g.at({i, j, k})]; });
        for (int d = 0; d < D; ++d) fill(r.advector(d), [&](int i, int j, int k) { return f.c[d][g.eat(d, {i, j, k})]; });
        if (G.size()) fill(r.g_factor(), [&](int i, int j, int k) { return G[g.at({i, j, k})]; });
        t = spans(r, nullptr, sp, [&] { return log.size(); });
        fin = read(r.advectee());
      }
      std::string why = common<D>(c, g, G, log, t, sp, maxc);
      if (!USER && why.empty())
      { // the bound is used in full, with one and the same step
        double u = cfl<D>(g, pat, G), want = u > 0 ? maxc / u : dt; // (values beyond the ends as the library has them)
        for (size_t n = 0; why.empty() && n < log.size(); ++n)
        {
          if (!(std::fabs(log[n].dt - want) <= 1e-13 * want)) why = suite::fmt("step %zu has length %.17g instead of %.17g", n + 1, log[n].dt, want);
          for (int d = 0; why.empty() && d < D; ++d) g.edges(d, [&](I3 e) { double w = f.c[d][g.eat(d, e)] * (want / dt), x = at<D>(log[n].gc[0][d], e); if (e[d] >= 0 && e[d] < g.n[d] - 1 && !(std::fabs(w - x) <= 1e-12)) why = suite::fmt("step %zu: Courant number of direction %d at the edge right of (%d %d %d) is %.17g instead of %.17g", n + 1, d, e[0], e[1], e[2], x, w); });
        }
      }
      if (USER) for (size_t n = 0; why.empty() && n < log.size(); ++n)
      {
        double a = fun->f(log[n].time + .5 * log[n].dt), b = fun->f(log[n].time), u = x0 / dt * std::fabs(a), len = log[n].dt;
        for (int d = 0; why.empty() && d < D; ++d) g.edges(d, [&](I3 e) { double w = f.c[d][g.eat(d, e)] * a * (len / dt), x = at<D>(log[n].gc[0][d], e); if (e[d] >= 0 && e[d] < g.n[d] - 1 && !(std::fabs(w - x) <= 1e-12 * (1 + std::fabs(w)))) why = suite::fmt("step %zu of length %g: Courant number of direction %d at the edge right of (%d %d %d) is %.17g instead of %.17g", n + 1, len, d, e[0], e[1], e[2], x, w); });
        // a flow that has hardly changed since the previous step was chosen must be given (nearly) the whole bound
        if (why.empty() && n && u > 0)
        {
          double lo = 1e300, hi = 0; for (int m = 0; m <= 24; ++m) { double v = std::fabs(fun->f(log[n - 1].time + (log[n - 1].dt + 2 * std::max(log[n].dt, maxc / u)) * m / 24.)); lo = std::min(lo, v); hi = std::max(hi, v); }
          (void)b;
          if (lo > .9 * hi && u * len < .75 * maxc) why = suite::fmt("step %zu of length %g uses Courant number %g only, although the flow is nearly steady", n + 1, len, u * len);
        }
      }
      // the fields: as with fixed steps and these Courant numbers
      Probe p; p.G = G; p.iters = iters; V st = psi;
      for (size_t n = 0; why.empty() && n <= log.size(); ++n)
      {
        auto &cmp = n < log.size() ? log[n].st[0] : fin; double big = 1 + maxabs(st);
        c.state(st);
        if (!(big < 1e6)) { rest = true; break; }
        for (size_t i = 0; i < st.size(); ++i) if (!(std::fabs(cmp[i] - st[i]) <= 1e-11 * big)) { why = suite::fmt("point %zu after %zu steps is %.17g instead of %.17g", i, n, cmp[i], st[i]); break; }
        if (n < log.size() && why.empty()) st = adv(st, p, log[n].gc);
      }
      if (rest) c.extra["left_out_growing_without_bound"]++;
      pattern<D> = nullptr;
      c.traces++;
      if (why.empty()) return true;
      c.viol("adaptive:" + c.name, id + ": " + why); return false;
    }
  };
  template <int D, long O, class B, bool USER> void given(suite::Ctx &c, I3 n)
  {
    Dom g = dom_of<B>(n); Given<D, O, B, USER> chk{g};
    V G = isset(O, nug) ? density(g) : V();
    auto F = impulses(g, .25, 1.25, .75, false, 4, false);
    std::vector<Flw> W;
    if (D == 1) { W = all_flows_1d(g, {0, .3, -.45}, false); if (!isset(O, dfl)) { W.clear(); for (double u : {0., .3, -.45, 2.}) W.push_back(uniform(g, {{u, 0, 0}})); } }
    else
    {
      W.push_back(uniform(g, {{0, 0, 0}}));
      bool per = true; for (int d = 0; d < D; ++d) per = per && g.cyc(d);
      for (int s = 0; s < (c.thorough ? 12 : 6); ++s) W.push_back(potential(g, s, s % 2 ? .3 : 1.5, per && s % 3 == 0 ? std::array<double, 3>{{.2, -.1, .15}} : std::array<double, 3>{{0, 0, 0}}));
      if (isset(O, dfl)) for (int s = 0; s < 3; ++s) W.push_back(arbitrary(g, s, .3, true));
      // one stream between two neighbouring edges' worth of potential, everywhere
      if (D == 2) for (int a = 0; a < g.n[0]; ++a) { Flw f = uniform(g, {{0, .2 + .1 * a, 0}}); if (!g.cyc(1) && !(g.l[1] == 'o' && g.r[1] == 'o')) break; g.edges(1, [&](I3 e) { I3 r = g.rep(e); f.c[1][g.eat(1, e)] = .1 + (r[0] == a ? .5 : 0) * (a % 2 ? -1 : 1); }); f.name = suite::fmt("jet %d", a); W.push_back(f); }
    }
    int m = 0;
    for (size_t w = 0; w < W.size(); ++w) for (double maxc : {.5, .1, .9}) for (double dt : {.1, 1., 3.})
    {
      if (D == 1 && W.size() > 100 && !c.thorough && (w + (maxc == .5 ? 0 : maxc == .1 ? 1 : 2) + (dt == 1 ? 0 : 1)) % 3) continue;
      std::string id = suite::fmt("%s bound %g initial step %g variant %d", W[w].name.c_str(), maxc, dt, m);
      int v = m++;
      Spans sp = all_spans[v % all_spans.size()];
      double x0 = cfl(g, W[w], G); const Fun *F0 = USER ? &funs[v % funs.size()] : nullptr;
      if (!c.item(id)) continue;
      fun = F0;
      // spans in units that keep the number of steps small
      if (!USER) { double u = x0 > 0 ? 1.7 * dt * maxc / x0 : 1.3 * dt; for (double &s : sp) s *= u; }
      Flw f = W[w];
      if (USER) { if (F0->name == std::string("resting")) x0 = 0; double u = x0 > 0 ? 1.5 / x0 : 1; for (auto &cc : f.c) for (double &x : cc) x *= u * dt; if (maxc < .5) for (double &s : sp) s *= .25; if (x0 == 0 && dt < 1) for (double &s : sp) s *= .5; }
      if (!chk(c, id, F[v % F.size()], f, G, isset(O, iga) ? 2 : 1 + v % 3, dt, maxc, sp) && c.enough()) return;
    }
    c.sample(suite::fmt("%s %s: %d runs", g.name().c_str(), nm(O).c_str(), m));
  }

  // ------------------------------------------------------------------ advected velocities
  template <int D, int SCH, long O, int VAB, bool DEN, class B> void vel(suite::Ctx &c, I3 n)
  {
    using ct = ctF<D, SCH, O, VAB, true, DEN>; using base_t = log_t<force_t<ct>>; enum { NE = D + 1 };
    Dom g = dom_of<B>(n);
    auto F = D == 1 ? all_fields(g, {0, .5, -.75}, true) : impulses(g, .125, .75, -.5, false, 12, true);
    F.insert(F.begin(), spread(g, V(g.distinct(), 0.)));
    V G = isset(O, nug) ? density(g) : V(); int m = 0;
    for (size_t a = 0; a < F.size(); ++a) for (int var = 0; var < (D == 1 && !c.thorough ? 2 : 6); ++var)
    {
      int v = m++; double maxc = std::vector<double>{.5, .1, .9}[v % 3], dt = std::vector<double>{.1, 1., 3.}[(v / 3) % 3];
      Spans sp = all_spans[v % all_spans.size()];
      std::string id = suite::fmt("field %zu bound %g initial step %g variant %d", a, maxc, dt, v); if (!c.item(id)) continue;
      Setup s; s.D = D; s.n = g.n; s.iters = 2; s.dt = dt; s.max_courant = maxc; s.dx[0] = 1; s.dx[1] = 1.5; s.dx[2] = .8; if (v & 1) { s.dx[0] = .9; s.dx[1] = .7; s.dx[2] = 1.3; }
      if (maxc < .5) for (double &x : sp) x *= .4;
      cor = v % 4 == 1 ? .4 : v % 4 == 2 ? .05 : 0; pattern<D> = nullptr;
      std::vector<V> psi; for (int e = 0; e < D; ++e) psi.push_back(scaled(F[(a + 5 * e * (a > 0)) % F.size()], e ? .6 : 1, a == 0 ? (v & 2 ? .5 + .2 * e : 0) : 0));
      psi.push_back(scaled(F[(a * 7 + 3 + v) % F.size()], .5, DEN ? 1.5 : .25));
      if (a == 0) psi[D].assign(g.size(), DEN ? 1.5 : 0.), cor = 0; // uniform motion, or rest
      auto q = base_params<base_t>(s);
      std::vector<Rec<D>> log; logp<D> = &log; using run_t = typename bind_bc<concurr::serial, base_t, B>::type; Track t;
      std::string why;
      {
        run_t r(q);
        for (int e = 0; e < NE; ++e) fill(r.advectee(e), [&](int i, int j, int k) { return psi[e][g.at({i, j, k})]; });
        if (G.size()) fill(r.g_factor(), [&](int i, int j, int k) { return G[g.at({i, j, k})]; });
        if (VAB) { fill(r.vab_coefficient(), [&](int i, int j, int k) { I3 x = g.rep({i, j, k}); return a ? .25 * (hsh(x[0], x[1], x[2], 40) % 3) : 0.; }); for (int d = 0; d < D; ++d) fill(r.vab_relaxed_state(d), [&](int, int, int) { return .1 * d; }); }
        log_limit = 3000;
        try { t = spans(r, nullptr, sp, [&] { return log.size(); }); }
        catch (std::length_error &) { why = suite::fmt("%zu steps and not there yet: step %g", log.size(), log.back().dt); }
        log_limit = 0;
      }
      double big = 0; for (auto &r : log) for (auto &x : r.st) { c.state(x); big = std::max(big, maxabs(x)); }
      if (!(big < (why.size() ? 1e2 : 1e6))) { c.extra["left_out_growing_without_bound"]++; continue; }
      if (why.empty()) why = common<D>(c, g, G, log, t, sp, maxc);
      // a flow at rest leaves the step alone; one that hardly changed gets (nearly) the whole bound
      for (size_t k = 0; why.empty() && k < log.size(); ++k)
      {
        double x = cfl<D>(g, log[k].gc[0], G), prev = k ? log[k - 1].dt : dt, dif = 0, top = 0;
        for (int d = 0; d < D; ++d) for (size_t i = 0; i < psi[d].size(); ++i) { auto vv = [&](size_t z) { return DEN ? log[z].st[d][i] / log[z].st[D][i] : log[z].st[d][i]; }; top = std::max(top, std::fabs(vv(k))); if (k) dif = std::max(dif, std::fabs(vv(k) - vv(k - 1))); }
        if (top == 0 && dif == 0 && log[k].dt != prev) why = suite::fmt("step %zu has length %.17g instead of %.17g although there is no flow", k + 1, log[k].dt, prev);
        if (x == 0 && log[k].dt != prev && top == 0) why = suite::fmt("step %zu: length changed without flow", k + 1);
        double cells = 0; { std::vector<A<D>> gg = log[k].gc[0]; cells = cfl<D>(g, gg, G) / log[k].dt; }
        if (why.empty() && cells > 1e-6 && k == 0 && !(x >= maxc * (1 - 1e-12))) why = suite::fmt("the first step of length %g uses Courant number %.17g of %g only", log[k].dt, x, maxc);
        if (why.empty() && dif <= 1e-9 * top && cells > .01 * top && top > 0 && !(x >= maxc * (1 - 1e-6))) why = suite::fmt("step %zu of length %g uses Courant number %.17g of %g only, although the flow is steady", k + 1, log[k].dt, x, maxc);
      }
      c.traces++;
      if (!why.empty()) { c.viol("adaptive:" + c.name, id + ": " + why); if (c.enough()) return; }
    }
    c.sample(suite::fmt("%s %s: %d runs", g.name().c_str(), nm(O).c_str(), m));
  }
#define G_(D, O, B, N0, N1, N2, USER) CASE(suite::fmt("%s %dD %s %s", USER ? "time-dependent" : "steady", D, nm(O).c_str(), #B), D * 10, [](suite::Ctx &c) { given<D, (O), B, USER>(c, {{N0, N1, N2}}); });
#define W_(D, SCH, O, VAB, DEN, B, N0, N1, N2) CASE(suite::fmt("advected %dD %s %s absorber %d den %d %s", D, sname(SCH), nm(O).c_str(), VAB, DEN, #B), D * 10, [](suite::Ctx &c) { vel<D, SCH, (O), VAB, DEN, B>(c, {{N0, N1, N2}}); });
  using Om2 = BC<cyc, cyc, opn, opn>; using Rm2 = BC<cyc, cyc, rgd, rgd>; using RO2 = BC<rgd, rgd, opn, opn>; using M3 = BC<cyc, cyc, opn, opn, rgd, rgd>; using N3 = BC<opn, opn, rgd, rgd, cyc, cyc>; using R2 = BC<rgd, rgd, rgd, rgd>;
#if PART == 0
  G_(1, ABS | dfl, C1, 6, 1, 1, false) G_(1, ABS | dfl | fct, O1, 6, 1, 1, false) G_(1, iga | tot, C1, 6, 1, 1, false)
#elif PART == 1
  G_(1, ABS | dfl | nug, C1, 6, 1, 1, false) G_(1, fct | nug, O1, 6, 1, 1, false) G_(1, ABS | dfl, C1, 6, 1, 1, true) G_(1, ABS | dfl | fct | nug, O1, 6, 1, 1, true)
#elif PART == 2
  G_(2, iga | fct, C2, 5, 4, 1, false) G_(2, ABS | nug, C2, 4, 5, 1, false) G_(2, ABS | dfl, O2, 5, 4, 1, false) G_(2, fct | tot, Om2, 4, 5, 1, false)
#elif PART == 3
  G_(2, iga | div_2nd | div_3rd, C2, 5, 4, 1, false) G_(2, iga | nug | fct, R2, 5, 4, 1, false) G_(2, 0, RO2, 5, 5, 1, false)
#elif PART == 4
  G_(2, iga | fct, C2, 5, 4, 1, true) G_(2, ABS | nug | dfl, Om2, 4, 5, 1, true) G_(2, fct, R2, 4, 5, 1, true)
#elif PART == 5
  G_(3, iga | fct, C3, 4, 4, 3, false) G_(3, ABS | nug, M3, 4, 3, 4, false) G_(3, ABS, C3, 3, 4, 4, true)
#elif PART == 6
  W_(1, trapez, ABS, 0, false, C1, 6, 1, 1) W_(1, euler_a, iga | fct, 0, false, O1, 5, 1, 1) W_(1, euler_b, iga | div_2nd | div_3rd, 0, false, C1, 6, 1, 1) W_(1, trapez, iga, 0, true, C1, 6, 1, 1)
#elif PART == 7
  W_(2, trapez, iga | fct, 2, false, C2, 5, 4, 1) W_(2, euler_b, ABS | nug, 1, false, Om2, 4, 5, 1) W_(2, euler_a, iga | div_2nd | div_3rd, 0, false, C2, 5, 4, 1) W_(2, trapez, ABS | fct, 0, true, O2, 4, 5, 1)
#elif PART == 8
  W_(3, trapez, iga, 2, false, C3, 4, 4, 3) W_(3, euler_a, ABS | nug, 0, false, M3, 4, 3, 4) W_(2, trapez, iga | tot, 0, false, RO2, 5, 4, 1)
#endif
}
