// C23: shallow-water and Boussinesq solvers: states of rest stay, depths stay non-negative and their sum constant, every step is
// the documented trapezoidal step (a model of the whole step; advection with given Courant numbers taken from the library, C10, C22).
#include "../mc/proj.hpp"
#ifndef PART
#define PART 0
#endif
namespace sl = libmpdataxx::solvers;

namespace
{
  std::string same(const std::vector<V> &got, const std::vector<V> &want, double tol, double &big, const std::string &what)
  {
    double worst = 0; std::string why;
    for (auto &v : want) big = std::max(big, maxabs(v));
    for (size_t e = 0; e < got.size(); ++e) for (size_t i = 0; i < got[e].size(); ++i)
    {
      double d = std::fabs(got[e][i] - want[e][i]);
      if (!(d <= tol * big) && !(d <= worst)) { worst = d; why = suite::fmt("equation %zu point %zu %s is %.17g instead of %.17g", e, i, what.c_str(), got[e][i], want[e][i]); }
    }
    return why;
  }
  // ------------------------------------------------------------------ shallow water
  template <int D, long O, bool NORHS> struct ctW : ctShw<D, O> { enum { hint_norhs = NORHS ? 1 << D : 0 }; };
  template <int D, long O, bool NORHS, class B> struct Water
  {
    using base_t = log_t<sl::shallow_water<ctW<D, O, NORHS>>>; enum { NE = D + 1, H = D };
    const Dom &g; double grav; Adv<D, O, B> adv{g};
    // how: 'r' state of rest, 'u' uniform current, 'g' general
    bool operator()(suite::Ctx &c, const Probe &p, char how, const std::string &id)
    {
      Setup s; s.D = D; s.n = g.n; s.iters = p.iters; s.dt = p.dt; for (int d = 0; d < 3; ++d) s.dx[d] = p.dx[d];
      auto q = base_params<base_t>(s); q.g = grav; q.vip_eps = p.eps;
      Run<base_t, B> run; run(g, p, q);
      double big = 1, dt = p.dt; size_t N = g.size(); std::string why; Halo Ha{g};
      auto st = p.psi0; std::vector<V> R(D, V(N, 0.));
      bool bounded = true, mild = true, allcyc = true; for (int d = 0; d < D; ++d) allcyc &= g.cyc(d);
      auto calc = [&] { g.each([&](I3 x) { for (int d = 0; d < D; ++d) { I3 a = x, b = x; a[d]--; b[d]++; R[d][g.at(x)] = -grav * st[H][g.at(x)] * (Ha.scalar(st[H], b) - Ha.scalar(st[H], a)) / (2 * p.dx[d]); } }); };
      auto add = [&] { for (int d = 0; d < D; ++d) for (size_t i = 0; i < N; ++i) st[d][i] += dt / 2 * R[d][i]; };
      auto sum = [&](const V &v) { long double t = 0; g.each([&](I3 x) { if (!g.dup(x)) t += v[g.at(x)]; }); return (double)t; };
      calc();
      for (size_t n = 0; why.empty() && n <= run.log.size(); ++n)
      {
        auto &cmp = n < run.log.size() ? run.log[n].st : run.fin;
        std::string when = suite::fmt("after %zu steps", n);
        if (how == 'r') { double one = 1; why = same(cmp, p.psi0, 0, one, when); }
        else if (how == 'u') { double one = 1; why = same(cmp, p.psi0, 1e-13, one, when); }
        if (why.empty()) why = same(cmp, st, 1e-11, big, when);
        if (!(big < 1e2)) { bounded = false; why.clear(); break; }
        for (auto &v : cmp) c.state(v);
        if (why.empty() && mild && n) g.each([&](I3 x) { if (why.empty() && !(cmp[H][g.at(x)] >= -1e-14)) why = suite::fmt("depth at point %d %s is %g", g.at(x), when.c_str(), cmp[H][g.at(x)]); });
        if (why.empty() && allcyc) { double a = sum(cmp[H]), b = sum(p.psi0[H]); if (!(std::fabs(a - b) <= 1e-13 * big * N)) why = suite::fmt("total depth %.17g instead of %.17g ", a, b) + when; }
        if (n == run.log.size() || !why.empty()) break;
        // what leaves a cell must not exceed its content
        g.each([&](I3 x) { double o = 0; for (int d = 0; d < D; ++d) { I3 a = x; a[d]--; o += std::max(0., at<D>(run.log[n].gc[0][d], x)) + std::max(0., -at<D>(run.log[n].gc[0][d], a)); } if (!(o <= .9)) mild = false; });
        st = cmp; add();
        for (int e = 0; e < NE; ++e) st[e] = adv(st[e], p, run.log[n].gc);
        calc(); add();
      }
      c.step(run.log.size()); c.traces++;
      if (!bounded) { c.extra["left_out_growing_without_bound"]++; return true; }
      if (!mild) c.extra["runs_with_outflow_above_content_sign_not_checked"]++;
      if (why.empty()) return true;
      c.viol("water:" + c.name, id + ": " + why); return false;
    }
  };
  template <int D, long O, bool NORHS, class B> void water(suite::Ctx &c, I3 n)
  {
    Dom g = dom_of<B>(n); bool allcyc = true; for (int d = 0; d < D; ++d) allcyc &= g.cyc(d);
    int pts = g.distinct(); size_t m = 0;
    std::vector<std::vector<int>> parts{{3}, {1, 2}, {4}, {2, 1}};
    for (int gr = 0; gr < (c.thorough ? 3 : 2); ++gr)
    {
      Water<D, O, NORHS, B> chk{g, gr == 0 ? .5 : gr == 1 ? 1.5 : 0.};
      auto go = [&](const V &h, const std::vector<V> &u, char how, double eps, const std::string &id) {
        ++m; if (!c.item(suite::fmt("g %g ", chk.grav) + id)) return true;
        Probe p; p.dt = m % 2 ? .25 : .4; p.dx[0] = m % 3 ? 1 : .8; p.dx[1] = 1.25; p.dx[2] = 1; p.parts = parts[m % 4]; p.iters = 2; p.eps = eps;
        for (int d = 0; d < D; ++d) { V q = u[d]; for (size_t i = 0; i < q.size(); ++i) q[i] *= h[i]; p.psi0.push_back(q); }
        p.psi0.push_back(h);
        return chk(c, p, how, id) || !c.enough();
      };
      V zero(g.size(), 0.);
      for (double h : {1e-3, .5, 1., 3.}) { if (!go(V(g.size(), h), std::vector<V>(D, zero), 'r', 0, suite::fmt("rest, depth %g", h)) || !go(V(g.size(), h), std::vector<V>(D, zero), 'r', 1e-2, suite::fmt("rest, depth %g, eps", h))) return; }
      if (!go(zero, std::vector<V>(D, zero), 'r', 1e-2, "dry")) return;
      if (allcyc) for (double h : {.5, 2.}) for (int s = 0; s < 9; ++s)
      { std::vector<V> u; for (int d = 0; d < D; ++d) u.push_back(V(g.size(), .25 * ((d ? s / 3 : s % 3) - 1))); if (!go(V(g.size(), h), u, 'u', 0, suite::fmt("current %d, depth %g", s, h))) return; }
      // depths x velocities over small alphabets; dry places need eps
      const std::vector<double> hs{0, .5, 1, 2}, us{-.5, 0, .5};
      auto vec = [&](int pt, uint32_t code, const std::vector<double> &al) { V d(pt); for (int i = 0; i < pt; ++i) { d[i] = al[code % al.size()]; code /= al.size(); } return spread(g, d); };
      auto irr = [&](int seed, const std::vector<double> &al) { V d(pts); for (int i = 0; i < pts; ++i) d[i] = al[hsh(i, seed, 3, 7) % al.size()]; return spread(g, d); };
      auto still = [&](V v, int d) { if (!g.cyc(d)) g.each([&](I3 x) { if (x[d] == 0 || x[d] == g.n[d] - 1) v[g.at(x)] = 0; }); return v; };
      if (D == 1)
      {
        uint32_t nh = 1, nu = 1; for (int i = 0; i < pts; ++i) { nh *= 4; nu *= 3; }
        for (uint32_t a = 0; a < nh; ++a) for (int b = 0; b < (c.thorough ? 24 : 6); ++b) if (!go(vec(pts, a, hs), {still(irr(b, us), 0)}, 'g', b % 2 ? .25 : 1e-2, suite::fmt("depths %u velocities irregular %d", a, b))) return;
        for (uint32_t a = 0; a < nu; ++a) for (int b = 0; b < (c.thorough ? 24 : 6); ++b) if (!go(irr(100 + b, b % 2 ? std::vector<double>{.5, 1, 1.5} : hs), {still(vec(pts, a, us), 0)}, 'g', b % 2 ? 0 : 1e-2, suite::fmt("velocities %u depths irregular %d", a, b))) return;
      }
      else
      {
        if (pts <= 12) for (uint32_t a = gr; a < 4096; a += c.thorough ? 1 : 2) if (!go(vec(pts, a, {.0, 1}), {still(irr(a % 5, us), 0), still(irr(a % 7 + 9, us), 1)}, 'g', 1e-2, suite::fmt("wet and dry %u", a))) return;
        for (int e = 0; e <= D; ++e) for (int q = 0; q < pts; ++q) for (double dev : {-.5, .75})
        {
          std::vector<V> d(D + 1, V(pts, 0.)); d[D].assign(pts, 1.); d[e][q] += dev; std::vector<V> u; for (int k = 0; k < D; ++k) u.push_back(still(spread(g, d[k]), k));
          if (!go(spread(g, d[D]), u, 'g', 0, suite::fmt("deviation %g of %d at %d", dev, e, q))) return;
        }
        for (int b = 0; b < (c.thorough ? 600 : 60); ++b) if (!go(irr(b, b % 2 ? hs : std::vector<double>{.5, 1, 1.5}), {still(irr(b + 300, us), 0), still(irr(b + 600, us), 1)}, 'g', b % 2 ? 1e-2 : 0, suite::fmt("irregular %d", b))) return;
      }
    }
    c.sample(suite::fmt("shallow water %s %s: %zu states", g.name().c_str(), nm(O).c_str(), m));
  }
  // ------------------------------------------------------------------ Boussinesq
  template <int D, bool IMP, long O, int PRS, int VAB> struct ctBq : ctBou<D, IMP, O, 0, 0, VAB> { enum { prs_scheme = PRS }; };
  struct Heat { V te, ab, hf; bool filter = false; double tref = 300, g = 10; };
  template <class P> auto set_filter(P &p, bool f, int) -> decltype(p.buoy_filter, void()) { p.buoy_filter = f; }
  template <class P> void set_filter(P &, bool, long) {}
  const Heat *heat;
  // (fills the arrays of the environment before the first step)
  template <class base> struct heat_t : base
  {
    heat_t(typename base::ctor_args_t args, const typename base::rt_params_t &p) : base(args, p) {}
  };
  template <class base_t, class B> struct RunH
  {
    enum { D = base_t::n_dims, NE = base_t::n_eqns };
    std::vector<Rec<D>> log; std::vector<V> fin;
    template <class P> void operator()(const Dom &g, const Probe &p, const Heat &h, P q)
    {
      using run_t = typename bind_bc<concurr::serial, base_t, B>::type;
      logp<D> = &log; fill_::on_new = 0xff;
      run_t r(q);
      auto put = [&](auto a, const V &v) { fill(a, [&](int i, int j, int k) { return v[g.at({i, j, k})]; }); };
      for (int e = 0; e < NE; ++e) put(r.advectee(e), p.psi0[e]);
      if (p.G.size()) put(r.g_factor(), p.G);
      if (p.coeff.size()) { put(r.vab_coefficient(), p.coeff); for (int d = 0; d < D; ++d) put(r.vab_relaxed_state(d), p.relax[d]); }
      put(r.sclr_array("tht_e"), h.te); put(r.sclr_array("tht_abs"), h.ab); put(r.sclr_array("hflux_frc"), h.hf);
      for (int n : p.parts) r.advance(n);
      for (int e = 0; e < NE; ++e) fin.push_back(read(r.advectee(e)));
      fill_::on_new = -1;
    }
  };
  template <int D, bool IMP, long O, int PRS, int VAB, class B> struct Bq
  {
    using ct = ctBq<D, IMP, O, PRS, VAB>; using base_t = log_t<sl::boussinesq<ct>>; enum { NE = D + 1, W = D - 1, T = D };
    const Dom &g; Adv<D, O, B> adv{g};
    bool operator()(suite::Ctx &c, const Probe &p, const Heat &h, bool rest, const std::string &id)
    {
      Setup s; s.D = D; s.n = g.n; s.iters = p.iters; s.dt = p.dt; for (int d = 0; d < 3; ++d) s.dx[d] = p.dx[d];
      auto q = base_params<base_t>(s); q.prs_tol = 1e-11; set_pc(q, 0); q.Tht_ref = h.tref; q.g = h.g; set_filter(q, h.filter, 0);
      RunH<base_t, B> run; run(g, p, h, q);
      double big = 1, dt = p.dt, gT = h.g / h.tref; size_t N = g.size(); std::string why; Halo Ha{g};
      V dte(N), zero(N, 0.);
      g.each([&](I3 x) { I3 a = x, b = x; a[W]--; b[W]++; dte[g.at(x)] = (Ha.scalar(h.te, b) - Ha.scalar(h.te, a)) / (2 * p.dx[W]); });
      std::vector<V> w;
      if (VAB == 2 || IMP) w.assign(D, V(N, 1.));
      if (VAB == 2) for (auto &v : w) for (size_t i = 0; i < N; ++i) v[i] += .5 * dt * p.coeff[i];
      if (IMP) for (size_t i = 0; i < N; ++i) w[W][i] += .25 * dt * dt * gT * dte[i] / (1 + .5 * dt * h.ab[i]);
      Proj P0(g, p.dx, p.G, {}), P1(g, p.dx, p.G, w);
      auto st = p.psi0; std::vector<V> edge(D, zero), R(NE, zero), f(D, zero);
      auto vel = [&] { return std::vector<V>(st.begin(), st.begin() + D); };
      auto setv = [&](const std::vector<V> &v) { for (int d = 0; d < D; ++d) st[d] = v[d]; };
      auto add = [&] { for (int e = 0; e < NE; ++e) for (size_t i = 0; i < N; ++i) st[e][i] += dt / 2 * R[e][i]; };
      auto buoy = [&](V b) { if (h.filter && !IMP) { V o = b; g.each([&](I3 x) { I3 lo = x, hi = x; lo[W]--; hi[W]++; o[g.at(x)] = .25 * (Ha.scalar(b, hi) + 2 * b[g.at(x)] + Ha.scalar(b, lo)); }); b = o; } R[W] = b; };
      // sources at the beginning of the run
      auto calc0 = [&] {
        V b(N);
        for (size_t i = 0; i < N; ++i)
        {
          double dev = IMP ? st[T][i] : st[T][i] - h.te[i];
          R[T][i] = h.hf[i] - h.ab[i] * dev - (IMP ? st[W][i] * dte[i] : 0); b[i] = gT * dev;
        }
        buoy(b);
      };
      bool ok = !P0.ambiguous && !P1.ambiguous; if (!ok) c.extra["projections_not_unique"]++;
      if (ok) { auto v = vel(); ok = P0(v, edge); setv(v); }
      calc0();
      if (VAB == 2) for (int d = 0; d < D; ++d) for (size_t i = 0; i < N; ++i) f[d][i] = -p.coeff[i] * (st[d][i] - p.relax[d][i]);
      { V phi(N, 0.); for (int d = 0; d < D; ++d) for (size_t i = 0; i < N; ++i) phi[i] -= .5 * st[d][i] * st[d][i]; auto q = P0.grad(phi); for (int d = 0; d < D; ++d) for (size_t i = 0; i < N; ++i) f[d][i] -= q[d][i]; }
      for (size_t n = 0; why.empty() && n <= run.log.size(); ++n)
      {
        auto &cmp = n < run.log.size() ? run.log[n].st : run.fin;
        std::string when = suite::fmt("after %zu steps", n);
        for (auto &v : cmp) c.state(v);
        if (rest) { double one = 1; why = same(cmp, p.psi0, 1e-13, one, when); if (n == run.log.size()) break; continue; }
        if (!ok) break;
        why = same(cmp, st, 1e-8, big, when);
        if (!(big < 1e3)) { c.extra["left_out_growing_without_bound"]++; why.clear(); break; }
        if (n == run.log.size() || !why.empty()) break;
        st = cmp;
        if (VAB == 1) for (int d = 0; d < D; ++d) for (size_t i = 0; i < N; ++i) f[d][i] -= 2 * p.coeff[i] * (st[d][i] - p.relax[d][i]);
        add(); for (int d = 0; d < D; ++d) for (size_t i = 0; i < N; ++i) st[d][i] += .5 * dt * f[d][i];
        for (int e = 0; e < NE; ++e) st[e] = adv(st[e], p, run.log[n].gc);
        // potential temperature at the end of the step: implicit absorber (and, if implicit, advection of the background)
        V adv_t = st[T], t1(N), b(N);
        for (auto &r : R) r.assign(N, 0.);
        for (size_t i = 0; i < N; ++i) { double e = IMP ? 0 : h.te[i]; t1[i] = (st[T][i] + .5 * dt * (h.hf[i] + h.ab[i] * e)) / (1 + .5 * dt * h.ab[i]); b[i] = gT * (t1[i] - e); }
        buoy(b);
        for (size_t i = 0; i < N; ++i) st[W][i] += .5 * dt * R[W][i];
        for (int d = 0; d < D; ++d) for (size_t i = 0; i < N; ++i) { f[d][i] = -st[d][i]; if (VAB == 2) st[d][i] += .5 * dt * p.coeff[i] * p.relax[d][i]; }
        { auto v = vel(); ok = P1(v, edge); setv(v); }
        for (int d = 0; d < D; ++d) for (size_t i = 0; i < N; ++i) f[d][i] = (f[d][i] + st[d][i]) / (.5 * dt);
        if (IMP) for (size_t i = 0; i < N; ++i) t1[i] -= .5 * dt * st[W][i] * dte[i] / (1 + .5 * dt * h.ab[i]);
        for (size_t i = 0; i < N; ++i) { st[T][i] = t1[i]; R[T][i] = (t1[i] - adv_t[i]) / (.5 * dt); }
        // (so far R[W] is the explicit part; what the projection adds is in f)
      }
      if (!ok) c.extra["without_solution"]++;
      c.step(run.log.size()); c.traces++;
      if (why.empty()) return true;
      c.viol("boussinesq:" + c.name, id + ": " + why); return false;
    }
  };
  template <int D, bool IMP, long O, int PRS, int VAB, class B> void bous(suite::Ctx &c, I3 n)
  {
    enum { W = D - 1, T = D };
    Dom g = dom_of<B>(n); Bq<D, IMP, O, PRS, VAB, B> chk{g}; int pts = g.distinct(), m = 0;
    std::vector<std::vector<int>> parts{{2}, {1, 2}, {3}};
    auto base = [&](Probe &p, Heat &h, int var) {
      p.dt = var % 2 ? .5 : .25; p.dx[0] = 1; p.dx[1] = 1.5; p.dx[2] = .8; if (var & 1) { p.dx[0] = .9; p.dx[1] = .7; p.dx[2] = 1.3; } p.parts = parts[m % 3]; p.iters = 2;
      if (isset(O, nug)) { p.G = V(g.size()); g.each([&](I3 x) { I3 r = g.rep(x); p.G[g.at(x)] = 1.25 - .125 * r[W] + .0625 * (r[0] % 2); }); }
      h.te.assign(g.size(), 0.); h.ab = h.hf = h.te; h.filter = var & 2;
      if (VAB) { p.coeff.assign(g.size(), 0.); for (int d = 0; d < D; ++d) p.relax[d] = p.coeff; }
    };
    auto scal = [&](V &v, auto fn) { g.each([&](I3 x) { v[g.at(x)] = fn(g.rep(x)); }); };
    // states of rest over any stratification, absorbers included
    for (int k = 0; k < (c.thorough ? 243 : 27); ++k) for (int var = 0; var < 4; ++var, ++m)
    {
      std::string id = suite::fmt("rest, stratification %d variant %d", k, var); if (!c.item(id)) continue;
      Probe p; Heat h; base(p, h, var);
      scal(h.te, [&](I3 r) { static const int p3[] = {1, 3, 9, 27, 81}; return 300 + .5 * r[W] * (var & 1) + (k / p3[r[W] % 5] % 3 - 1) * .75 + (IMP ? 0 : .25 * (hsh(r[0], r[1], r[2], k) % 3)); });
      scal(h.ab, [&](I3 r) { return .25 * (hsh(r[0], r[1], r[2], 5) % 3); });
      if (VAB) scal(p.coeff, [&](I3 r) { return .25 * (hsh(r[0], r[1], r[2], 6) % 3); });
      for (int d = 0; d < D; ++d) p.psi0.push_back(V(g.size(), 0.));
      p.psi0.push_back(IMP ? V(g.size(), 0.) : h.te);
      if (!chk(c, p, h, true, id) && c.enough()) return;
    }
    for (int e = 0; e <= D + 1; ++e) for (int q = 0; q < (e > D ? (c.thorough ? 40 : 12) : pts); ++q) for (int var = 0; var < (c.thorough ? 8 : 2); ++var, ++m)
    {
      int v = c.thorough ? var : (var + 2 * (q % 2)); std::string id = suite::fmt("component %d state %d variant %d", e, q, v); if (!c.item(id)) continue;
      Probe p; Heat h; base(p, h, v);
      h.g = v & 4 ? 9.81 : 10; h.tref = q % 3 ? 300 : 30;
      scal(h.te, [&](I3 r) { return (IMP ? 1 : 3) + (q % 4 - 1) * .25 * (g.cyc(W) ? r[W] % 2 : r[W]) + .125 * (e > D ? hsh(r[0], r[1], r[2], q) % 3 : 0); });
      if (q % 2 || e > D) scal(h.ab, [&](I3 r) { return .25 * (hsh(r[0], r[1], r[2], 5) % 3); });
      if (q % 3 || e > D) scal(h.hf, [&](I3 r) { return .25 * (hsh(r[0], r[1], r[2], 9 + q) % 3); });
      if (VAB) { scal(p.coeff, [&](I3 r) { return .25 * (hsh(r[0], r[1], r[2], 6) % 3); }); for (int d = 0; d < D; ++d) scal(p.relax[d], [&](I3 r) { return u01(r[0], r[1], r[2], 50 + d) - .5; }); }
      for (int k = 0; k <= D; ++k)
      {
        V d(pts, k == 0 ? .125 : k == D ? (IMP ? .25 : 3) : 0.);
        if (e <= D) { if (k == e) d[q] += v & 2 ? -.5 : .75; } else for (int i = 0; i < pts; ++i) d[i] += .5 * (u01(i, k, q, 77) - .5);
        p.psi0.push_back(spread(g, d));
      }
      for (int d = 0; d < D; ++d) if (!g.cyc(d)) g.each([&](I3 x) { if (x[d] == 0 || x[d] == g.n[d] - 1) { p.psi0[d][g.at(x)] = 0; if (VAB) p.coeff[g.at(x)] = 0; } });
      if (!chk(c, p, h, false, id) && c.enough()) return;
    }
    c.sample(suite::fmt("Boussinesq %s %s implicit %d absorber %d: %d states", g.name().c_str(), nm(O).c_str(), IMP, VAB, m));
  }
  const char *pname(int p) { return p == sl::mr ? "mr" : p == sl::cr ? "cr" : p == sl::gcrk ? "gcrk" : "pc"; }
#define W_(D, O, NR, B, N0, N1) CASE(suite::fmt("water %dD %s norhs %d %s", D, nm(O).c_str(), NR, #B), D * 12, [](suite::Ctx &c) { water<D, (O), NR, B>(c, {{N0, N1, 1}}); });
#define B_(D, IMP, O, PRS, VAB, B, N0, N1, N2) CASE(suite::fmt("boussinesq %dD %s %s %s absorber %d %s", D, IMP ? "implicit" : "explicit", nm(O).c_str(), pname(PRS), VAB, #B), D * 10, [](suite::Ctx &c) { bous<D, IMP, (O), PRS, VAB, B>(c, {{N0, N1, N2}}); });
  using CO = BC<cyc, cyc, opn, opn>; using CR = BC<cyc, cyc, rgd, rgd>; using RC = BC<rgd, rgd, cyc, cyc>; using CG = BC<cyc, cyc, gsk, gsk>;
  using CCR = BC<cyc, cyc, cyc, cyc, rgd, rgd>; using RRG = BC<rgd, rgd, rgd, rgd, gsk, gsk>;
#if PART == 0
  W_(1, iga | fct, true, C1, 6, 1) W_(1, ABS, false, C1, 6, 1) W_(1, ABS | fct, true, C1, 5, 1) W_(1, ABS | tot | fct, true, O1, 5, 1)
#elif PART == 1
  W_(2, iga | fct, true, C2, 5, 4) W_(2, ABS, true, C2, 4, 5) W_(2, ABS | fct, false, C2, 5, 4)
#elif PART == 2
  W_(2, fct | ABS, true, O2, 4, 3) W_(2, iga | fct, false, R2, 4, 4) W_(2, ABS | fct, true, CO, 4, 4) W_(2, iga | fct, true, RC, 4, 4)
#elif PART == 3
  B_(2, false, iga | fct, sl::cr, 0, CR, 5, 4, 1) B_(2, true, iga | fct, sl::cr, 0, CR, 5, 4, 1) B_(2, false, iga | fct, sl::gcrk, 0, C2, 5, 4, 1)
#elif PART == 4
  B_(2, true, iga | fct, sl::gcrk, 0, C2, 5, 4, 1) B_(2, true, iga, sl::mr, 2, CR, 5, 4, 1) B_(2, false, iga | nug, sl::cr, 2, CG, 5, 4, 1)
#elif PART == 5
  B_(2, true, iga | nug, sl::gcrk, 1, R2, 4, 5, 1) B_(2, false, ABS | fct, sl::pc, 1, CR, 5, 4, 1) B_(2, true, iga | tot, sl::pc, 2, CG, 5, 4, 1)
#elif PART == 6
  B_(3, false, iga | fct, sl::cr, 0, CCR, 4, 4, 4) B_(3, true, iga | fct, sl::gcrk, 2, CCR, 4, 4, 4)
#elif PART == 7
  B_(3, true, iga, sl::cr, 1, RRG, 3, 4, 4) B_(3, false, iga | nug, sl::gcrk, 2, RRG, 4, 3, 4)
#endif
}
