// C21: each equation of a system is advected as if it were alone: whatever its position, the other fields, the delay of
// some equations and the scaling hints; delayed equations are advected after the others and after their hook.
#include "../mc/dom.hpp"
#include "../mc/fill.hpp"
#include <memory>
using namespace dom;
#ifndef PART
#define PART 0
#endif

namespace
{
  struct Ev { char what; std::vector<V> st; };
  std::vector<Ev> *evs;
  template <class base> struct hooks_t : base
  {
    using base::base;
    void note(char c) { Ev e; e.what = c; for (int q = 0; q < base::n_eqns; ++q) { blitz::Array<double, base::n_dims> s(this->state(q)(this->ijk)); e.st.push_back(read(s)); } evs->push_back(e); }
    void hook_ante_step() { base::hook_ante_step(); note('a'); }
    void hook_ante_delayed_step() { base::hook_ante_delayed_step(); note('d'); }
    void hook_post_step() { base::hook_post_step(); note('p'); }
  };
  // scaling: SC chooses the exponents
  template <int SC> constexpr int expo(int e) { return SC == 0 ? 0 : SC == 1 ? (e == 0 ? 3 : e == 1 ? -4 : e == 2 ? 7 : 0) : SC == 2 ? (e % 2 ? 20 : -20) : 30 - 20 * e; }
  template <int D, int NE, long O, int DEL, int SC> struct ctM : CT<D, NE, O>
  {
    enum { delayed_step = DEL };
    static constexpr int hint_scale(const int &e) { return expo<SC>(e); }
  };
  template <class K, class B> struct Single
  {
    const Dom &g; const Flw &f; const V &G; int iters;
    std::vector<V> operator()(const V &psi, int steps) const { std::vector<V> r; r.push_back(psi); for (int n = 1; n <= steps; ++n) r.push_back(dom::run<K, B>(g, psi, f, G, iters, n).psi); return r; }
  };
  template <int D, int NE, long O, int DEL, int SC, class B> void go(suite::Ctx &c, I3 n, bool alln)
  {
    using ct = ctM<D, NE, O, DEL, SC>; using base_t = hooks_t<libmpdataxx::solvers::mpdata<ct>>;
    using run_t = typename bind_bc<concurr::serial, base_t, B>::type;
    using K1 = Mpd<CT<D, 1, O>>;
    Dom g = dom_of<B>(n);
    bool closed = !g.cyc(0) && Dom::wall(g.l[0]);
    std::vector<Flw> fl{potential(g, 1, D == 1 ? .5 : .4, D == 1 ? std::array<double, 3>{{-.25, 0, 0}} : std::array<double, 3>{{0, 0, 0}})};
    if (!closed) fl.push_back(uniform(g, {{.375, D > 1 ? .25 : 0., D > 2 ? -.25 : 0.}}));
    V G = isset(O, nug) ? density(g) : V();
    bool sgn = isset(O, ABS) || isset(O, iga);
    auto F = alln ? all_fields(g, sgn ? std::vector<double>{0, 1, -1} : std::vector<double>{0, 1, 2}, true) : impulses(g, 0, 1, -.5, c.thorough, c.thorough ? 8 : 3, sgn);
    const int S = c.thorough ? 4 : 3; // even and odd numbers of steps
    for (size_t f = 0; f < fl.size(); ++f) for (int iters = isset(O, iga) ? 2 : 1; iters <= (isset(O, iga) ? 2 : 3); ++iters)
    {
      Single<K1, B> one{g, fl[f], G, iters};
      std::vector<std::vector<V>> ref; for (auto &p : F) ref.push_back(one(p, S));
      for (size_t a = 0; a < F.size(); ++a) for (int shift = 1; shift < (c.thorough ? 4 : 2); ++shift) for (int split = 0; split < 2; ++split)
      {
        std::string id = suite::fmt("flow %zu passes %d field %zu shift %d split %d", f, iters, a, shift, split);
        if (!c.item(id)) continue;
        auto pick = [&](int e) { return (a + e * (shift * 7 + (int)F.size() / 3)) % F.size(); };
        Setup s; s.D = D; s.n = g.n; s.iters = iters;
        auto p = base_params<base_t>(s); p.max_abs_div_eps = 1e9;
        std::vector<Ev> log; evs = &log; std::vector<std::vector<V>> got(S + 1, std::vector<V>(NE)); std::vector<V> adv;
        {
          run_t r(p);
          for (int e = 0; e < NE; ++e) fill(r.advectee(e), [&](int i, int j, int k) { return F[pick(e)][g.at({i, j, k})]; });
          for (int d = 0; d < D; ++d) fill(r.advector(d), [&](int i, int j, int k) { return fl[f].c[d][g.eat(d, {i, j, k})]; });
          if (isset(O, nug)) fill(r.g_factor(), [&](int i, int j, int k) { return G[g.at({i, j, k})]; });
          if (split) for (int m = 1; m <= S; ++m) { r.advance(1); for (int e = 0; e < NE; ++e) got[m][e] = read(r.advectee(e)); }
          else { r.advance(S); for (int e = 0; e < NE; ++e) got[S][e] = read(r.advectee(e)); }
        }
        c.step(S); c.traces++;
        std::string why;
        double ref_max = 0; bool fin = true;
        auto cmp = [&](int e, const V &x, const V &y, const std::string &what) {
          // (the library adds fixed small numbers to denominators; they weigh more in scaled fields)
          double tol = 1e-13 * maxabs(y) + (expo<SC>(e) ? 4e-15 * std::ldexp(1., std::abs(expo<SC>(e))) : 0);
          for (size_t i = 0; why.empty() && i < x.size(); ++i) if (!(std::fabs(x[i] - y[i]) <= tol)) why = what + suite::fmt(": point %zu is %.17g instead of %.17g", i, x[i], y[i]);
        };
        for (int e = 0; e < NE; ++e) for (auto &v : ref[pick(e)]) for (double x : v) { if (!std::isfinite(x)) fin = false; ref_max = std::max(ref_max, std::fabs(x)); }
        if (!fin || ref_max > 1e3) { c.extra["left_out_growing_without_bound"]++; continue; }
        for (int m = 1; m <= S; ++m) if (got[m][0].size()) for (int e = 0; e < NE; ++e) { cmp(e, got[m][e], ref[pick(e)][m], suite::fmt("equation %d after %d steps", e, m)); c.state(got[m][e]); }
        // the order of events: before / between / after
        if (log.size() != (size_t)3 * S) why = suite::fmt("%zu calls of hooks in %d steps", log.size(), S);
        for (size_t q = 0; why.empty() && q < log.size(); ++q)
        {
          int m = q / 3; char w = "adp"[q % 3];
          if (log[q].what != w) why = suite::fmt("call %zu is of hook '%c', not '%c'", q, log[q].what, w);
          for (int e = 0; why.empty() && e < NE; ++e)
          {
            bool done = w == 'p' || (w == 'd' && !((DEL >> e) & 1));
            cmp(e, log[q].st[e], ref[pick(e)][m + done], suite::fmt("equation %d at hook '%c' of step %d", e, w, m + 1));
          }
        }
        if (!why.empty()) { c.viol("equations:" + c.name, id + ": " + why); if (c.enough()) return; }
      }
    }
    c.sample(suite::fmt("%d equations, delayed mask %d, scaling %d, %s, %s: %zu fields, %zu flows, %d steps", NE, DEL, SC, nm(O).c_str(), g.name().c_str(), F.size(), fl.size(), S));
  }
#define M1(NE, O, DEL, SC, B, ...) CASE(suite::fmt("%dD %d equations %s delayed %d scaling %d %s", (int)bcs_of<B>::D, NE, nm(O).c_str(), DEL, SC, #B), NE * 10, [](suite::Ctx &c) { go<bcs_of<B>::D, NE, (O), DEL, SC, B>(c, __VA_ARGS__); });
#define A1(NE, DEL, SC, O) M1(NE, O, DEL, SC, C1, {{6, 1, 1}}, NE < 4)
  using M2 = BC<cyc, cyc, opn, opn>; using N2 = BC<rgd, rgd, cyc, cyc>; using M3 = BC<cyc, cyc, opn, opn, rgd, rgd>;
#if PART == 0
  A1(1, 0, 1, 0) A1(1, 1, 0, ABS) A1(2, 0, 0, iga | fct) A1(2, 1, 1, ABS) A1(2, 2, 0, ABS | fct) A1(2, 3, 2, iga)
  A1(3, 0, 0, ABS) A1(3, 1, 1, iga | fct)
#elif PART == 1
  A1(3, 2, 0, ABS | tot) A1(3, 3, 2, ABS) A1(3, 4, 0, iga) A1(3, 5, 1, ABS) A1(3, 6, 0, iga | fct) A1(3, 7, 3, ABS)
#elif PART == 2
  A1(4, 0, 1, ABS) A1(4, 1, 0, iga) A1(4, 2, 0, ABS) A1(4, 3, 0, iga) A1(4, 4, 1, ABS) A1(4, 5, 0, iga) A1(4, 6, 2, ABS) A1(4, 7, 0, iga)
#elif PART == 3
  A1(4, 8, 0, ABS) A1(4, 9, 1, iga) A1(4, 10, 0, ABS) A1(4, 11, 0, iga | fct) A1(4, 12, 0, ABS) A1(4, 13, 0, iga) A1(4, 14, 0, ABS) A1(4, 15, 3, iga)
#elif PART == 4
  M1(2, iga | fct, 0, 0, C2, {{5, 4, 1}}, false) M1(2, iga | fct, 1, 1, C2, {{5, 4, 1}}, false) M1(2, ABS | nug, 2, 0, C2, {{5, 4, 1}}, false) M1(2, iga | tot | nug, 3, 2, C2, {{5, 4, 1}}, false)
#elif PART == 5
  M1(3, ABS | fct, 0, 1, M2, {{4, 4, 1}}, false) M1(3, iga | fct, 2, 0, N2, {{4, 4, 1}}, false) M1(3, ABS, 5, 1, R2, {{4, 4, 1}}, false) M1(3, iga | nug, 6, 0, O2, {{4, 4, 1}}, false) M1(3, iga, 4, 3, C2, {{5, 4, 1}}, false)
#elif PART == 6
  M1(2, iga | fct, 0, 1, C3, {{4, 4, 3}}, false) M1(2, ABS, 1, 0, M3, {{4, 3, 4}}, false)
#elif PART == 7
  M1(3, iga | fct, 2, 1, C3, {{4, 4, 3}}, false) M1(3, ABS | nug | fct, 5, 2, C3, {{4, 4, 3}}, false)
#elif PART == 8
  M1(2, iga | div_2nd | div_3rd, 2, 1, C2, {{5, 5, 1}}, false) M1(2, iga | div_2nd | div_3rd | fct, 1, 0, C3, {{4, 4, 4}}, false) M1(2, ABS | khn, 0, 1, C2, {{5, 4, 1}}, false) M1(3, npa | fct, 3, 1, C1, {{6, 1, 1}}, true) M1(3, pfc, 4, 1, C1, {{6, 1, 1}}, true)
#endif
}
