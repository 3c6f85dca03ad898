// C09: advection keeps the sign of fields, flux-corrected advection creates no extrema, and uniform fields stay uniform
// in non-divergent flow. Every field and flow of a finite set is advanced by the real solver.
#include "../mc/dom.hpp"
using namespace dom;
#ifndef PART
#define PART 0
#endif

namespace
{
  // the neighbours of a point (itself included) under the boundary conditions
  std::vector<std::vector<int>> neighbours(const Dom &g)
  {
    std::vector<std::vector<int>> r(g.size());
    g.each([&](I3 p) {
      auto &v = r[g.at(p)]; v.push_back(g.at(p));
      for (int d = 0; d < g.D; ++d) for (int s : {-1, 1})
      {
        I3 q = p; q[d] += s;
        if (g.cyc(d)) { q[d] = cy(q[d], g.n[d]); }
        else if (q[d] < 0 || q[d] > g.n[d] - 1)
        {
          char b = q[d] < 0 ? g.l[d] : g.r[d];
          if (b == 'o') continue;                     // the end point itself
          if (Dom::wall(b)) q[d] = p[d] - s;          // mirror image
          if (b == 'p') { q[d] = p[d]; q[0] = (p[0] + (g.n[0] - 1) / 2) % (g.n[0] - 1); } // across the pole
        }
        v.push_back(g.at(q));
      }
    });
    return r;
  }
  void widen(const std::vector<std::vector<int>> &nb, V &lo, V &hi)
  {
    V a = lo, b = hi;
    for (size_t i = 0; i < lo.size(); ++i) for (int j : nb[i]) { a[i] = std::min(a[i], lo[j]); b[i] = std::max(b[i], hi[j]); }
    lo = a; hi = b;
  }
  std::string bad_at(const V &r, const V &lo, const V &hi, double tol)
  {
    for (size_t i = 0; i < r.size(); ++i) if (!(r[i] >= lo[i] - tol && r[i] <= hi[i] + tol)) return suite::fmt("point %zu has %.17g, not within [%.17g, %.17g]", i, r[i], lo[i], hi[i]);
    return "";
  }
  // what the flow lets out of any cell in one step, relative to its content
  double courant(const Dom &g, const Flw &f, const V &G)
  {
    double m = 0;
    g.each([&](I3 p) {
      double out = 0;
      for (int d = 0; d < g.D; ++d)
      { // (at ends of the domain: of the inner edge)
        I3 e = p, l = p; l[d]--;
        double a = f.c[d][g.eat(d, e)], b = f.c[d][g.eat(d, l)];
        if (!g.cyc(d)) { if (p[d] == 0) b = g.l[d] == 'p' ? 0 : Dom::wall(g.l[d]) ? -a : a; if (p[d] == g.n[d] - 1) { a = g.r[d] == 'p' ? 0 : Dom::wall(g.r[d]) ? -b : b; } }
        out += std::max(a, 0.) + std::max(-b, 0.);
      }
      m = std::max(m, out / G[g.at(p)]);
    });
    return m;
  }

  template <class K, class B> void check(suite::Ctx &c, I3 n, const std::vector<V> &fields, const std::vector<Flw> &flows, const std::vector<int> &iters, int steps)
  {
    constexpr long O = K::ct::opts;
    const Dom g = dom_of<B>(n);
    const bool is_fct = isset(O, fct), var_sign = isset(O, ABS) || isset(O, iga);
    const bool sign = is_fct ? true : !var_sign && !isset(O, tot) && !isset(O, div_2nd) && !isset(O, dfl);
    const V G = isset(O, nug) ? density(g, 1) : V(g.size(), 1.);
    const auto nb = neighbours(g);
    for (int it : iters) for (auto &f : flows)
    {
      const double cfl = courant(g, f, G);
      if (cfl > 1) continue;
      if (!c.item(suite::fmt("%s, %d passes, %d steps, flow %s", g.name().c_str(), it, steps, f.name.c_str()))) continue;
      auto fail = [&](const char *k, const V &psi, const std::string &w) {
        c.viol(k + (":" + c.name), suite::fmt("%s: %s; field %s, flow %s %s %s %s (outflow of at most %.3g of a cell's content), %d passes, %d steps", g.name().c_str(), w.c_str(), suite::show(psi).c_str(), f.name.c_str(), suite::show(f.c[0]).c_str(), suite::show(f.c[1]).c_str(), suite::show(f.c[2]).c_str(), cfl, it, steps));
      };
      bool ok = true;
      if (!f.divergent) for (double u : {1., -2.5, 0.})
      { // uniform fields
        if (u < 0 && !var_sign) continue;
        V psi(g.size(), u); Out o = run<K, B>(g, psi, f, G, it, steps); c.step(steps); ++c.traces; c.state(o.psi);
        for (double x : o.psi) if (ok && !(std::fabs(x - u) <= 1e-12 * std::max(1., std::fabs(u)))) { ok = false; fail("uniform", psi, suite::fmt("uniform field changed to %.17g", x)); }
      }
      for (auto &psi : fields)
      {
        Out o = run<K, B>(g, psi, f, G, it, steps); c.step(steps); ++c.traces; c.state(o.psi);
        const double m = maxabs(psi), tol = 3e-13 * std::max(m, isset(O, iga) ? 1. : 0.);
        bool nonneg = true; for (double x : psi) nonneg &= x >= 0;
        if (sign && nonneg && (!is_fct || it == 1 || !f.divergent || steps == 1)) for (double x : o.psi) if (!(x >= -tol)) { fail("sign", psi, suite::fmt("a non-negative field got the value %.17g", x)); ok = false; break; }
        if (!ok) break;
        if (!is_fct && it > 1) continue;
        if (!f.divergent)
        { // within what was there nearby at the beginning
          V lo = psi, hi = psi; for (int q = 0; q < it * steps; ++q) widen(nb, lo, hi);
          std::string w = bad_at(o.psi, lo, hi, tol); if (!w.empty()) { fail("extremum", psi, w); ok = false; }
        }
        if (ok && it > 1 && steps == 1)
        { // within what the preceding pass gives and the step started from, whatever the flow
          V lo = psi, hi = psi; Out b = run<K, B>(g, psi, f, G, it - 1, 1); c.step(); ++c.traces;
          for (size_t q = 0; q < psi.size(); ++q) { lo[q] = std::min(lo[q], b.psi[q]); hi[q] = std::max(hi[q], b.psi[q]); }
          widen(nb, lo, hi);
          std::string w = bad_at(o.psi, lo, hi, tol + 3e-13 * maxabs(b.psi)); if (!w.empty()) { fail("correction", psi, w); ok = false; }
        }
        if (!ok) break;
      }
      if (c.enough()) return;
    }
    c.sample(suite::fmt("%s: %zu fields x %zu flows; e.g. field %s, flow %s", g.name().c_str(), fields.size(), flows.size(), suite::show(fields.back(), 12).c_str(), flows.back().name.c_str()));
  }
  template <class T> void add(std::vector<T> &a, std::vector<T> b) { a.insert(a.end(), b.begin(), b.end()); }
  template <long O> std::vector<int> passes(bool th) { return isset(O, iga) ? std::vector<int>{2, 1} : th ? std::vector<int>{2, 3, 1, 4} : std::vector<int>{2, 3, 1}; }

  template <class K, class B> void body(suite::Ctx &c)
  {
    constexpr long O = K::ct::opts; constexpr int D = K::ct::n_dims;
    const bool mixed = isset(O, ABS) || isset(O, iga);
    const auto it = passes<O>(c.thorough);
    bool open = false, wall = false;
    { Dom g = dom_of<B>({{4, 4, 4}}); for (int d = 0; d < D; ++d) for (char b : {g.l[d], g.r[d]}) { open |= b == 'o'; wall |= Dom::wall(b) || b == 'p'; } }
    if (D == 1)
    {
      I3 n{{6, 1, 1}}; Dom g = dom_of<B>(n);
      auto F = all_fields(g, mixed ? std::vector<double>{-1.5, 0, 1} : std::vector<double>{0, 1, 2.5}, false);
      auto P = all_flows_1d(g, {-.45, 0, .3}, false); for (auto &f : P) f.divergent = true;
      check<K, B>(c, n, F, P, it, 1);
      std::vector<Flw> U; for (double u : {-.9, -.3, 0., .5, .95}) U.push_back(uniform(g, {{u, 0, 0}}));
      check<K, B>(c, n, F, U, it, 1); check<K, B>(c, n, F, U, it, 3);
      if (!c.thorough && isset(O, fct)) { I3 m{{9, 1, 1}}; Dom q = dom_of<B>(m); std::vector<Flw> W; for (double u : {-.7, .4}) W.push_back(uniform(q, {{u, 0, 0}})); check<K, B>(c, m, impulses(q, mixed ? -.5 : 0, 1, 2.5, true, 40, mixed), W, it, 1); }
    }
    else
    {
      std::vector<I3> shapes = D == 2 ? std::vector<I3>{{{5, 4, 1}}, {{4, 6, 1}}} : std::vector<I3>{{{4, 4, 4}}, {{3, 5, 4}}};
      if (dom_of<B>({{4, 4, 4}}).l[1] == 'p') shapes = D == 2 ? std::vector<I3>{{{5, 3, 1}}, {{7, 4, 1}}} : std::vector<I3>{{{5, 4, 4}}};
      for (size_t q = 0; q < shapes.size(); ++q)
      {
        I3 n = shapes[q];
        Dom g = dom_of<B>(n);
        std::vector<V> F, S;
        if (D == 2 && g.distinct() <= 13) F = all_fields(g, mixed ? std::vector<double>{-1, 1.5} : std::vector<double>{0, 1}, true);
        else add(F, impulses(g, mixed ? -.5 : 0, 1, 2.5, D == 2 || c.thorough, 40, mixed));
        S = impulses(g, mixed ? -.5 : 0, 1, 0, false, 10, mixed);
        add(S, impulses(g, 1, 0, 0, false, 0, mixed));
        std::vector<Flw> fl, few;
        const double amp = D == 2 ? .4 : .25;
        for (int s = 1; s <= (c.thorough ? 16 : 3); ++s) { fl.push_back(potential(g, s, amp, {{g.cyc(0) && (s & 1) ? amp / 3 : 0, g.cyc(1) && (s & 2) ? -amp / 3 : 0, g.cyc(2) && (s & 1) ? amp / 3 : 0}})); fl.push_back(arbitrary(g, s, amp * .6, true)); }
        if (!wall) for (double a : {-.3, .2}) for (double b : {-.2, .35}) fl.push_back(uniform(g, {{a, b, .15}}));
        if (open && isset(O, dfl)) fl.resize(6);
        few.assign(fl.begin(), fl.begin() + 3); few.push_back(fl.back());
        check<K, B>(c, n, F, fl, {it[0]}, 1);
        check<K, B>(c, n, S, fl, it, 1);
        check<K, B>(c, n, S, few, {it[0]}, 3);
      }
    }
  }
  template <class B, long... O> struct Many
  {
    static std::string name(long o) { return suite::fmt("%dD ", bcs_of<B>::D) + dom_of<B>({{4, 4, 4}}).name() + " " + nm(o); }
    Many() { int d[] = {(suite::Reg(name(O), bcs_of<B>::D * 10, body<Mpd<ctI<bcs_of<B>::D, O>>, B>), 0)...}; (void)d; }
  };
}
#define D2 div_2nd
#define D3 (div_2nd | div_3rd)
#define DT (div_2nd | div_3rd_dt)
using CO = BC<cyc, cyc, opn, opn>; using CR = BC<cyc, cyc, rgd, rgd>; using RO = BC<rgd, rgd, opn, opn>; using RM = BC<rgd, gsk, rgd, opn>; using CG = BC<cyc, cyc, gsk, gsk>; using CP = BC<cyc, cyc, pol, pol>;
using CCR = BC<cyc, cyc, cyc, cyc, rgd, rgd>; using CRO = BC<cyc, cyc, rgd, rgd, opn, opn>; using CCG = BC<cyc, cyc, cyc, cyc, gsk, gsk>; using RCO = BC<rgd, rgd, cyc, cyc, opn, opn>; using CPR = BC<cyc, cyc, pol, pol, rgd, rgd>;
#if PART == 0
static Many<C1, 0, nug|khn|pfc|npa, ABS|nug, iga, tot|nug, D3|nug, fct, fct|ABS|nug, fct|iga, fct|tot|nug, fct|tot|ABS, fct|iga|tot|nug, fct|dfl|nug, fct|dfl|iga, fct|khn|pfc|npa, D2|fct|nug, D3|fct|iga, D3|fct|ABS> p0;
static Many<O1, 0, nug, fct, fct|iga|nug, fct|tot|ABS, D2|fct|nug> p1;
#elif PART == 1
static Many<C2, 0, nug|khn|pfc|npa, nug|tot, fct, fct|nug|ABS, fct|iga|nug, fct|tot|nug> p0;
#elif PART == 2
static Many<C2, fct|iga|tot|nug, fct|iga|tot|fot, fct|dfl|nug, fct|dfl|iga, D2|fct|nug, D3|fct|iga|nug, D3|fct|ABS, DT|fct|nug> p0;
#elif PART == 3
static Many<O2, 0, nug, fct|nug, fct|iga|nug, fct|tot|ABS, D2|fct> p0;
static Many<R2, 0, fct|nug, fct|iga|tot, D3|fct|ABS> p1;
#elif PART == 4
static Many<CO, fct|nug, fct|iga|tot> p0; static Many<CR, fct|nug, nug> p2; static Many<RO, fct|nug, fct|iga> p3; static Many<CG, fct|iga|nug> p5; static Many<CP, nug, fct|nug, fct|iga|tot, D3|fct|nug, D2|fct|iga> p6; static Many<RM, fct|nug, 0> p7;
#elif PART == 5
static Many<C3, nug, fct|nug, fct|iga, fct|tot|ABS|nug> p0;
#elif PART == 6
static Many<C3, fct|iga|tot|nug, fct|dfl|nug, D2|fct|nug, D3|fct|iga> p0;
#elif PART == 7
static Many<O3, nug, fct|nug, fct|iga|tot> p0; static Many<R3, nug, fct|nug, fct|iga|tot> p1;
#elif PART == 8
static Many<CCR, fct|nug> p2; static Many<CRO, fct|iga|nug> p3; static Many<CCG, fct|iga|nug> p4; static Many<RCO, fct|nug> p5; static Many<CPR, fct|nug> p6;
#endif
