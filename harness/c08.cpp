// C08: advection conserves the advected mass. Every field and flow of a finite set is advanced by the real solver.
#include "../mc/dom.hpp"
using namespace dom;
#ifndef PART
#define PART 0
#endif

namespace
{
  double mass(const Dom &g, const V &psi, const V &G, double *tot)
  {
    long double m = 0, t = 0;
    g.each([&](I3 i) { int a = g.at(i); long double w = (long double)g.weight(i) * G[a] * psi[a]; m += w; t += std::fabs(w); });
    if (tot) *tot = (double)t;
    return (double)m;
  }
  bool same_ends(const Dom &g, const V &psi)
  {
    bool ok = true;
    g.each([&](I3 i) { double a = psi[g.at(i)], b = psi[g.at(g.rep(i))]; if (!(a == b || (std::isnan(a) && std::isnan(b)))) ok = false; });
    return ok;
  }
  // Total flow of mass into the domain through open ends, in a one-pass step: cells at open ends are free of divergence,
  // hence what passes the open ends is what leaves through all other faces of these cells; it has the value of the cell.
  double inflow(const Dom &g, const V &psi, const Flw &f)
  {
    long double r = 0;
    g.each([&](I3 p) {
      bool at_open = false; double net = 0;
      for (int d = 0; d < g.D; ++d) for (int side = 0; side < 2; ++side)
      {
        bool end = !g.cyc(d) && p[d] == (side ? g.n[d] - 1 : 0); char b = side ? g.r[d] : g.l[d];
        I3 e = p; if (!side) e[d]--;
        double v;
        if (!end) { e[d] = g.cyc(d) ? cy(e[d], g.n[d]) : e[d]; v = f.c[d][g.eat(d, e)]; }
        else if (b == 'o') { at_open = true; continue; }
        else if (b == 'p') v = 0;
        else { e[d] += side ? -1 : 1; v = -f.c[d][g.eat(d, e)]; }
        net += side ? v : -v;
      }
      if (at_open) r += g.weight(p) * (long double)net * psi[g.at(p)];
    });
    return (double)r;
  }

  template <class K, class B> void check(suite::Ctx &c, I3 n, const std::vector<V> &fields, const std::vector<Flw> &flows, const std::vector<int> &iters, int steps, int filter = 0)
  {
    const Dom g = dom_of<B>(n);
    const bool is_nug = isset(K::ct::opts, nug), has_open = [&] { for (int d = 0; d < g.D; ++d) if (g.l[d] == 'o' || g.r[d] == 'o') return true; return false; }();
    const V G = is_nug ? density(g) : V(g.size(), 1.);
    const double eps = sizeof(typename K::ct::real_t) == 4 ? 2e-5 : 2e-13;
    for (int it : iters) for (auto &f : flows)
    {
      if (!f.closed && it > 1) continue;
      if (!c.item(suite::fmt("%s, %d passes, %d steps, flow %s", g.name().c_str(), it, steps, f.name.c_str()))) continue;
      const int nst = f.closed ? steps : 1;
      for (auto &psi : fields)
      {
        Out o = run<K, B>(g, psi, f, G, it, nst, filter);
        c.step(nst); ++c.traces; c.state(o.psi);
        double t0, t1, m0 = mass(g, psi, G, &t0), m1 = mass(g, o.psi, G, &t1);
        double expect = m0;
        if (has_open && !f.closed) expect += inflow(g, psi, f);
        const double tol = eps * nst * (t0 + t1 + maxabs(psi) * g.size() * .1 + (isset(K::ct::opts, iga) ? g.size() : 0));
        if (!(std::fabs(m1 - expect) <= tol)) { ++c.extra["_"]; c.viol("mass:" + c.name, suite::fmt("%s: mass %.17g becomes %.17g, expected %.17g; field %s, flow %s %s %s %s, %d passes, %d steps", g.name().c_str(), m0, m1, expect, suite::show(psi).c_str(), f.name.c_str(), suite::show(f.c[0]).c_str(), suite::show(f.c[1]).c_str(), suite::show(f.c[2]).c_str(), it, nst)); break; }
        if (!same_ends(g, o.psi)) { c.viol("ends:" + c.name, suite::fmt("%s: the two ends of a cyclic direction differ; field %s, flow %s, %d passes", g.name().c_str(), suite::show(psi).c_str(), f.name.c_str(), it)); break; }
      }
      if (c.enough()) return;
    }
    c.extra.erase("_");
    c.sample(suite::fmt("%s: %zu fields x %zu flows; e.g. field %s, flow %s", g.name().c_str(), fields.size(), flows.size(), suite::show(fields.back(), 12).c_str(), flows.back().name.c_str()));
  }
  template <class T> void add(std::vector<T> &a, std::vector<T> b) { a.insert(a.end(), b.begin(), b.end()); }
  template <long O> std::vector<int> passes(bool th) { return isset(O, iga) ? std::vector<int>{2, 1} : std::vector<int>{1, 2, 3, 4}; }

  template <class K, class B> void body(suite::Ctx &c)
  {
    constexpr long O = K::ct::opts; constexpr int D = K::ct::n_dims;
    const bool mixed = isset(O, ABS) || isset(O, iga), third = isset(O, div_3rd) || isset(O, div_3rd_dt);
    const auto it = passes<O>(c.thorough);
    bool open = false, closed_ends = true;
    { Dom g = dom_of<B>({{4, 4, 4}}); for (int d = 0; d < D; ++d) for (char b : {g.l[d], g.r[d]}) { open |= b == 'o'; closed_ends &= b != 'o'; } }
    const std::vector<int> itf = open && third ? std::vector<int>{1} : it;
    if (D == 1)
    {
      I3 n{{6, 1, 1}}; Dom g = dom_of<B>(n);
      auto F = all_fields(g, mixed ? std::vector<double>{-1.5, 0, 1} : std::vector<double>{0, 1, 2.5}, false);
      check<K, B>(c, n, F, all_flows_1d(g, {-.45, 0, .3}, true), itf, 1);
      if (open) check<K, B>(c, n, F, all_flows_1d(g, {-.45, 0, .3}, false), {1}, 1);
      std::vector<Flw> some; for (int s = 1; s <= 3; ++s) some.push_back(arbitrary(g, s, .45, true));
      if (!open) { some.push_back(uniform(g, {{.35, 0, 0}})); some.push_back(uniform(g, {{-.6, 0, 0}})); }
      if (!open) check<K, B>(c, n, F, some, {it.back(), it[0]}, 3, 0);
      if (!open) check<K, B>(c, n, F, some, {2}, 3, 2);
      for (auto &f : std::vector<Flw>{}) (void)f;
    }
    else
    {
      std::vector<I3> shapes = D == 2 ? std::vector<I3>{{{5, 4, 1}}, {{3, 5, 1}}} : std::vector<I3>{{{4, 4, 4}}, {{3, 5, 4}}};
      if (dom_of<B>({{4, 4, 4}}).l[1] == 'p') shapes = D == 2 ? std::vector<I3>{{{5, 3, 1}}, {{7, 4, 1}}} : std::vector<I3>{{{5, 4, 4}}};
      for (size_t q = 0; q < shapes.size(); ++q)
      {
        I3 n = shapes[q];
        Dom g = dom_of<B>(n);
        std::vector<V> F, S;
        if (D == 2 && g.distinct() <= 13) F = all_fields(g, mixed ? std::vector<double>{-1, 1.5} : std::vector<double>{0, 1}, true);
        else add(F, impulses(g, mixed ? -.5 : 0, 1, 2.5, D == 2 || c.thorough, 40, mixed));
        S = impulses(g, mixed ? -.5 : .25, 1, 0, false, 10, mixed);
        std::vector<Flw> fl, few;
        const double amp = D == 2 ? .3 : .2;
        for (int s = 1; s <= (c.thorough ? 16 : 3); ++s) { fl.push_back(potential(g, s, amp, {{g.cyc(0) && (s & 1) ? amp / 3 : 0, g.cyc(1) && (s & 2) ? -amp / 3 : 0, g.cyc(2) && (s & 1) ? amp / 3 : 0}})); fl.push_back(arbitrary(g, s, amp * .7, true)); }
        few.assign(fl.begin(), fl.begin() + 4);
        check<K, B>(c, n, F, fl, {itf[itf.size() > 1 ? 1 : 0]}, 1);
        check<K, B>(c, n, S, fl, itf, 1);
        check<K, B>(c, n, S, few, {itf[itf.size() > 1 ? 1 : 0]}, 3);
        if (q == 0) check<K, B>(c, n, S, few, {itf[itf.size() > 1 ? 1 : 0]}, 3, 2);
        if (open)
        { // flow across open ends
          std::vector<Flw> th; for (int s = 1; s <= (c.thorough ? 24 : 6); ++s) th.push_back(arbitrary(g, s, amp * .5, false));
          for (double a : {-.3, .2}) for (double b : {-.2, .3}) th.push_back(uniform(g, {{a, b, .1}}));
          check<K, B>(c, n, F, th, {1}, 1);
        }
      }
    }
  }
  template <class B, long... O> struct Many
  {
    static std::string name(long o) { return suite::fmt("%dD ", bcs_of<B>::D) + dom_of<B>({{4, 4, 4}}).name() + " " + nm(o); }
    Many() { int d[] = {(suite::Reg(name(O), bcs_of<B>::D * 10, body<Mpd<ctI<bcs_of<B>::D, O>>, B>), 0)...}; (void)d; }
  };
}
#define D2 div_2nd
#define D3 (div_2nd | div_3rd)
#define DT (div_2nd | div_3rd_dt)
using CO = BC<cyc, cyc, opn, opn>; using CR = BC<cyc, cyc, rgd, rgd>; using RO = BC<rgd, rgd, opn, opn>; using RM = BC<rgd, gsk, rgd, opn>; using CG = BC<cyc, cyc, gsk, gsk>; using CP = BC<cyc, cyc, pol, pol>;
using CCR = BC<cyc, cyc, cyc, cyc, rgd, rgd>; using CRO = BC<cyc, cyc, rgd, rgd, opn, opn>; using CCG = BC<cyc, cyc, cyc, cyc, gsk, gsk>; using RCO = BC<rgd, rgd, cyc, cyc, opn, opn>; using CPR = BC<cyc, cyc, pol, pol, rgd, rgd>;
#if PART == 0
static Many<C1, 0, ABS, iga, tot, nug, dfl, fct, fct|iga, fct|tot|ABS, fct|iga|tot|nug|dfl, dfl|nug|ABS, khn|pfc|npa|fct|nug, D2|nug, D3|nug, D3|fct|iga, D3|fct|ABS|nug> p0;
static Many<O1, 0, fct|nug, fct|iga, tot|ABS|dfl, D2|nug> p1;
#elif PART == 1
static Many<C2, 0, nug|ABS, iga|nug, tot|nug, fct|nug, fct|iga, fct|iga|tot|nug, fct|tot|ABS|dfl> p0;
#elif PART == 2
static Many<C2, dfl|nug, khn|pfc|npa|fct|tot, D2|nug, D2|fct|iga, D3|nug, D3|fct|iga|nug, DT|fct|ABS, D3|fot|iga> p0;
#elif PART == 3
static Many<O2, nug, fct|iga|nug, tot|ABS, D2|nug, dfl|nug> p0;
static Many<R2, nug, fct|iga|nug, tot|fct, D3|nug, dfl|nug|ABS> p1;
#elif PART == 4
static Many<CO, nug, fct|iga|tot> p0; static Many<CR, fct|nug, D3|iga|nug> p2; static Many<RO, fct|nug, iga|tot> p3; static Many<CG, fct|iga|nug> p5; static Many<RM, nug, fct|iga> p7; static Many<CP, nug, fct|iga|nug, tot|nug|fct, D2|nug, D3|nug, D3|fct|iga|nug, dfl|nug> p6;
#elif PART == 5
static Many<C3, nug, fct|iga|nug, fct|tot|ABS> p0;
#elif PART == 6
static Many<C3, tot|iga|nug, dfl|nug, D2|fct|nug, D3|nug> p0;
#elif PART == 7
static Many<O3, nug, fct|iga|tot> p0; static Many<R3, nug|fct, tot|iga|fct> p1;
#elif PART == 8
static Many<CCR, fct|nug, D3|iga> p2; static Many<CRO, fct|iga|nug> p3; static Many<CCG, fct|iga|nug> p4;
#elif PART == 9
static Many<RCO, tot|nug> p5; static Many<CPR, fct|nug, D3|nug> p6;
#endif
