// C11: boundary conditions act as documented, identically on every side. Every field and flow of a finite set is advanced
// by the real solver on pairs of domains related by a symmetry or continuation.
#include "../mc/sym.hpp"
using namespace sym;
#ifndef PART
#define PART 0
#endif
namespace
{
  template <class T> void add(std::vector<T> &a, std::vector<T> b) { a.insert(a.end(), b.begin(), b.end()); }
  template <long O> bool mixed() { return isset(O, ABS) || isset(O, iga); }
  template <long O> std::vector<V> fields(const Dom &g, bool th)
  {
    std::vector<V> F;
    if (g.D == 1 && g.distinct() <= 6) F = all_fields(g, mixed<O>() ? std::vector<double>{-1.5, 0, 1} : std::vector<double>{0, 1, 2.5}, false);
    else if (th && g.distinct() <= 12) F = all_fields(g, mixed<O>() ? std::vector<double>{-1, 1.5} : std::vector<double>{0, 1}, true);
    add(F, impulses(g, mixed<O>() ? -.5 : .25, 1, 2.5, th && g.D < 3, th ? 30 : 14, mixed<O>()));
    return F;
  }
  template <long O> std::vector<Flw> flows(const Dom &g, bool th)
  {
    std::vector<Flw> r; bool wall = false;
    for (int d = 0; d < g.D; ++d) for (char b : {g.l[d], g.r[d]}) wall |= Dom::wall(b) || b == 'p';
    if (g.D == 1) { for (double u : {-.6, .35}) r.push_back(uniform(g, {{u, 0, 0}})); auto q = all_flows_1d(g, {-.4, .3}, false); for (size_t i = 0; i < q.size(); i += th ? 1 : 3) r.push_back(q[i]); return r; }
    const double amp = g.D == 2 ? .4 : .25;
    for (int s = 1; s <= (th ? 10 : 5); ++s) r.push_back(potential(g, s, amp, {{g.cyc(0) && (s & 1) ? amp / 3 : 0, g.cyc(1) && (s & 2) ? -amp / 3 : 0, g.cyc(2) && (s & 1) ? amp / 3 : 0}}));
    if (isset(O, dfl) || !isset(O, fct)) for (int s = 1; s <= (th ? 4 : 2); ++s) r.push_back(arbitrary(g, s, amp * .6, true));
    if (!wall) { r.push_back(uniform(g, {{-.3, .2, .15}})); r.push_back(uniform(g, {{.2, .35, -.2}})); }
    return r;
  }
  template <long O> std::vector<int> passes(bool th) { return isset(O, iga) ? std::vector<int>{2, 1} : th ? std::vector<int>{2, 3, 1, 4} : std::vector<int>{2, 3, 1}; }
  inline I3 base_shape(const Dom &g, int v)
  {
    if (g.D == 1) return {{v ? 7 : 6, 1, 1}};
    if (g.D == 2) return g.l[1] == 'p' ? (v ? I3{{7, 3, 1}} : I3{{5, 4, 1}}) : (v ? I3{{5, 6, 1}} : I3{{4, 4, 1}});
    return g.l[1] == 'p' ? (v ? I3{{5, 3, 4}} : I3{{5, 4, 3}}) : (v ? I3{{4, 3, 5}} : I3{{3, 4, 4}});
  }
  template <long O, class B1, class B2> void pair(suite::Ctx &c, const char *key, const Dom &g, I3 n2, const Map &m)
  {
    using K = Mpd<ctI<bcs_of<B1>::D, O>>;
    auto F = fields<O>(g, c.thorough); auto W = flows<O>(g, c.thorough); auto it = passes<O>(c.thorough);
    std::string k = suite::fmt("%s:%s", key, c.name.c_str());
    compare<K, B1, K, B2>(c, k, g.n, n2, m, F, W, it, 1);
    std::vector<V> f2(F.end() - std::min<size_t>(F.size(), 12), F.end());
    compare<K, B1, K, B2>(c, k, g.n, n2, m, f2, W, {it[0]}, 3);
  }
  template <class B, int d, bool on = (d < bcs_of<B>::D)> struct Refl { template <long O> static void go(suite::Ctx &c, const Dom &g) { pair<O, B, typename flip<B, d>::type>(c, "reflected", g, g.n, reflect(g, d)); } };
  template <class B, int d> struct Refl<B, d, false> { template <long O> static void go(suite::Ctx &, const Dom &) {} };

  template <class B, long O> void sides(suite::Ctx &c)
  {
    for (int v = 0; v < 2; ++v)
    {
      Dom g = dom_of<B>(base_shape(dom_of<B>({{4, 4, 4}}), v));
      Refl<B, 0>::template go<O>(c, g); if (c.enough()) return;
      Refl<B, 1>::template go<O>(c, g); if (c.enough()) return;
      Refl<B, 2>::template go<O>(c, g); if (c.enough()) return;
      for (int d = 0; d < g.D; ++d) if (g.cyc(d)) for (int s = 1; s < (c.thorough ? g.n[d] - 1 : 2); ++s) { pair<O, B, B>(c, "shifted", g, g.n, shift(g, d, s)); if (c.enough()) return; }
    }
  }
  template <class B1, class B2, long O> void walls(suite::Ctx &c)
  {
    for (int v = 0; v < 2; ++v)
    {
      Dom g = dom_of<B1>(base_shape(dom_of<B1>({{4, 4, 4}}), v));
      pair<O, B1, B2>(c, "mirror", g, unfolded(g), unfold(g)); if (c.enough()) return;
    }
  }
  template <class B1, class B2, long O> void poles(suite::Ctx &c)
  {
    for (int v = 0; v < 2; ++v)
    {
      Dom g = dom_of<B1>(base_shape(dom_of<B1>({{4, 4, 4}}), v));
      I3 n2 = g.n; n2[1] = 2 * n2[1] + 1;
      pair<O, B1, B2>(c, "poles", g, n2, across(g)); if (c.enough()) return;
    }
  }
  template <class B1, class B2, long O> void equal(suite::Ctx &c)
  {
    for (int v = 0; v < 2; ++v) { Dom g = dom_of<B1>(base_shape(dom_of<B1>({{4, 4, 4}}), v)); pair<O, B1, B2>(c, "equal", g, g.n, same()); if (c.enough()) return; }
  }
  template <class B, int p0, int p1, int p2> struct perm_bc { static constexpr int D = bcs_of<B>::D; using type = typename std::conditional<D == 2, sel<B, (2 * p0) % (2 * D), (2 * p0 + 1) % (2 * D), (2 * p1) % (2 * D), (2 * p1 + 1) % (2 * D)>, sel<B, (2 * p0) % (2 * D), (2 * p0 + 1) % (2 * D), (2 * p1) % (2 * D), (2 * p1 + 1) % (2 * D), (2 * p2) % (2 * D), (2 * p2 + 1) % (2 * D)>>::type::type; };
  template <class B, long O, int p0, int p1, int p2> void axes(suite::Ctx &c)
  {
    using B2 = typename perm_bc<B, p0, p1, p2>::type;
    for (int v = 0; v < 2; ++v) { Dom g = dom_of<B>(base_shape(dom_of<B>({{4, 4, 4}}), v)); I3 p{{p0, p1, p2}}; pair<O, B, B2>(c, "axes", g, permuted(g, p), permute(g, p)); if (c.enough()) return; }
  }
  // open ends: the domain is part of a larger one; what leaves does not come back, what enters has the value of the end cell
  template <int D, class B, long O> void window(suite::Ctx &c)
  {
    using K = Mpd<ctI<D, O>>;
    const int W = 3;
    auto sub = [&](const Dom &, I3) { Map m; m.name = "cut out of a larger domain"; m.pt = [=](I3 i) { for (int d = 0; d < D; ++d) i[d] += W; return i; }; m.ed = [=](int q, I3 e, int &q1, I3 &e1, double &sg) { q1 = q; e1 = e; for (int d = 0; d < D; ++d) e1[d] += W; sg = 1; return true; }; return m; };
    // one pass: any field
    {
      I3 n{{1, 1, 1}}, N{{1, 1, 1}}; for (int d = 0; d < D; ++d) { n[d] = D == 1 ? 6 : D == 2 ? 4 - d % 2 : 3; N[d] = n[d] + 2 * W; }
      Dom g = dom_of<B>(n), big = dom_of<B>(N);
      std::vector<V> F;
      auto f0 = D == 3 ? impulses(g, mixed<O>() ? -.5 : .25, 1, 2.5, c.thorough, 30, mixed<O>()) : all_fields(g, D == 1 ? std::vector<double>{mixed<O>() ? -1.5 : .5, 0, 1} : std::vector<double>{mixed<O>() ? -1. : 0, 1.5}, true);
      for (auto &f : f0) { V x(big.size()); big.each([&](I3 i) { I3 q = i; for (int d = 0; d < D; ++d) q[d] = std::min(std::max(i[d] - W, 0), n[d] - 1); x[big.at(i)] = f[g.at(q)]; }); F.push_back(x); }
      std::vector<Flw> fl; for (double u : {-.6, .35}) for (double v : {-.3, .25}) { if (D == 1 && v < 0) continue; for (double w : {.1, -.1}) { if (D < 3 && w < 0) continue; fl.push_back(uniform(big, {{u, v, w}})); } }
      compare<K, B, K, B>(c, "inflow:" + c.name, N, n, sub(g, n), F, fl, {1}, 1);
      // (several steps: what flows in along the ends would differ between the rows in 2D and 3D)
      if (D == 1) compare<K, B, K, B>(c, "inflow:" + c.name, N, n, sub(g, n), F, fl, {1}, 5);
    }
    // more passes: fields and flows that do not vary near the ends
    if (D < 3)
    {
      const int M = D == 1 ? 16 : 14, lo = D == 1 ? 6 : 6, hi = D == 1 ? 9 : 7;
      I3 n{{M, D > 1 ? M : 1, 1}}, N{{M + 2 * W, D > 1 ? M + 2 * W : 1, 1}};
      Dom big = dom_of<B>(N);
      std::vector<V> F;
      const std::vector<double> al = mixed<O>() ? std::vector<double>{-1, .5, 2} : std::vector<double>{0, .5, 2};
      for (int q = 0; q < 81; ++q) for (int bg = 0; bg < (D == 1 ? 3 : 1); ++bg) // (2D: uniform along all the ends; fluxes through an open end other than the first-pass ones are those of a non-divergent end cell)
      {
        V x(big.size());
        big.each([&](I3 i) {
          bool in = true; for (int d = 0; d < D; ++d) in = in && i[d] - W >= lo && i[d] - W <= hi;
          double v = bg == 0 ? .5 : bg == 1 ? (i[0] - W < lo ? 1 : .25) : (i[0] - W < lo ? .25 : 1);
          if (in) { int k = D == 1 ? i[0] - W - lo : (i[0] - W - lo) * 2 + i[1] - W - lo, r = q; while (k-- > 0) r /= 3; v = al[r % 3]; }
          x[big.at(i)] = v;
        });
        F.push_back(x);
      }
      std::vector<Flw> fl; for (double u : {-.6, .35}) { fl.push_back(uniform(big, {{u, .25, 0}})); if (D == 2) fl.push_back(uniform(big, {{u * .5, -.45, 0}})); }
      compare<K, B, K, B>(c, "window:" + c.name, N, n, sub(big, n), F, fl, isset(O, iga) ? std::vector<int>{2} : std::vector<int>{2, 3}, 1);
    }
  }
  template <class B> std::string bn() { return suite::fmt("%dD ", bcs_of<B>::D) + dom_of<B>({{4, 4, 4}}).name().substr(0, 0) + [] { std::string s; Dom g = dom_of<B>({{4, 4, 4}}); for (int d = 0; d < g.D; ++d) s += std::string(d ? " x " : "") + g.l[d] + g.r[d]; return s; }(); }
  int cost(int D) { return D * 10; }
  template <class B, long... O> struct Sides { Sides() { int d[] = {(suite::Reg("sides " + bn<B>() + " " + nm(O), cost(bcs_of<B>::D), sides<B, O>), 0)...}; (void)d; } };
  template <class B1, class B2, long... O> struct Walls { Walls() { int d[] = {(suite::Reg("mirror " + bn<B1>() + " " + nm(O), cost(bcs_of<B1>::D), walls<B1, B2, O>), 0)...}; (void)d; } };
  template <class B1, class B2, long... O> struct Poles { Poles() { int d[] = {(suite::Reg("poles " + bn<B1>() + " " + nm(O), cost(bcs_of<B1>::D), poles<B1, B2, O>), 0)...}; (void)d; } };
  template <class B1, class B2, long... O> struct Equal { Equal() { int d[] = {(suite::Reg("equal " + bn<B1>() + " " + bn<B2>() + " " + nm(O), cost(bcs_of<B1>::D), equal<B1, B2, O>), 0)...}; (void)d; } };
  template <class B, long... O> struct Windows { Windows() { int d[] = {(suite::Reg("window " + bn<B>() + " " + nm(O), cost(bcs_of<B>::D), window<bcs_of<B>::D, B, O>), 0)...}; (void)d; } };
  template <class B, int p0, int p1, int p2, long... O> struct Axes { Axes() { int d[] = {(suite::Reg(suite::fmt("axes %d%d%d ", p0, p1, p2) + bn<B>() + " " + nm(O), cost(bcs_of<B>::D), axes<B, O, p0, p1, p2>), 0)...}; (void)d; } };
}
#define D2 div_2nd
#define D3 (div_2nd | div_3rd)
using CO = BC<cyc, cyc, opn, opn>; using CR = BC<cyc, cyc, rgd, rgd>; using RC = BC<rgd, rgd, cyc, cyc>; using RO = BC<rgd, rgd, opn, opn>; using RM = BC<rgd, rgd, rgd, opn>; using CG = BC<cyc, cyc, gsk, gsk>; using CP = BC<cyc, cyc, pol, pol>; using RG = BC<rgd, rgd, gsk, gsk>;
using CCR = BC<cyc, cyc, cyc, cyc, rgd, rgd>; using RCC = BC<rgd, rgd, cyc, cyc, cyc, cyc>; using CRC = BC<cyc, cyc, rgd, rgd, cyc, cyc>; using CRO = BC<cyc, cyc, rgd, rgd, opn, opn>; using CCG = BC<cyc, cyc, cyc, cyc, gsk, gsk>; using CPR = BC<cyc, cyc, pol, pol, rgd, rgd>; using CPC = BC<cyc, cyc, pol, pol, cyc, cyc>; using CCO = BC<cyc, cyc, cyc, cyc, opn, opn>; using COR = BC<cyc, cyc, cyc, cyc, opn, rgd>;
#if PART == 0
static Sides<C1, 0, fct|nug, iga|fct, ABS|tot, D3|nug, dfl|nug> a0; static Sides<O1, 0, fct|nug, iga|fct, ABS|tot, D3|nug, dfl|nug, D3|fct> a1;
static Windows<O1, 0, fct, iga|fct, ABS|tot, D2, D3|fct, tot|fct> a2;
#elif PART == 1
static Sides<C2, 0, fct|nug, iga|fct, ABS|tot, D3|nug> a0; static Sides<O2, 0, fct|nug, iga|fct|tot, D3|nug> a1;
#elif PART == 2
static Windows<O2, 0, fct, iga|fct|tot, ABS|tot, D3|fct> a2; static Sides<CO, 0, fct|nug, D3|nug> a3; 
#elif PART == 3
static Sides<R2, 0, fct|nug, iga|fct, D3|nug, dfl> a0; static Sides<RM, 0, fct|nug, iga|tot> a1;
#elif PART == 4
static Walls<R2, C2, 0, nug, fct|nug, iga|fct, ABS|tot, D2|nug, D3|nug, D3|fct, tot|fct|nug> a0;
#elif PART == 5
static Walls<CR, C2, 0, fct|nug, D3> a0; static Walls<RC, C2, 0, fct|nug, D3> a1; static Walls<RO, CO, 0, fct> a2;
#elif PART == 6
static Equal<CG, CR, 0, fct|nug, iga|tot, D3|nug> a0; static Equal<RG, R2, 0, fct|nug> a1; static Sides<CG, 0, fct|nug, D3> a2;
#elif PART == 7
static Sides<CP, 0, fct|nug, iga|fct, D3|nug> a0; static Poles<CP, C2, 0, nug, fct|nug, iga|fct, ABS|tot, D2|nug, D3|nug, D3|fct> a1;
#elif PART == 8
static Axes<R2, 1, 0, 2, 0, fct|nug, iga|tot, D3|nug, dfl> a0; static Axes<CR, 1, 0, 2, 0, fct|nug, D3> a1; static Axes<CO, 1, 0, 2, 0> a2;
#elif PART == 9
static Sides<C3, nug, D3|fct> a0; static Sides<R3, 0, fct|nug> a1;
#elif PART == 10
static Sides<O3, 0, fct|nug> a0; static Windows<O3, 0, ABS> a1; static Sides<COR, 0, fct|nug> a3;
#elif PART == 11
static Walls<R3, C3, 0, fct|nug, D3|nug> a0;
#elif PART == 12
static Walls<CRC, C3, fct|nug> a2; static Walls<RCC, C3, fct> a3; static Walls<CRO, CCO, fct> a1; static Equal<CCG, CCR, fct|nug, 0> a4;
#elif PART == 13
static Poles<CPC, C3, 0, fct|nug, D3|nug> a0; static Sides<CPR, 0, fct|nug, D3> a1;
#elif PART == 14
static Axes<R3, 1, 2, 0, 0, fct|nug> a0; static Axes<CCR, 2, 0, 1, 0, fct|nug, D3> a1; 
#endif
