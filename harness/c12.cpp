// C12: solutions commute with reflections, permutations of the axes and embedding as a uniform slab.
#include "../mc/symk.hpp"
using namespace sym;
#ifndef PART
#define PART 0
#endif
namespace
{
  template <class T> void add(std::vector<T> &a, std::vector<T> b) { a.insert(a.end(), b.begin(), b.end()); }
  template <long O> bool mixed() { return isset(O, ABS) || isset(O, iga); }
  template <int D> I3 shape(int v) { return D == 1 ? I3{{v ? 7 : 6, 1, 1}} : D == 2 ? (v ? I3{{4, 6, 1}} : I3{{5, 4, 1}}) : (v ? I3{{4, 5, 4}} : I3{{4, 4, 5}}); }
  // ------------------------------------------------------------------ prescribed flow
  template <long O> std::vector<V> fields(const Dom &g, bool th)
  {
    std::vector<V> F;
    if (g.D == 1) F = all_fields(g, mixed<O>() ? std::vector<double>{-1.5, 0, 1} : std::vector<double>{0, 1, 2.5}, false);
    else if (th && g.distinct() <= 12) F = all_fields(g, mixed<O>() ? std::vector<double>{-1, 1.5} : std::vector<double>{0, 1}, true);
    add(F, impulses(g, mixed<O>() ? -.5 : .25, 1, 2.5, th && g.D < 3, th ? 30 : 10, mixed<O>()));
    return F;
  }
  template <long O> std::vector<Flw> flows(const Dom &g, bool th)
  {
    std::vector<Flw> r;
    if (g.D == 1) { for (double u : {-.6, .35}) r.push_back(uniform(g, {{u, 0, 0}})); if (isset(O, dfl) || !isset(O, fct)) { auto q = all_flows_1d(g, {-.4, .3}, false); for (size_t i = 0; i < q.size(); i += th ? 1 : 7) r.push_back(q[i]); } return r; }
    const double amp = g.D == 2 ? .4 : .25;
    for (int s = 1; s <= (th ? 8 : 2); ++s) r.push_back(potential(g, s, amp, {{g.cyc(0) && (s & 1) ? amp / 3 : 0, g.cyc(1) ? -amp / 3 : 0, g.cyc(2) && (s & 1) ? amp / 3 : 0}}));
    if (isset(O, dfl) || !isset(O, fct)) for (int s = 1; s <= (th ? 4 : 1); ++s) r.push_back(arbitrary(g, s, amp * .6, true));
    return r;
  }
  template <long O> std::vector<int> passes(bool th) { return isset(O, iga) ? std::vector<int>{2} : th ? std::vector<int>{2, 3, 1, 4} : isset(O, tot) || isset(O, div_2nd) ? std::vector<int>{2, 3} : std::vector<int>{2, 3}; }
  template <int D1, int D2, long O, int I> void pair(suite::Ctx &c, const char *key, const Dom &g, I3 n2, const Map &m)
  {
    using K1 = Mpd<ctI<D1, O, I>>; using K2 = Mpd<ctI<D2, O, I>>;
    auto F = fields<O>(g, c.thorough); auto W = flows<O>(g, c.thorough);
    if (D1 == 1 && !c.thorough) { std::vector<V> q; for (size_t i = 0; i < F.size(); i += D2 == 3 ? 4 : D2 == 2 ? 2 : 1) q.push_back(F[i]); F = q; }
    compare<K1, CY<D1>, K2, CY<D2>>(c, suite::fmt("%s:%s", key, c.name.c_str()), g.n, n2, m, F, W, passes<O>(c.thorough), 1);
    std::vector<V> f2(F.end() - std::min<size_t>(F.size(), 10), F.end());
    compare<K1, CY<D1>, K2, CY<D2>>(c, suite::fmt("%s:%s", key, c.name.c_str()), g.n, n2, m, f2, W, {2}, 3);
  }
  template <int D, long O, int I> void turn(suite::Ctx &c)
  {
    for (int v = 0; v < 2; ++v)
    {
      Dom g = dom_of<CY<D>>(shape<D>(v));
      for (int d = 0; d < D; ++d) { pair<D, D, O, I>(c, "reflected", g, g.n, reflect(g, d)); if (c.enough()) return; }
      if (D == 2) pair<D, D, O, I>(c, "axes", g, permuted(g, {{1, 0, 2}}), permute(g, {{1, 0, 2}}));
      if (D == 3) for (I3 p : {I3{{1, 2, 0}}, I3{{1, 0, 2}}, I3{{2, 0, 1}}, I3{{0, 2, 1}}, I3{{2, 1, 0}}}) { if (!c.thorough && p[0] != 1) continue; pair<D, D, O, I>(c, "axes", g, permuted(g, p), permute(g, p)); if (c.enough()) return; }
      if (c.enough()) return;
    }
  }
  // (without iga, div_2nd and div_3rd normalise by averages over stencils that are not the same in 1D, 2D and 3D: no slab there)
  template <int D1, int D2, long O, int I> void slab(suite::Ctx &c)
  {
    std::vector<I3> ps;
    if (D1 == 1 && D2 == 2) ps = {{{0, -1, -1}}, {{-1, 0, -1}}};
    if (D1 == 1 && D2 == 3) ps = {{{0, -1, -1}}, {{-1, 0, -1}}, {{-1, -1, 0}}};
    if (D1 == 2) ps = {{{0, 1, -1}}, {{0, -1, 1}}, {{-1, 0, 1}}, {{1, 0, -1}}, {{1, -1, 0}}, {{-1, 1, 0}}};
    if (D1 == 2 && !c.thorough) ps.resize(3);
    for (auto &p : ps) for (double w : {0., .2})
    {
      if (w != 0 && isset(O, fct)) continue; // (the limiter counts what flows in along the slab)
      Dom g = dom_of<CY<D1>>(shape<D1>(0)); I3 n2{{1, 1, 1}}; for (int d = 0; d < D2; ++d) n2[d] = p[d] >= 0 ? g.n[p[d]] : 4;
      Map m = embed(p, {{w, -w, w}}); if (w != 0) m.name += " with flow along it";
      pair<D1, D2, O, I>(c, "slab", g, n2, m); if (c.enough()) return;
    }
  }
  // ------------------------------------------------------------------ all other kinds
  // start states: irregular ones and single deviations
  enum What { scalars, flowing, still, bouss, shallow };
  std::vector<State> starts(const Dom &g, int nv, int ne, What w, bool th, const std::vector<std::string> &arrs = {})
  {
    std::vector<State> r; const double lo = .75;
    auto base = [&](int s) {
      State a; a.g = g; a.name = suite::fmt("state #%d", s); a.G = density(g, lo); a.dx[0] = 1; a.dx[1] = g.D == 3 ? 1.25 : .75; a.dx[2] = .75; a.dt = w == bouss ? .1 : .4;
      if (w == scalars) a.flow = potential(g, 3 + s, g.D == 1 ? .2 : .3, {{.2, -.1, .15}});
      for (int e = 0; e < ne; ++e)
      {
        V v(g.size());
        g.each([&](I3 i0) {
          I3 i = g.rep(i0); double x = u01(e + 7 * s, i[0] + 3, i[1] + 5, i[2] + 7);
          v[g.at(i0)] = w == scalars ? x * 2 - .5 : e < nv ? (w == flowing ? .6 * x - .2 + .1 * (s & 1) : w == shallow ? .3 * (x - .5) : .8 * (x - .5)) : w == bouss ? 300 + x : w == shallow ? .7 + .6 * x : 1 + x;
        });
        a.f.push_back(v);
      }
      for (auto &n : arrs) { V v(g.size()); g.each([&](I3 i0) { I3 i = g.rep(i0); double x = u01(n.size() + n.back() + s, i[0], i[1], i[2]); v[g.at(i0)] = n == "tht_e" ? 300 + .2 * x : n == "tht_abs" ? .2 * x : n == "vab_coeff" ? .5 * x : n.compare(0, 7, "mix_len") == 0 ? .5 + .2 * x : n == "hflux_frc" ? .1 * x : .4 * (x - .5); }); a.arr[n] = v; }
      return a;
    };
    for (int s = 0; s < (th ? 40 : 6); ++s) r.push_back(base(s));
    // a single component at a single point deviates, either way
    State u = base(100); for (int e = 0; e < ne; ++e) for (auto &x : u.f[e]) x = w == scalars ? 1 : e < nv ? (w == flowing ? .1 : 0) : w == bouss ? 300 : 1;
    if (w == bouss) for (auto &q : u.arr) if (q.first == "tht_e") for (auto &x : q.second) x = 300;
    int m = 0; g.each([&](I3 i) {
      if (g.dup(i)) return;
      for (int e = 0; e < ne; ++e) { ++m; if (!th && g.D == 3 && m % 5) continue; for (double del : {.3, -.3}) { State a = u; a.name = suite::fmt("deviation %g of %d at (%d %d %d)", del, e, i[0], i[1], i[2]); g.each([&](I3 k) { if (g.rep(k) == i) a.f[e][g.at(k)] += del; }); r.push_back(a); } }
    });
    return r;
  }
  template <class K, class B1, class B2> void over(suite::Ctx &c, const char *key, const std::vector<State> &S, I3 n2, const Map &m, EqMap q, double tol, std::vector<int> steps = {1, 3})
  {
    for (auto &s : S) { for (int k : steps) comparek<K, B1, K, B2>(c, suite::fmt("%s:%s", key, c.name.c_str()), s, n2, m, q, k, tol); if (c.enough()) return; }
  }
  template <class K, class B, int d, bool on = (d < bcs_of<B>::D)> struct Refl { static void go(suite::Ctx &c, const std::vector<State> &S, EqMap q, double tol) { const Dom &g = S[0].g; over<K, B, typename flip<B, d>::type>(c, "reflected", S, g.n, reflect(g, d), q, tol); } };
  template <class K, class B, int d> struct Refl<K, B, d, false> { static void go(suite::Ctx &, const std::vector<State> &, EqMap, double) {} };
  template <class B, int p0, int p1, int p2> struct perm_bc { static constexpr int D = bcs_of<B>::D; using type = typename std::conditional<D == 2, sel<B, (2 * p0) % (2 * D), (2 * p0 + 1) % (2 * D), (2 * p1) % (2 * D), (2 * p1 + 1) % (2 * D)>, sel<B, (2 * p0) % (2 * D), (2 * p0 + 1) % (2 * D), (2 * p1) % (2 * D), (2 * p1 + 1) % (2 * D), (2 * p2) % (2 * D), (2 * p2 + 1) % (2 * D)>>::type::type; };
  std::vector<std::string> none;
  // reflections along the first r directions (r: bit mask)
  template <class K, class B> void mirror(suite::Ctx &c, int nv, What w, int mask, double tol, std::vector<std::string> arrs = none, int it = 2)
  {
    constexpr int D = K::ct::n_dims;
    for (int v = 0; v < 2; ++v)
    {
      Dom g = dom_of<B>(shape<D>(v)); EqMap q; q.nv1 = q.nv2 = nv; auto S = starts(g, nv, K::ct::n_eqns, w, c.thorough, arrs); for (auto &s : S) s.iters = it;
      if (mask & 1) Refl<K, B, 0>::go(c, S, q, tol); if (c.enough()) return;
      if (mask & 2) Refl<K, B, 1>::go(c, S, q, tol); if (c.enough()) return;
      if (mask & 4) Refl<K, B, 2>::go(c, S, q, tol); if (c.enough()) return;
    }
  }
  template <class K, class B, int p0, int p1, int p2> void axes(suite::Ctx &c, int nv, What w, double tol, std::vector<std::string> arrs = none, int it = 2)
  {
    constexpr int D = K::ct::n_dims; I3 p{{p0, p1, p2}};
    for (int v = 0; v < 2; ++v) { Dom g = dom_of<B>(shape<D>(v)); EqMap q; q.nv1 = q.nv2 = nv; auto S = starts(g, nv, K::ct::n_eqns, w, c.thorough, arrs); for (auto &s : S) s.iters = it; over<K, B, typename perm_bc<B, p0, p1, p2>::type>(c, "axes", S, permuted(g, p), permute(g, p), q, tol); if (c.enough()) return; }
  }
  template <class K1, class B1, class K2, class B2> void flat(suite::Ctx &c, int nv1, int nv2, What w, std::vector<I3> ps, double wind, double tol, std::vector<std::string> arrs = none, int it = 2)
  {
    constexpr int D1 = K1::ct::n_dims, D2 = K2::ct::n_dims;
    for (auto &p : ps)
    {
      Dom g = dom_of<B1>(shape<D1>(0)); I3 n2{{1, 1, 1}}; for (int d = 0; d < D2; ++d) n2[d] = p[d] >= 0 ? g.n[p[d]] : 4;
      EqMap q; q.nv1 = nv1; q.nv2 = nv2; auto S = starts(g, nv1, K1::ct::n_eqns, w, c.thorough, arrs); for (auto &s : S) s.iters = it;
      for (auto &s : S) { for (int k : {1, 3}) comparek<K1, B1, K2, B2>(c, "slab:" + c.name, s, n2, embed(p, {{wind, wind, wind}}), q, k, tol); if (c.enough()) return; }
    }
  }
  template <int D, long... O> struct Turn { Turn() { int d[] = {(suite::Reg(suite::fmt("turn %dD ", D) + nm(O), D * D * 4, turn<D, O, 0>), 0)...}; (void)d; } };
  template <int D1, int D2, long... O> struct Slab { Slab() { int d[] = {(suite::Reg(suite::fmt("slab %dD as %dD ", D1, D2) + nm(O), D2 * D2 * 4, slab<D1, D2, O, 0>), 0)...}; (void)d; } };
  const double TA = 1e-12, TP = 1e-7; // plain arithmetic; with an iterative pressure solver (its tolerance 1e-11)
  const std::vector<I3> p12{{{0, -1, -1}}, {{-1, 0, -1}}}, p13{{{0, -1, -1}}, {{-1, 0, -1}}, {{-1, -1, 0}}}, p23{{{0, 1, -1}}, {{0, -1, 1}}, {{-1, 0, 1}}}, vert{{{0, -1, 1}}, {{-1, 0, 1}}};
}
#define D2 div_2nd
#define D3 (div_2nd | div_3rd)
#define T3 (div_2nd | div_3rd_dt)
#define GO(name, cost, ...) CASE(name, cost, [](suite::Ctx &c) { __VA_ARGS__; })
#define P(...) __VA_ARGS__
#define TZ (int)solvers::trapez
using CR = BC<cyc, cyc, rgd, rgd>; using CCR = BC<cyc, cyc, cyc, cyc, rgd, rgd>; using CCG = BC<cyc, cyc, cyc, cyc, gsk, gsk>; using CG = BC<cyc, cyc, gsk, gsk>;
#if PART == 0
static Turn<1, 0, fct, iga|fct, ABS|tot, nug|fct, dfl|nug, D2, D3|nug, D3|fct|nug, khn|iga, tot|fct, iga|tot|fct> a0;
#elif PART == 1
static Turn<2, nug, fct|ABS|nug, iga|nug, ABS|tot, dfl|fct|nug, pfc|fct, tot|nug> a0;
#elif PART == 2
static Turn<2, D2|nug, D3|nug, D3|ABS|fct, iga|tot|fot|nug, iga|D3|fot, T3|nug, khn|ABS|npa> a0;
#elif PART == 3
static Turn<3, nug, fct|ABS|nug, iga|tot|fct> a0;
#elif PART == 4
static Turn<3, D2|nug, D3|nug, T3|fct> a0;
#elif PART == 5
static Turn<3, ABS|tot|nug, dfl|nug> a0;
#elif PART == 6
static Slab<1, 2, nug, fct|ABS, iga|fct|nug, tot|nug, dfl|nug, iga|D2|nug, iga|D3|nug, iga|D3|fct> a0;
#elif PART == 7
static Slab<1, 3, nug, fct|ABS, iga|tot|nug, dfl|nug, iga|D3|nug> a0;
#elif PART == 8
static Slab<2, 3, nug, fct|ABS|nug, iga|tot|fct> a0;
#elif PART == 9
static Slab<2, 3, iga|D2|nug, iga|D3|nug, dfl|nug, iga|T3> a0;
#elif PART == 10
GO("rhs mirror 1D", 5, mirror<P(Rhs<ctRhs<1, TZ, iga | fct>>), C1>(c, 0, scalars, 1, TA));
GO("rhs mirror 2D", 8, mirror<P(Rhs<ctRhs<2, TZ, ABS | fct>>), C2>(c, 0, scalars, 3, TA));
GO("rhs slab 1D as 2D", 8, flat<P(Rhs<ctRhs<1, TZ, ABS | fct>>), C1, P(Rhs<ctRhs<2, TZ, ABS | fct>>), C2>(c, 0, 0, scalars, p12, 0, TA));
GO("rhs slab 2D as 3D", 12, flat<P(Rhs<ctRhs<2, (int)solvers::euler_a, ABS>>), C2, P(Rhs<ctRhs<3, (int)solvers::euler_a, ABS>>), C3>(c, 0, 0, scalars, p23, .2, TA));
GO("vip mirror 1D", 5, mirror<P(Vip<ctVip<1, TZ, iga | fct>>), C1>(c, 1, flowing, 1, TA));
GO("vip mirror 2D", 8, mirror<P(Vip<ctVip<2, TZ, iga | fct>>), C2>(c, 2, flowing, 3, TA));
GO("vip mirror 2D div_3rd", 8, mirror<P(Vip<ctVip<2, TZ, ABS | D3>>), C2>(c, 2, flowing, 3, TA));
GO("vip mirror 2D div_3rd_dt", 8, mirror<P(Vip<ctVip<2, TZ, ABS | T3 | nug>>), C2>(c, 2, flowing, 3, TA));
GO("vip axes 2D impl absorber", 8, axes<P(Vip<ctVip<2, TZ, ABS | nug, (int)solvers::impl>>), C2, 1, 0, 2>(c, 2, flowing, TA, {"vab_coeff", "vab_relax0", "vab_relax1"}));
GO("vip mirror 2D expl absorber", 8, mirror<P(Vip<ctVip<2, TZ, ABS | nug, (int)solvers::expl>>), C2>(c, 2, flowing, 3, TA, {"vab_coeff", "vab_relax0", "vab_relax1"}));
GO("vip axes 2D div_3rd_dt", 8, axes<P(Vip<ctVip<2, TZ, ABS | T3>>), C2, 1, 0, 2>(c, 2, flowing, TA));
#elif PART == 11
GO("vip slab 1D as 2D", 8, flat<P(Vip<ctVip<1, TZ, ABS>>), C1, P(Vip<ctVip<2, TZ, ABS>>), C2>(c, 1, 2, flowing, p12, 0, TA));
GO("vip slab 1D as 2D div_3rd", 8, flat<P(Vip<ctVip<1, TZ, iga | D3>>), C1, P(Vip<ctVip<2, TZ, iga | D3>>), C2>(c, 1, 2, flowing, p12, 0, TA));
GO("vip slab 2D as 3D", 14, flat<P(Vip<ctVip<2, TZ, ABS | nug>>), C2, P(Vip<ctVip<3, TZ, ABS | nug>>), C3>(c, 2, 3, flowing, p23, 0, TA));
GO("vip slab 2D as 3D div_3rd_dt", 14, flat<P(Vip<ctVip<2, TZ, iga | T3>>), C2, P(Vip<ctVip<3, TZ, iga | T3>>), C3>(c, 2, 3, flowing, p23, 0, TA));
GO("vip slab 2D as 3D div_3rd", 14, flat<P(Vip<ctVip<2, TZ, iga | D3>>), C2, P(Vip<ctVip<3, TZ, iga | D3>>), C3>(c, 2, 3, flowing, p23, 0, TA));
GO("vip slab 2D as 3D absorber", 14, flat<P(Vip<ctVip<2, TZ, ABS, (int)solvers::impl>>), C2, P(Vip<ctVip<3, TZ, ABS, (int)solvers::impl>>), C3>(c, 2, 3, flowing, p23, 0, TA, {"vab_coeff", "vab_relax0", "vab_relax1"}));
GO("vip mirror 3D", 14, mirror<P(Vip<ctVip<3, TZ, iga | fct>>), C3>(c, 3, flowing, 7, TA));
GO("vip axes 3D expl absorber", 14, axes<P(Vip<ctVip<3, TZ, ABS | nug, (int)solvers::expl>>), C3, 1, 2, 0>(c, 3, flowing, TA, {"vab_coeff", "vab_relax0", "vab_relax1", "vab_relax2"}));
#elif PART == 12
GO("prs mirror 2D cr", 10, mirror<P(Prs<ctPrs<2, (int)solvers::cr, iga | fct>>), CR>(c, 2, still, 3, TP));
GO("prs mirror 2D mr", 10, mirror<P(Prs<ctPrs<2, (int)solvers::mr, iga>>), R2>(c, 2, still, 3, TP));
GO("prs axes 2D gcrk", 10, axes<P(Prs<ctPrs<2, (int)solvers::gcrk, iga | nug>>), CR, 1, 0, 2>(c, 2, still, TP));
GO("prs axes 2D pc", 10, axes<P(Prs<ctPrs<2, (int)solvers::pc, iga | fct>>), CR, 1, 0, 2>(c, 2, still, TP));
GO("prs mirror 2D pc absorber", 10, mirror<P(Prs<ctPrs<2, (int)solvers::pc, iga, (int)solvers::impl>>), CR>(c, 2, still, 3, TP, {"vab_coeff", "vab_relax0", "vab_relax1"}));
#elif PART == 13
GO("prs slab 2D as 3D cr", 16, flat<P(Prs<ctPrs<2, (int)solvers::cr, ABS>>), CR, P(Prs<ctPrs<3, (int)solvers::cr, ABS>>), CCR>(c, 2, 3, still, vert, 0, TP));
GO("prs mirror 3D cr", 16, mirror<P(Prs<ctPrs<3, (int)solvers::cr, iga>>), CCR>(c, 3, still, 7, TP));
GO("prs axes 3D cr", 16, axes<P(Prs<ctPrs<3, (int)solvers::cr, iga>>), CCR, 1, 2, 0>(c, 3, still, TP));
#elif PART == 14
GO("shallow water mirror 1D", 6, mirror<P(Shw<ctShw<1, ABS | fct>>), C1>(c, 1, shallow, 1, TA));
GO("shallow water mirror 2D", 8, mirror<P(Shw<ctShw<2, ABS | fct>>), C2>(c, 2, shallow, 3, TA));
GO("shallow water axes 2D", 8, axes<P(Shw<ctShw<2, iga | fct>>), C2, 1, 0, 2>(c, 2, shallow, TA));
GO("shallow water slab 1D as 2D", 8, flat<P(Shw<ctShw<1, ABS>>), C1, P(Shw<ctShw<2, ABS>>), C2>(c, 1, 2, shallow, p12, 0, TA));
GO("boussinesq mirror 2D expl", 10, mirror<P(Bou<ctBou<2, false, iga | fct>>), CR>(c, 2, bouss, 1, TP, {"tht_e", "tht_abs", "hflux_frc"}));
GO("boussinesq mirror 2D impl", 10, mirror<P(Bou<ctBou<2, true, iga, 0, 0, (int)solvers::impl>>), CR>(c, 2, bouss, 1, TP, {"tht_e", "tht_abs", "hflux_frc", "vab_coeff", "vab_relax0", "vab_relax1"}));
#elif PART == 15
GO("boussinesq slab 2D as 3D expl", 16, flat<P(Bou<ctBou<2, false, iga>>), CR, P(Bou<ctBou<3, false, iga>>), CCR>(c, 2, 3, bouss, vert, 0, TP, {"tht_e", "tht_abs", "hflux_frc"}));
GO("boussinesq axes 3D impl", 16, axes<P(Bou<ctBou<3, true, iga>>), CCR, 1, 0, 2>(c, 3, bouss, TP, {"tht_e", "tht_abs", "hflux_frc"}));
GO("boussinesq mirror 3D impl", 16, mirror<P(Bou<ctBou<3, true, iga | fct>>), CCR>(c, 3, bouss, 3, TP, {"tht_e", "tht_abs", "hflux_frc"}));
#endif
