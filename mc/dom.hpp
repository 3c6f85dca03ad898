// Small domains with any boundary conditions: enumeration of fields and flows on them, and runs of the real solver.
#pragma once
#include "suite.hpp"
#include "cases.hpp"

namespace dom
{
  using namespace cases;
  using namespace libmpdataxx::opts;
  template <int D, long O, int INTRP = 0> struct ctI : CT<D, 1, O> { enum { sptl_intrp = INTRP }; };

  template <class B> struct bcs_of;
  template <bcond::bcond_e... b> struct bcs_of<BC<b...>> { static constexpr int D = sizeof...(b) / 2; static bcond::bcond_e at(int q) { bcond::bcond_e a[] = {b...}; return a[q]; } };
  inline char ch(bcond::bcond_e b) { return b == cyc ? 'c' : b == opn ? 'o' : b == rgd ? 'r' : b == pol ? 'p' : 'g'; }

  struct Dom
  {
    int D; I3 n{{1, 1, 1}}; char l[3] = {'-', '-', '-'}, r[3] = {'-', '-', '-'};
    static bool wall(char c) { return c == 'r' || c == 'g'; }
    int size() const { return n[0] * n[1] * n[2]; }
    int at(I3 i) const { return (i[0] * n[1] + i[1]) * n[2] + i[2]; }
    bool cyc(int d) const { return l[d] == 'c'; }
    bool dup(I3 i) const { for (int d = 0; d < D; ++d) if (cyc(d) && i[d] == n[d] - 1) return true; return false; }
    int distinct() const { int q = 1; for (int d = 0; d < D; ++d) q *= cyc(d) ? n[d] - 1 : n[d]; return q; }
    I3 rep(I3 i) const { for (int d = 0; d < D; ++d) if (cyc(d)) i[d] = cy(i[d], n[d]); return i; } // the point that stands for i
    double weight(I3 i) const
    {
      double w = 1;
      for (int d = 0; d < D; ++d) { if (cyc(d) && i[d] == n[d] - 1) w = 0; if ((wall(l[d]) && i[d] == 0) || (wall(r[d]) && i[d] == n[d] - 1)) w /= 2; }
      return w;
    }
    // edges of direction d: first (left) index -1 .. n-1; edge e is the one to the right of point e
    int esize(int d) const { return size() / n[d] * (n[d] + 1); }
    int eat(int d, I3 e) const { I3 m = n; m[d]++; e[d]++; return (e[0] * m[1] + e[1]) * m[2] + e[2]; }
    I3 erep(int d, I3 e) const { return rep(e); }
    template <class F> void each(F f) const { I3 i; for (i[0] = 0; i[0] < n[0]; ++i[0]) for (i[1] = 0; i[1] < n[1]; ++i[1]) for (i[2] = 0; i[2] < n[2]; ++i[2]) f(i); }
    template <class F> void edges(int d, F f) const { I3 i, lo{{0, 0, 0}}; lo[d] = -1; for (i[0] = lo[0]; i[0] < n[0]; ++i[0]) for (i[1] = lo[1]; i[1] < n[1]; ++i[1]) for (i[2] = lo[2]; i[2] < n[2]; ++i[2]) f(i); }
    std::string name() const { std::string s; for (int d = 0; d < D; ++d) { if (d) s += " x "; s += suite::fmt("%d:%c%c", n[d], l[d], r[d]); } return s; }
  };
  template <class B> Dom dom_of(I3 n)
  {
    Dom g; g.D = bcs_of<B>::D; g.n = n;
    for (int d = 0; d < g.D; ++d) { g.l[d] = ch(bcs_of<B>::at(2 * d)); g.r[d] = ch(bcs_of<B>::at(2 * d + 1)); }
    return g;
  }
  struct Flw { std::string name; V c[3]; bool divergent = false, closed = true; };

  // ------------------------------------------------------------------ potentials
  // value at a half-way position of a potential, reduced to a representative by the symmetries of the boundaries; 0 if none
  struct Pot
  {
    const Dom &g; int seed; double amp;
    // half[d]: the index denotes the position index + 1/2 in direction d
    double operator()(int c, I3 i, const bool *half) const
    {
      double s = 1;
      for (int d = 0; d < g.D; ++d)
      {
        int n = g.n[d];
        if (g.cyc(d)) { i[d] = cy(i[d], n); continue; }
        if (half[d])
        {
          if (i[d] < 0) { if (Dom::wall(g.l[d])) { i[d] = -1 - i[d]; s = -s; } else return 0; }
          if (i[d] > n - 2) { if (Dom::wall(g.r[d])) { i[d] = 2 * (n - 1) - 1 - i[d]; s = -s; } else return 0; }
        }
        else { if (i[d] < 0) i[d] = -i[d]; if (i[d] > n - 1) i[d] = 2 * (n - 1) - i[d]; }
      }
      return s * amp * (u01(c + 11 * seed, i[0] + 50, i[1] + 50, i[2] + 50) - .5);
    }
  };
  // closed, non-divergent flow
  inline Flw potential(const Dom &g, int seed, double amp, std::array<double, 3> base = {{0, 0, 0}})
  {
    Flw f; f.name = suite::fmt("from potential #%d", seed);
    Pot p{g, seed, amp};
    for (int d = 0; d < g.D; ++d)
    {
      f.c[d].assign(g.esize(d), 0.);
      if (base[d] != 0) f.closed = f.closed && g.cyc(d);
      g.edges(d, [&](I3 e) {
        double v = base[d];
        auto lo = [](I3 i, int q) { --i[q]; return i; };
        if (g.D == 2) { bool h[3] = {true, true, false}; int o = 1 - d; v += (d == 0 ? 1 : -1) * (p(0, e, h) - p(0, lo(e, o), h)); }
        if (g.D == 3) for (int s = 1; s <= 2; ++s)
        { // component c of the potential: at edges along c
          int o = (d + s) % 3, c = 3 - d - o; bool h[3]; for (int q = 0; q < 3; ++q) h[q] = q != c;
          v += (s == 1 ? 1 : -1) * (p(c, e, h) - p(c, lo(e, o), h));
        }
        f.c[d][g.eat(d, e)] = v;
      });
    }
    return f;
  }
  // any Courant numbers at all on the interior edges; 'safe' keeps the cells next to open boundaries free of divergence
  inline Flw arbitrary(const Dom &g, int seed, double amp, bool safe)
  {
    Flw f; f.name = suite::fmt("arbitrary #%d", seed); f.divergent = true; f.closed = safe;
    if (safe) { f = potential(g, seed, amp / 2); f.name = suite::fmt("arbitrary closed #%d", seed); f.divergent = true; amp /= 2; }
    else for (int d = 0; d < g.D; ++d) f.c[d].assign(g.esize(d), 0.);
    for (int d = 0; d < g.D; ++d) g.edges(d, [&](I3 e0) {
      I3 e = g.rep(e0); if (g.cyc(d)) e[d] = cy(e0[d], g.n[d]); // (the same edge)
      if (safe) for (int q = 0; q < g.D; ++q)
      {
        int hi = q == d ? g.n[q] - 2 : g.n[q] - 1; // an interior edge touches points e[q] and, along d, e[q]+1
        if ((g.l[q] == 'o' || g.l[q] == 'p') && e[q] <= 0) return;
        if ((g.r[q] == 'o' || g.r[q] == 'p') && e[q] >= hi) return;
      }
      double v = amp * (.25 + .75 * u01(e[0] + 17 * seed, e[1] + 9, e[2] + 9, 31 + d));
      if (hsh(e[0] + 9, e[1] + 100 * seed, e[2] + 9, 47 + d) & 1) v = -v;
      if (seed % 3 == 0 && hsh(e[0] + 9, e[1] + 9, e[2] + 100 * seed, d) % 4 == 0) v = 0;
      f.c[d][g.eat(d, e0)] += v;
    });
    return f;
  }
  inline Flw uniform(const Dom &g, std::array<double, 3> u)
  {
    Flw f; f.name = suite::fmt("uniform (%g %g %g)", u[0], u[1], u[2]);
    for (int d = 0; d < g.D; ++d) { f.c[d].assign(g.esize(d), u[d]); if (u[d] != 0 && !g.cyc(d)) f.closed = false; }
    return f;
  }
  // 1D: every assignment of the given Courant numbers to the edges
  inline std::vector<Flw> all_flows_1d(const Dom &g, const std::vector<double> &alpha, bool closed)
  {
    std::vector<Flw> r; int m = g.n[0] - 1; int lo = 0, hi = m; if (closed && !g.cyc(0)) { lo = 1; hi = m - 1; }
    uint64_t tot = 1; for (int i = lo; i < hi; ++i) tot *= alpha.size();
    for (uint64_t q = 0; q < tot; ++q)
    {
      Flw f; f.name = suite::fmt("pattern #%d", (int)q); f.divergent = true; f.closed = closed || g.cyc(0); V v(m, 0.); uint64_t x = q;
      for (int i = lo; i < hi; ++i) { v[i] = alpha[x % alpha.size()]; x /= alpha.size(); }
      f.c[0].assign(g.esize(0), 0.);
      g.edges(0, [&](I3 e) { int k = g.cyc(0) ? cy(e[0], g.n[0]) : std::min(std::max(e[0], 0), m - 1); f.c[0][g.eat(0, e)] = v[k]; });
      r.push_back(f);
    }
    return r;
  }

  // ------------------------------------------------------------------ fields
  inline V spread(const Dom &g, const V &d) // values of the distinct points -> all points
  {
    V f(g.size()); std::vector<int> idx(g.size(), -1); int k = 0;
    g.each([&](I3 i) { if (!g.dup(i)) idx[g.at(i)] = k++; });
    g.each([&](I3 i) { f[g.at(i)] = d[idx[g.at(g.rep(i))]]; });
    return f;
  }
  inline std::vector<V> all_fields(const Dom &g, const std::vector<double> &alpha, bool generic)
  {
    std::vector<V> r; int m = g.distinct(); uint64_t tot = 1; for (int i = 0; i < m; ++i) tot *= alpha.size();
    for (uint64_t q = 0; q < tot; ++q) { V d(m); uint64_t x = q; for (int i = 0; i < m; ++i) { d[i] = alpha[x % alpha.size()] * (generic ? 1 + .5 * u01(i, 3, 5, 7) : 1); x /= alpha.size(); } r.push_back(spread(g, d)); }
    return r;
  }
  // a uniform background with one or two deviating points, every placement; and irregular fields
  inline std::vector<V> impulses(const Dom &g, double bg, double a, double b, bool pairs, int rnd, bool sgn)
  {
    std::vector<V> r; int m = g.distinct(); r.push_back(spread(g, V(m, bg + 1)));
    for (int i = 0; i < m; ++i) for (int j = i; j < (pairs ? m : i + 1); ++j) { V d(m, bg); d[i] = a; if (j != i) d[j] = b; r.push_back(spread(g, d)); }
    for (int s = 0; s < rnd; ++s) { V d(m); for (int i = 0; i < m; ++i) { d[i] = u01(s, i, 5, 3) * 2; if (sgn && (hsh(i, s, 8, 1) & 1)) d[i] = -d[i]; if (!sgn && s % 4 == 1 && hsh(i, s, 4, 4) % 3 == 0) d[i] = 0; } r.push_back(spread(g, d)); }
    return r;
  }
  inline V density(const Dom &g, double lo = .75) { V G(g.size()); g.each([&](I3 i) { I3 q = g.rep(i); G[g.at(i)] = lo + u01(q[0], q[1], q[2], 99); }); return G; }

  // ------------------------------------------------------------------ the real solver
  struct Out { V psi; };
  template <class K, class B> Out run(const Dom &g, const V &psi, const Flw &f, const V &G, int iters, int steps, int filter = 0)
  {
    enum { D = K::ct::n_dims };
    using run_t = typename bind_bc<concurr::serial, typename K::base_t, B>::type;
    Setup s; s.D = D; s.n = g.n; s.iters = iters;
    auto p = make_params<K>(s); p.upwind_filter_freq = filter; p.max_abs_div_eps = 1e9;
    run_t r(p);
    fill(r.advectee(), [&](int i, int j, int k) { return psi[g.at({i, j, k})]; });
    for (int d = 0; d < D; ++d) fill(r.advector(d), [&](int i, int j, int k) { return f.c[d][g.eat(d, {i, j, k})]; });
    if (isset(K::ct::opts, nug)) fill(r.g_factor(), [&](int i, int j, int k) { return G[g.at({i, j, k})]; });
    r.advance(steps);
    Out o; o.psi = read(r.advectee());
    return o;
  }
  inline std::string nm(long o)
  {
    std::string r;
    for (auto &x : {std::pair<long, const char *>{fct, "fct"}, {ABS, "abs"}, {tot, "tot"}, {pfc, "pfc"}, {npa, "npa"}, {iga, "iga"}, {nug, "nug"}, {dfl, "dfl"}, {khn, "khn"}, {div_2nd, "div_2nd"}, {div_3rd, "div_3rd"}, {div_3rd_dt, "div_3rd_dt"}, {fot, "fot"}})
      if (o & x.first) r += (r.empty() ? "" : "|") + std::string(x.second);
    return r.empty() ? "basic" : r;
  }
  inline double maxabs(const V &v) { double m = 0; for (double x : v) m = std::max(m, std::fabs(x)); return m; }
}
