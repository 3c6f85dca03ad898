// C10: a step equals an independent cell-by-cell evaluation of the documented scheme.
// Every field and flow of a finite set is advected by the real solver and by mc/refmpdata.hpp.
#include "../mc/suite.hpp"
#include "../mc/cases.hpp"
#include "../mc/refmpdata.hpp"
#include "../mc/fill.hpp"
#include <memory>
using namespace cases;
using namespace libmpdataxx::opts;
#ifndef PART
#define PART 0
#endif

namespace
{
  template <long O, int INTRP = 0, int TMPRL = 0> struct OptSet { static constexpr long o = O; };
  template <int D, long O, int INTRP> struct ctI : CT<D, 1, O> { enum { sptl_intrp = INTRP }; };
  template <long O> ref::Opt ropt(int intrp)
  {
    ref::Opt o;
    o.fct = isset(O, fct); o.abs = isset(O, ABS); o.tot = isset(O, tot); o.iga = isset(O, iga); o.nug = isset(O, nug); o.dfl = isset(O, dfl);
    o.div2 = isset(O, div_2nd); o.div3 = isset(O, div_3rd); o.div3dt = isset(O, div_3rd_dt); o.fot = isset(O, fot); o.intrp = intrp;
    return o;
  }
  struct Flw { std::string name; ref::Flow f; bool divergent; };
  struct In { ref::Grid g; V G; std::vector<V> fields; std::vector<Flw> flows; };

  template <class K> V real_run(const In &in, const V &psi, const ref::Flow &f, int iters, int steps, int filter)
  {
    enum { D = K::ct::n_dims };
    using run_t = typename bind_bc<concurr::serial, typename K::base_t, CY<D>>::type;
    Setup s; s.D = D; for (int d = 0; d < D; ++d) s.n[d] = in.g.P[d] + 1; s.iters = iters;
    auto p = make_params<K>(s); p.upwind_filter_freq = filter; p.max_abs_div_eps = 1e9;
    run_t run(p);
    fill(run.advectee(), [&](int i, int j, int k) { return psi[in.g.at({i, j, k})]; });
    for (int d = 0; d < D; ++d) fill(run.advector(d), [&](int i, int j, int k) { return f.c[d][in.g.at({i, j, k})]; });
    if (isset(K::ct::opts, nug)) fill(run.g_factor(), [&](int i, int j, int k) { return in.G[in.g.at({i, j, k})]; });
    run.advance(steps);
    V out(in.g.size());
    auto a = run.advectee();
    const auto b = read(a);
    // the whole field, its repeated points included
    size_t q = 0;
    I3 n = s.n; bool same = true;
    for (int i = 0; i < n[0]; ++i) for (int j = 0; j < n[1]; ++j) for (int k = 0; k < n[2]; ++k, ++q)
    {
      int at = in.g.at({i, j, k});
      if (i < in.g.P[0] && (D < 2 || j < in.g.P[1]) && (D < 3 || k < in.g.P[2])) out[at] = b[q];
      else if (!(b[q] == out[at] || (std::isnan(b[q]) && std::isnan(out[at])))) same = false;
    }
    if (!same) out.push_back(NAN); // first and last point of a direction are the same one
    return out;
  }

  template <class K> void compare(suite::Ctx &c, const In &in, ref::Opt o, int steps, const std::vector<int> &iters, int filter = 0)
  {
    const bool flt = sizeof(typename K::ct::real_t) == 4;
    const double rel = flt ? 3e-5 : 1e-11, nz = flt ? 1e-6 : 1e-15;
    for (int it : iters) for (auto &fl : in.flows)
    {
      if (!c.item(suite::fmt("%d passes, %d steps, flow %s", it, steps, fl.name.c_str()))) continue;
      o.iters = it; o.filter = filter;
      for (auto &psi : in.fields)
      {
        fill_::on_new = 0xff; // what is not initialised reads as not-a-number
        V r = real_run<K>(in, psi, fl.f, it, steps, filter);
        fill_::on_new = -1;
        ref::Scheme s(in.g, o, in.G);
        V e = psi; double m = 0; for (double x : psi) m = std::max(m, std::fabs(x));
        for (int t = 0; t < steps; ++t) { e = s.step(e, fl.f, t); for (double x : e) m = std::max(m, std::fabs(x)); }
        c.step(steps); ++c.traces; c.state(r);
        int bad = -1; double worst = 0;
        if (r.size() != e.size()) bad = 0;
        else for (size_t i = 0; i < e.size(); ++i) { double d = std::fabs(r[i] - e[i]); if (!(d <= rel * m) && (bad < 0 || d > worst || std::isnan(d))) { bad = i; worst = d; } }
        if (bad < 0) continue;
        // is the scheme itself that sensitive to rounding here?
        double sens = 0;
        for (uint32_t seed = 1; seed <= 6; ++seed)
        {
          ref::Scheme q(in.g, o, in.G); q.noise = nz; q.seed = seed * 7919;
          V x = psi; q.jiggle(x); for (int t = 0; t < steps; ++t) x = q.step(x, fl.f, t);
          for (size_t i = 0; i < e.size(); ++i) sens = std::max(sens, std::fabs(x[i] - e[i]));
        }
        if (r.size() == e.size() && (s.degenerate || (std::isfinite(worst) && worst < 10 * sens))) { ++c.extra["results_left_out_as_ill_conditioned"]; continue; }
        if (r.size() != e.size()) c.viol("differs:" + c.name, suite::fmt("the first and the last point of a cyclic direction differ; field %s, flow %s, %d passes", suite::show(psi).c_str(), fl.name.c_str(), it));
        else c.viol("differs:" + c.name, suite::fmt("point %d reads %.17g, scheme gives %.17g (sensitivity %.2g); initial field %s, flow %s %s %s %s, %d passes, %d steps", bad, r[bad], e[bad], sens, suite::show(psi).c_str(), fl.name.c_str(), suite::show(fl.f.c[0]).c_str(), suite::show(fl.f.c[1]).c_str(), suite::show(fl.f.c[2]).c_str(), it, steps));
        break;
      }
      if (c.enough()) return;
    }
    if (!in.fields.empty()) c.sample(suite::fmt("%zu fields x %zu flows; e.g. field %s, flow %s", in.fields.size(), in.flows.size(), suite::show(in.fields.back(), 12).c_str(), in.flows.back().name.c_str()));
  }

  // ---------------------------------------------------------------- inputs
  ref::Flow flow0(const In &in) { ref::Flow f; for (int d = 0; d < 3; ++d) f.c[d].assign(in.g.size(), 0.); return f; }
  void gens(In &in) { in.G.resize(in.g.size()); in.g.each([&](I3 i) { in.G[in.g.at(i)] = .75 + u01(i[0], i[1], i[2], 99); }); }
  void uniform(In &in, std::vector<double> u, std::vector<double> v, std::vector<double> w)
  {
    for (double a : u) for (double b : v) for (double e : w)
    {
      Flw x; x.f = flow0(in); x.name = suite::fmt("uniform (%g %g %g)", a, b, e); x.divergent = false;
      double q[3] = {a, b, e}; for (int d = 0; d < in.g.D; ++d) x.f.c[d].assign(in.g.size(), q[d]);
      in.flows.push_back(x);
    }
  }
  // non-divergent with a different value at every edge, and arbitrary ones
  void rough(In &in, int n, double amp)
  {
    for (int s = 1; s <= n; ++s)
    {
      Flw x; x.f = flow0(in); x.name = suite::fmt("arbitrary #%d", s); x.divergent = true;
      for (int d = 0; d < in.g.D; ++d) in.g.each([&](I3 i) { double v = amp * (.25 + .75 * u01(i[0] + 17 * s, i[1], i[2], 31 + d)); if (hsh(i[0], i[1] + 100 * s, i[2], 47 + d) & 1) v = -v; if (s % 3 == 0 && hsh(i[0], i[1], i[2] + 100 * s, d) % 4 == 0) v = 0; x.f.c[d][in.g.at(i)] = v; });
      in.flows.push_back(x);
    }
    if (in.g.D > 1) for (int s = 1; s <= n; ++s)
    {
      Flw x; x.f = flow0(in); x.name = suite::fmt("from potential #%d", s); x.divergent = false;
      Flow fl; fl.D = in.g.D; fl.n = {{in.g.P[0] + 1, in.g.P[1] + 1, in.g.P[2] + 1}}; fl.amp = amp / (in.g.D - 1); fl.seed = s; for (int d = 0; d < 3; ++d) { fl.wrap[d] = true; fl.base[d] = (s & (1 << d)) ? amp / 4 : 0; }
      for (int d = 0; d < in.g.D; ++d) in.g.each([&](I3 i) { x.f.c[d][in.g.at(i)] = fl(d, i[0], i[1], i[2]); });
      in.flows.push_back(x);
    }
  }
  void all_fields(In &in, const std::vector<double> &alpha, bool generic)
  {
    int n = in.g.size(); uint64_t tot = 1; for (int i = 0; i < n; ++i) tot *= alpha.size();
    for (uint64_t q = 0; q < tot; ++q)
    {
      V f(n); uint64_t r = q;
      for (int i = 0; i < n; ++i) { f[i] = alpha[r % alpha.size()] * (generic ? 1 + .5 * u01(i, 3, 5, 7) : 1); r /= alpha.size(); }
      in.fields.push_back(f);
    }
  }
  // all fields with up to two deviating cells, and some without any regularity
  void impulses(In &in, double bg, double a, double b, int pairs, int rnd, bool sgn)
  {
    int n = in.g.size();
    in.fields.push_back(V(n, bg + 1));
    for (int i = 0; i < n; ++i) for (int j = i; j < (pairs ? n : i + 1); ++j) { V f(n, bg); f[i] = a; if (j != i) f[j] = b; in.fields.push_back(f); }
    for (int s = 0; s < rnd; ++s) { V f(n); for (int i = 0; i < n; ++i) { f[i] = u01(s, i, 5, 3) * 2; if (sgn && (hsh(i, s, 8, 1) & 1)) f[i] = -f[i]; if (!sgn && s % 4 == 1 && hsh(i, s, 4, 4) % 3 == 0) f[i] = 0; } in.fields.push_back(f); }
  }
  // quick tier: every k-th field only for the options whose formulae are long, every third one on the second of the small 2D grids for the others
  template <long O> void thin(In &in, bool thorough, size_t k)
  {
    if (thorough) return;
    if (!(isset(O, div_3rd) || isset(O, div_3rd_dt))) { if (k != 7) return; k = 3; }
    std::vector<V> f; for (size_t i = 0; i < in.fields.size(); i += k) f.push_back(in.fields[i]); in.fields = f;
  }
  template <long O> std::vector<int> passes(bool thorough) { return isset(O, iga) ? std::vector<int>{2, 1} : thorough ? std::vector<int>{2, 3, 1, 4} : std::vector<int>{2, 3, 1}; }
  template <int D, long O, int INTRP = 0, class Base = Mpd<ctI<D, O, INTRP>>> void one(const std::string &name, int cost)
  {
    static const bool mixed = isset(O, ABS) || isset(O, iga);
    auto body = [](suite::Ctx &c) {
      using K = Base;
      const ref::Opt o = ropt<O>(INTRP);
      const auto it = passes<O>(c.thorough);
      if (D == 1)
      {
        In in{{1, {{5, 1, 1}}}}; gens(in);
        all_fields(in, mixed ? std::vector<double>{-1.5, 0, 1} : std::vector<double>{0, 1, 2.5}, false);
        uniform(in, {-.6, .35, 0}, {0}, {0});
        for (int q = 0; q < 243; ++q) { Flw x; x.f = flow0(in); int r = q; x.name = suite::fmt("pattern #%d", q); for (int i = 0; i < 5; ++i) { x.f.c[0][i] = (double[]){-.45, 0, .3}[r % 3]; r /= 3; } in.flows.push_back(x); }
        compare<K>(c, in, o, 1, it);
        In two{in.g, in.G}; two.fields = in.fields; uniform(two, {-.6, .35}, {0}, {0}); rough(two, 4, .45);
        compare<K>(c, two, o, 2, it);
        compare<K>(c, two, o, 3, {it[0]}, 2);
        In lng{{1, {{9, 1, 1}}}}; gens(lng); impulses(lng, mixed ? -.5 : 0, 1, 2.5, 1, 40, mixed); uniform(lng, {-.6, .35}, {0}, {0}); rough(lng, 8, .45);
        compare<K>(c, lng, o, 1, it);
        if (!isset(O, iga)) { lng.fields.clear(); impulses(lng, mixed ? -.5 : .25, 1, 2.5, 0, 30, mixed); compare<K>(c, lng, o, 1, {4, 5, 6}); compare<K>(c, lng, o, 5, {2}, 3); }
      }
      if (D == 2)
      {
        for (I3 P : {I3{{4, 3, 1}}, I3{{3, 4, 1}}})
        {
          In in{{2, P}}; gens(in);
          all_fields(in, mixed ? std::vector<double>{-1, 1.5} : std::vector<double>{0, 1}, true);
          thin<O>(in, c.thorough, P[0] == 3 ? 7 : 3);
          uniform(in, {-.4, .3}, {.3, -.5}, {0}); rough(in, c.thorough ? 12 : 3, .24);
          compare<K>(c, in, o, 1, {it[0]});
        }
        In big{{2, {{6, 5, 1}}}}; gens(big); impulses(big, mixed ? -.5 : 0, 1, 2.5, 1, 60, mixed); thin<O>(big, c.thorough, 2); uniform(big, {-.4, 0, .3}, {.3, 0, -.5}, {0}); rough(big, c.thorough ? 30 : 6, .24);
        compare<K>(c, big, o, 1, it);
        big.fields.clear(); impulses(big, mixed ? -.5 : .25, 1, 0, 0, 40, mixed);
        compare<K>(c, big, o, 2, it); compare<K>(c, big, o, 3, {it[0]}, 2);
        if (!isset(O, iga)) { big.fields.resize(12); compare<K>(c, big, o, 1, {4, 5, 6}); }
      }
      if (D == 3)
      {
        for (I3 P : {I3{{5, 3, 3}}, I3{{3, 5, 3}}, I3{{3, 3, 5}}})
        {
          In in{{3, P}}; gens(in);
          impulses(in, mixed ? -.5 : 0, 1, 2.5, c.thorough, 60, mixed); thin<O>(in, c.thorough, P[0] == 5 ? 2 : 4);
          uniform(in, {-.3, .2}, {.2, -.3}, {-.2, .3}); rough(in, c.thorough ? 16 : 4, .15);
          compare<K>(c, in, o, 1, it);
          In two{in.g, in.G}; impulses(two, mixed ? -.5 : .25, 1, 0, 0, 20, mixed); uniform(two, {.2}, {-.3}, {.25}); rough(two, 3, .15);
          compare<K>(c, two, o, 2, {it[0]}); compare<K>(c, two, o, 3, {it[0]}, 2);
          if (!isset(O, iga) && P[0] == 5) { two.fields.resize(6); compare<K>(c, two, o, 1, {4, 5, 6}); }
        }
      }
    };
    suite::Reg(suite::fmt("%dD %s%s", D, name.c_str(), INTRP ? INTRP == 1 ? " aver2" : " aver4" : ""), cost, body);
  }
  std::string nm(long o)
  {
    std::string r;
    for (auto &x : {std::pair<long, const char *>{fct, "fct"}, {ABS, "abs"}, {tot, "tot"}, {pfc, "pfc"}, {npa, "npa"}, {iga, "iga"}, {nug, "nug"}, {dfl, "dfl"}, {khn, "khn"}, {div_2nd, "div_2nd"}, {div_3rd, "div_3rd"}, {div_3rd_dt, "div_3rd_dt"}, {fot, "fot"}})
      if (o & x.first) r += (r.empty() ? "" : "|") + std::string(x.second);
    return r.empty() ? "basic" : r;
  }
  template <int D, long... O> struct Many { Many() { int d[] = {(one<D, O>(nm(O), D * 10), 0)...}; (void)d; } };
  template <class K> struct ctF : K { using real_t = float; };
}
#define D2 div_2nd
#define D3 (div_2nd | div_3rd)
#define DT (div_2nd | div_3rd_dt)
#if PART == 0
static Many<1, 0, ABS, tot, iga, dfl, nug, fct, fct|ABS, fct|tot, fct|iga, fct|dfl, fct|nug, tot|ABS, tot|iga, tot|dfl, tot|nug, fct|tot|ABS, fct|tot|iga, fct|tot|dfl, fct|tot|nug> p0;
#elif PART == 1
static Many<1, dfl|ABS, dfl|iga, dfl|nug, dfl|iga|nug, fct|dfl|iga, fct|dfl|nug, fct|dfl|ABS|nug, fct|iga|nug, fct|tot|iga|nug, fct|tot|dfl|iga|nug, fct|tot|dfl|ABS|nug, khn, khn|nug|fct, pfc, pfc|tot, pfc|fct|ABS, npa, npa|fct, npa|fct|ABS, npa|khn|pfc|tot|fct|nug> p0;
#elif PART == 2
static Many<1, D2, D2|ABS, D2|iga, D2|nug, D2|fct, D2|fct|iga|nug, D2|fct|ABS|nug, D3, D3|ABS, D3|iga, D3|nug, D3|fct, D3|fct|iga|nug, D3|fct|ABS|nug, D3|pfc|npa|khn|fct> p0;
static struct X { X() { one<1, D3|nug, 1>(nm(D3|nug), 10); one<1, D3|nug, 2>(nm(D3|nug), 10); one<1, D3|iga, 1>(nm(D3|iga), 10); one<1, D3|iga|fct, 2>(nm(D3|iga|fct), 10); } } x0;
#elif PART == 3
static Many<2, 0, ABS, tot, iga, dfl, nug, fct, fct|ABS, fct|iga, tot|ABS> p0;
#elif PART == 4
static Many<2, tot|iga, tot|iga|fot, tot|nug, fct|tot|nug, fct|tot|iga, fct|tot|iga|fot|nug, dfl|ABS|nug, dfl|iga|nug> p0;
#elif PART == 5
static Many<2, fct|dfl|iga|nug, fct|tot|dfl|ABS|nug, fct|tot|dfl|iga, fct|dfl|nug, khn|nug, pfc|tot|fct|ABS, npa|fct, npa|khn|pfc|tot|fct|nug> p0;
#elif PART == 6
static Many<2, D2, D2|ABS|nug, D2|iga|nug, D2|fct, D3, D3|ABS, D3|iga, D3|nug> p0;
#elif PART == 7
static Many<2, D3|fct|iga|nug, D3|fct|ABS|nug, D3|fot|iga|nug, DT|nug, DT|iga, DT|fct|ABS> p0;
static struct X { X() { one<2, D3|nug, 1>(nm(D3|nug), 20); one<2, D3|iga, 2>(nm(D3|iga), 20); } } x0;
#elif PART == 8
static Many<3, 0, ABS|nug, tot|nug, iga|nug, dfl, fct, fct|ABS, fct|iga> p0;
#elif PART == 9
static Many<3, tot|ABS, tot|iga, fct|tot|nug, fct|tot|iga|nug, dfl|iga|nug, fct|tot|dfl|ABS|nug> p0;
#elif PART == 10
static Many<3, D2|nug, D2|iga, D2|fct|ABS, D3|nug, D3|iga> p0;
#elif PART == 11
static Many<3, khn|nug, pfc|tot|npa|fct, D3|fct|ABS|nug, D3|fct|iga|nug> p0;
static struct X { X() { one<3, D3|nug, 1>(nm(D3|nug), 30); } } x0;
#elif PART == 12
static Many<3, DT|nug, DT|iga, DT|fct|ABS> p0;
static struct X { X() {
  one<1, fct|tot, 0, Mpd<ctF<ctI<1, fct|tot, 0>>>>("float fct|tot", 10); one<2, fct|iga, 0, Mpd<ctF<ctI<2, fct|iga, 0>>>>("float fct|iga", 10); } } x0;
#endif
