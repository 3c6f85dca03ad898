// C24: the sub-grid mixing forces: for every velocity (and temperature) field of a bounded space the force the solver adds is the
// divergence of the documented stress (a plain-loop model of it), is independent of what was computed before, vanishes for uniform
// flow, conserves momentum, does not feed energy, scales as its closure says; whole runs of shear flows integrate it once per step.
#include "../mc/vip.hpp"
#include <libmpdata++/solvers/boussinesq.hpp>
#ifndef PART
#define PART 0
#endif
namespace sl = libmpdataxx::solvers;

namespace
{
  struct In { std::string id; std::vector<V> v; V tht; };
  struct Got { std::vector<V> f; V h; };
  const std::vector<In> *todo; std::vector<Got> *done; const Dom *dom_;
  // user code: the forces of many fields
  template <class base_t, bool BOU> struct spy_t : base_t
  {
    using base_t::base_t; enum { D = base_t::n_dims };
    template <class a_t> void put(a_t a, const V &v) { dom_->each([&](I3 x) { blitz::TinyVector<int, D> q; for (int d = 0; d < D; ++d) q[d] = x[d]; a(q) = v[dom_->at(x)]; }); }
    template <class a_t> V get(const a_t &a) { V v(dom_->size()); dom_->each([&](I3 x) { blitz::TinyVector<int, D> q; for (int d = 0; d < D; ++d) q[d] = x[d]; v[dom_->at(x)] = a(q); }); return v; }
    void hook_ante_loop(const typename base_t::advance_arg_t nt)
    {
      base_t::hook_ante_loop(nt);
      for (auto &in : *todo)
      {
        for (int d = 0; d < D; ++d) { put(this->vips()[d], in.v[d]); this->vip_rhs[d](this->ijk) = .5 * (d + 1); }
        if constexpr (BOU) put(this->state(D), in.tht);
        this->vip_rhs_expl_calc();
        Got g;
        for (int d = 0; d < D; ++d) { V f = get(this->vip_rhs[d]); for (auto &x : f) x = (x - .5 * (d + 1)) / 2; g.f.push_back(f); this->vip_rhs[d](this->ijk) = 0; }
        if constexpr (BOU) g.h = get(this->hflux_frc);
        done->push_back(g);
      }
    }
  };
  enum { NORMAL = sl::normal, PADE = sl::pade, COMPACT = sl::compact };
  struct Ref
  {
    const Dom &g; int sgs, sd; bool bou; double dx[3]; V G; double eta = 0, cs = 0, cdrag = 0, pr = 1, tref = 300, grav = 10, hfc = 0; std::vector<V> mix; V te;
    std::vector<V> v; V th, kh, kv; Halo H{g}; int Z = 0;
    static I3 up(I3 x, int d, int m = 1) { x[d] += m; return x; }
    double vel(int c, I3 x) const { return H.scalar(v[c], x); }
    double rho(I3 x) const { return G.size() ? H.scalar(G, x) : 1; }
    // half-way positions: index of the point below; periodic ones are reduced
    bool red(I3 &x, int d) const { if (!g.cyc(d)) return false; x[d] = cy(x[d], g.n[d]); return true; }
    double div(I3 x) const
    {
      if (!G.size()) return 0;
      for (int d = 0; d < Z; ++d) red(x, d);
      int m = g.n[Z] - 2;
      if (!red(x, Z)) { if (x[Z] < 0) { x[Z] = 0; return 2 * div(x) - div(up(x, Z)); } if (x[Z] > m) { x[Z] = m; return 2 * div(x) - div(up(x, Z, -1)); } }
      I3 u = up(x, Z); return -(vel(Z, u) + vel(Z, x)) * (rho(u) - rho(x)) / (dx[Z] * (rho(u) + rho(x)));
    }
    double def(int d, I3 x) const
    {
      int m = g.n[d] - 2;
      if (!red(x, d))
      {
        if (x[d] < 0 && g.l[d] == 'g') { I3 a = up(x, d), b = up(x, d, 2), c = up(x, d, 3); return 2 * ((3 * vel(d, b) - 2 * vel(d, a) - vel(d, c)) / dx[d] - div(x)); }
        if (x[d] < 0) { x[d] = 0; return 2 * def(d, x) - def(d, up(x, d)); }
        if (x[d] > m) { x[d] = m; return 2 * def(d, x) - def(d, up(x, d, -1)); }
      }
      I3 u = up(x, d);
      double dv = d == Z ? div(x) : .25 * (div(x) + div(up(x, Z, -1)) + div(u) + div(up(u, Z, -1)));
      return 2 * ((vel(d, u) - vel(d, x)) / dx[d] - dv / g.D);
    }
    double srfc(int a, I3 x) const
    {
      x[Z] = 0; I3 u = up(x, a); double s = 0; for (int c = 0; c < Z; ++c) { double q = vel(c, u) + vel(c, x); s += q * q; }
      return cdrag / 8 * std::sqrt(s) * (vel(a, u) + vel(a, x)) * (rho(u) + rho(x));
    }
    // value at a corner, beyond the ends of the domain as walls and the ground demand
    template <class F> double corner(int a, int b, I3 x, F f) const
    {
      for (int d : {b, a})
      {
        int m = g.n[d] - 2; if (red(x, d) || (x[d] >= 0 && x[d] <= m)) continue;
        bool low = x[d] < 0; I3 y = x; y[d] = low ? 0 : m;
        double in = corner(a, b, y, f);
        return low && g.l[d] == 'g' ? 2 * srfc(a == d ? b : a, x) - in : -in;
      }
      return f(x);
    }
    double off(int a, int b, I3 x) const
    {
      return corner(a, b, x, [&](I3 x) {
        I3 A = up(x, a), B = up(x, b), C = up(A, b);
        return .5 * ((vel(a, B) - vel(a, x) + vel(a, C) - vel(a, A)) / dx[b] + (vel(b, A) - vel(b, x) + vel(b, C) - vel(b, B)) / dx[a]);
      });
    }
    double k_edge(const V &k, int d, I3 x) const { I3 u = up(x, d); return .5 * (H.scalar(k, u) + H.scalar(k, x)) * .5 * (rho(u) + rho(x)); }
    double sdiag(int d, I3 x) const
    {
      red(x, d); return def(d, x) * (sgs == sl::dns ? eta : k_edge(kh, d, x));
    }
    double soff(int a, int b, I3 x) const
    {
      return corner(a, b, x, [&](I3 x) {
        double t = off(a, b, x); if (sgs == sl::dns) return eta * t;
        const V &k = b == Z ? kv : kh; double q = 0, r = 0;
        for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) { I3 y = up(up(x, a, i), b, j); q += H.scalar(k, y); r += rho(y); }
        return t * q / 4 * r / 4;
      });
    }
    double tdef_sq(I3 x) const
    {
      double mean = 0, most = 0;
      auto sq = [](double q) { return q * q; };
      for (int d = 0; d < g.D; ++d) { double p = sq(def(d, x)), q = sq(def(d, up(x, d, -1))); mean += p + q; most += std::max(p, q); }
      for (int a = 0; a < g.D; ++a) for (int b = a + 1; b < g.D; ++b)
      {
        double w = 0; for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) { double q = sq(off(a, b, up(up(x, a, -i), b, -j))); mean += q; w = std::max(w, q); }
        most += 2 * w;
      }
      return mean / 8 + most / 4;
    }
    double tgrad(int d, I3 x) const { return (H.pres(th, up(x, d)) - H.pres(th, x)) / dx[d]; }
    void viscosity()
    {
      kh.assign(g.size(), 0.); kv = kh;
      double all = 0, hor = 0; for (int d = 0; d < g.D; ++d) { all += dx[d] / 3; if (d < Z) hor += dx[d] / Z; }
      g.each([&](I3 x) {
        double t = tdef_sq(x), s = std::sqrt(t); int i = g.at(x);
        double lh = sgs == sl::smg ? all : hor, lv = sgs == sl::smg ? all : dx[Z];
        if (bou)
        {
          double n2 = grav / tref * .5 * (tgrad(Z, up(x, Z, -1)) + tgrad(Z, x));
          s = t > 0 && n2 / pr < t ? std::sqrt(t - n2 / pr) : 0; lh = mix[0][i]; lv = mix[1][i];
        }
        kh[i] = std::pow(cs * lh, 2) * s; kv[i] = std::pow(cs * lv, 2) * s;
      });
      if (bou) g.each([&](I3 x) { if (x[Z] == 0) { kh[g.at(x)] = kh[g.at(up(x, Z))]; kv[g.at(x)] = kv[g.at(up(x, Z))]; } });
    }
    V cd(const V &s, int d) const { V o(s.size()); g.each([&](I3 x) { o[g.at(x)] = (H.scalar(s, up(x, d)) - H.scalar(s, up(x, d, -1))) / (2 * dx[d]); }); return o; }
    V deriv(const V &s, int d) const
    {
      V o = cd(s, d); if (sd != PADE) return o;
      V w = o; for (int m = 0; m < 3; ++m) { V z = w; g.each([&](I3 x) { int i = g.at(x); w[i] += o[i] - .25 * (H.scalar(z, up(x, d)) + 2 * z[i] + H.scalar(z, up(x, d, -1))); }); }
      return w;
    }
    Got operator()(const In &in)
    {
      Z = g.D - 1; v = in.v; th = in.tht; if (te.size()) for (size_t i = 0; i < te.size(); ++i) th[i] += te[i];
      Got o; o.f.assign(g.D, V(g.size(), 0.));
      if (sd != COMPACT)
      {
        std::vector<std::vector<V>> t(g.D, std::vector<V>(g.D)); V k(g.size(), eta);
        for (int a = 0; a < g.D; ++a) for (int b = 0; b < g.D; ++b) { t[a][b] = deriv(v[a], b); }
        auto u = t; for (int a = 0; a < g.D; ++a) for (int b = 0; b < g.D; ++b) for (size_t i = 0; i < k.size(); ++i) t[a][b][i] = u[a][b][i] + u[b][a][i];
        if (sgs == sl::smg) { double l = 0; for (int d = 0; d < g.D; ++d) l += dx[d] / 3; for (size_t i = 0; i < k.size(); ++i) { double s = 0; for (int a = 0; a < g.D; ++a) for (int b = 0; b < g.D; ++b) s += .5 * t[a][b][i] * t[a][b][i]; k[i] = std::pow(cs * l, 2) * std::sqrt(s); } }
        for (int c = 0; c < g.D; ++c) for (int d = 0; d < g.D; ++d) { V s = t[c][d]; for (size_t i = 0; i < s.size(); ++i) s[i] *= k[i]; V q = deriv(s, d); for (size_t i = 0; i < s.size(); ++i) o.f[c][i] += q[i]; }
        return o;
      }
      if (sgs != sl::dns) viscosity();
      auto so = [&](int a, int b, I3 x) { return a < b ? soff(a, b, x) : soff(b, a, x); };
      g.each([&](I3 x) {
        for (int c = 0; c < g.D; ++c) { double f = 0; for (int d = 0; d < g.D; ++d)
          if (d == c) f += (sdiag(c, x) - sdiag(c, up(x, c, -1))) / dx[c];
          else { I3 e = up(x, c, -1); f += .5 * (so(c, d, x) - so(c, d, up(x, d, -1)) + so(c, d, e) - so(c, d, up(e, d, -1))) / dx[d]; }
          o.f[c][g.at(x)] = f / rho(x); }
      });
      if (!bou) return o;
      o.h.assign(g.size(), 0.);
      g.each([&](I3 x) {
        double f = 0;
        for (int d = 0; d < g.D; ++d) for (int s = 0; s < 2; ++s)
        {
          I3 e = up(x, d, -s); auto flux = [&](I3 y) { return tgrad(d, y) / pr * k_edge(d == Z ? kv : kh, d, y); };
          double q; int m = g.n[d] - 2;
          if (g.cyc(d) || (e[d] >= 0 && e[d] <= m)) q = flux(e);
          else { I3 y = e; y[d] = e[d] < 0 ? 0 : m; q = -flux(y); if (e[d] < 0 && g.l[d] == 'g') { I3 z = x; z[Z] = 0; q += 2 * -hfc * rho(z); } }
          f += (s ? -1 : 1) * q / dx[d];
        }
        o.h[g.at(x)] = f / rho(x);
      });
      return o;
    }
  };
  template <class P> auto put_eta(P &p, double e, int) -> decltype(p.eta, void()) { p.eta = e; }
  template <class P> void put_eta(P &, double, long) {}
  template <class P> auto put_smg(P &p, double e, int) -> decltype(p.smg_c, void()) { p.smg_c = e; p.c_m = .0856; }
  template <class P> void put_smg(P &, double, long) {}
  template <class P> auto put_bou(P &p, const Ref &r, int) -> decltype(p.prandtl_num, void()) { p.prandtl_num = r.pr; p.Tht_ref = r.tref; p.g = r.grav; p.hflux_const = r.hfc; }
  template <class P> void put_bou(P &, const Ref &, long) {}
  template <int D, int SGS, int SD, long O, int BOU> struct pick { using base_t = sl::mpdata_rhs_vip_prs_sgs<ctSgs<D, SGS, SD, O>>; };
  template <int D, int SGS, int SD, long O> struct pick<D, SGS, SD, O, 1> { using base_t = sl::boussinesq<ctBou<D, false, O, SGS, SD>>; };
  template <int D, int SGS, int SD, long O> struct pick<D, SGS, SD, O, 2> { using base_t = sl::boussinesq<ctBou<D, true, O, SGS, SD>>; };

  template <int D, int SGS, int SD, long O, int BOU, class B> void sgs(suite::Ctx &c, I3 n)
  {
    using base_t = typename pick<D, SGS, SD, O, BOU>::base_t; using run_t = typename bind_bc<concurr::serial, spy_t<base_t, BOU != 0>, B>::type;
    Dom g = dom_of<B>(n); dom_ = &g; int pts = g.distinct(); size_t total = 0; bool allcyc = true; for (int d = 0; d < D; ++d) allcyc &= g.cyc(d);
    bool ground = g.l[D - 1] == 'g';
    for (int var = 0; var < (c.thorough ? 6 : 3); ++var)
    {
      Ref R{g, SGS, SD, BOU != 0};
      R.dx[0] = var == 0 ? 1 : .8; R.dx[1] = var == 1 ? 1.3 : var == 0 ? 1 : .6; R.dx[2] = var == 2 ? 1.7 : 1;
      R.eta = var % 2 ? .05 : 1.5; R.cs = var % 2 ? 1 : .165; R.cdrag = ground && (SGS == sl::dns || BOU) ? (var % 3) * .2 : 0; R.pr = var % 2 ? .42 : 1.1; R.tref = var ? 300 : 10; R.grav = var == 2 ? 9.81 : 10; R.hfc = var == 1 ? 0 : .3 * (1 - var);
      if (isset(O, nug)) { R.G = V(g.size()); g.each([&](I3 x) { I3 r = g.rep(x); R.G[g.at(x)] = 1.5 - .25 * (r[D - 1] % 3) + .125 * (var > 1 ? hsh(r[0], r[1], r[2], 3) % 3 : r[D - 1] % 2); }); }
      if (BOU) for (int q = 0; q < 2; ++q) { R.mix.push_back(V(g.size())); g.each([&](I3 x) { I3 r = g.rep(x); R.mix[q][g.at(x)] = SGS == sl::smg ? .5 + .25 * (r[D - 1] % 3) : .5 + .25 * q + .25 * (hsh(r[0], r[1], r[2], 60 + q) % 3); }); }
      if (BOU == 2) { R.te.assign(g.size(), 0.); g.each([&](I3 x) { I3 r = g.rep(x); R.te[g.at(x)] = 3 + .25 * r[D - 1] * (r[D - 1] % 2); }); }
      std::vector<In> in; size_t impulses = 0;
      auto add = [&](const std::string &id, const std::vector<V> &d) {
        In i; i.id = suite::fmt("variant %d ", var) + id; if (!c.item(i.id)) return;
        for (int k = 0; k < D; ++k) i.v.push_back(spread(g, d[k]));
        for (int k = 0; k < D; ++k) if (!g.cyc(k)) g.each([&](I3 x) { if (g.l[k] != 'o' && (x[k] == 0 || x[k] == g.n[k] - 1)) i.v[k][g.at(x)] = 0; });
        if (BOU) i.tht = spread(g, d[D]);
        in.push_back(i);
      };
      std::vector<V> zero(D + 1, V(pts, 0.)); if (BOU) zero[D].assign(pts, BOU == 2 ? 0. : 3.);
      // (positions of the distinct points)
      std::vector<I3> pos; g.each([&](I3 x) { if (!g.dup(x)) pos.push_back(x); });
      auto lapse = [&](int code, int i) { static const int p3[] = {1, 3, 9, 27, 81}; double s = 0; for (int z = 0; z < pos[i][D - 1]; ++z) s += (code / p3[z % 5] % 3 - 1) * .5; return s; };
      std::vector<int> lapses{0}; if (BOU) for (int k = 0; k < (c.thorough ? 27 : 9); ++k) lapses.push_back(k * (c.thorough ? 1 : 3) + 1);
      // every basis field (the closure without eddies is linear: they decide it), on every stratification
      add("rest", zero);
      if (allcyc && !BOU) { for (int s = 0; s < 27; ++s) { auto d = zero; for (int k = 0; k < D; ++k) d[k].assign(pts, (s / (k ? k == 1 ? 3 : 9 : 1)) % 3 - 1); add(suite::fmt("uniform %d", s), d); } }
      for (size_t l = 0; l < lapses.size(); ++l)
      {
        auto b = zero; if (l) for (int i = 0; i < pts; ++i) b[D][i] += lapse(lapses[l], i);
        if (l) add(suite::fmt("rest lapse %d", lapses[l]), b);
        if (l > 1 && !c.thorough && (l + var) % 3) continue;
        for (int k = 0; k < D + (BOU ? 1 : 0); ++k) for (int q = 0; q < pts; ++q) { auto d = b; d[k][q] += 1; add(suite::fmt("basis %d at %d lapse %d", k, q, lapses[l]), d); }
      }
      impulses = in.size();
      // profiles over a small alphabet along every direction
      for (int a = 0; a < D; ++a)
      {
        int m = g.cyc(a) ? g.n[a] - 1 : g.n[a]; uint32_t all = 1; for (int i = 0; i < m; ++i) all *= 3; uint32_t st = c.thorough ? 1 : D == 3 || BOU ? 4 : 1;
        for (int k = 0; k < D; ++k) for (uint32_t q = var % st; q < all; q += st) { auto d = zero; for (int i = 0; i < pts; ++i) { uint32_t z = q; for (int s = 0; s < pos[i][a]; ++s) z /= 3; d[k][i] = (int)(z % 3) - 1; if (BOU) d[D][i] += lapse(q % 81, i); } add(suite::fmt("profile %u of %d along %d", q, k, a), d); }
      }
      // pairs of impulses
      int pairs = c.thorough ? 4000 : D == 3 ? 150 : 300;
      for (int q = 0; q < pairs; ++q)
      {
        auto d = zero; int a = hsh(q, var, 1, 5) % (D * pts), b = q % (D * pts); d[a / pts][a % pts] += 1; d[b / pts][b % pts] += q % 2 ? -.5 : 2;
        if (BOU) for (int i = 0; i < pts; ++i) d[D][i] += lapse(q % 81, i);
        add(suite::fmt("impulses %d: %d %d", q, a, b), d);
      }
      for (int q = 0; q < (c.thorough ? 1500 : 100); ++q)
      {
        auto d = zero; for (int k = 0; k < D + (BOU ? 1 : 0); ++k) for (int i = 0; i < pts; ++i) d[k][i] += (k == D ? 1.5 : 1.) * (u01(q, k, i, 70 + var) - .5);
        add(suite::fmt("irregular %d", q), d);
        if (!BOU && q % 4 == 0) { auto e = d; for (int k = 0; k < D; ++k) for (auto &x : e[k]) x *= -2; add(suite::fmt("irregular %d times -2", q), e); }
        if (!BOU && allcyc && q % 4 == 1) { auto e = d; for (int k = 0; k < D; ++k) for (auto &x : e[k]) x += .5 * (k + 1); add(suite::fmt("irregular %d moving", q), e); }
      }
      if (in.empty()) continue;
      std::vector<In> work = in; for (size_t i = in.size(); i--;) if (i % 5 == 0) work.push_back(in[i]); // (again, in another order)
      std::vector<Got> got; todo = &work; done = &got;
      Setup s; s.D = D; s.n = n; s.iters = 2; s.dt = .1; for (int d = 0; d < 3; ++d) s.dx[d] = R.dx[d];
      auto p = base_params<base_t>(s); p.prs_tol = 1e-7; put_eta(p, R.eta, 0); put_smg(p, R.cs, 0); put_bou(p, R, 0); p.cdrag = R.cdrag;
      fill_::on_new = 0xff;
      {
        run_t r(p);
        auto put = [&](auto a, const V &v) { fill(a, [&](int i, int j, int k) { return v[g.at({i, j, k})]; }); };
        V z(g.size(), 0.); for (int d = 0; d < D; ++d) put(r.advectee(d), z);
        if (isset(O, nug)) put(r.g_factor(), R.G);
        if constexpr (BOU != 0)
        {
          put(r.advectee(D), BOU == 2 ? z : V(g.size(), 3.)); put(r.sclr_array("tht_e"), R.te.size() ? R.te : z); put(r.sclr_array("tht_abs"), z);
          if (SGS == sl::smg) put(r.sclr_array("mix_len"), R.mix[0]); else { put(r.sclr_array("mix_len_h"), R.mix[0]); put(r.sclr_array("mix_len_v"), R.mix[1]); }
        }
        r.advance(0);
      }
      fill_::on_new = -1;
      if (SGS == sl::smg && BOU) R.mix[1] = R.mix[0];
      std::map<std::string, size_t> where; std::vector<Got> ref;
      double unit = SGS == sl::dns ? R.eta : R.cs * R.cs; // the size of forces expected of fields of unit size
      for (size_t w = 0; w < work.size(); ++w)
      {
        auto &i = work[w]; bool again = w >= in.size(); Got r;
        if (again) r = got[where[i.id]]; else { r = R(i); where[i.id] = w; }
        double vs = 0; for (auto &v : i.v) vs = std::max(vs, maxabs(v));
        double big = unit * std::max(vs, 1e-3) * (SGS == sl::dns ? 1 : std::max(vs, 1e-3)), tol = again ? 0 : 1e-11; std::string why;
        for (auto &v : r.f) big = std::max(big, maxabs(v));
        auto cmp = [&](const V &a, const V &b, const char *what, int k, double big) {
          g.each([&](I3 x) {
            if (!why.empty()) return;
            if (k == D - 1 && ground && x[k] == 0 && R.G.size()) return; // (what the divergence of the velocity is on the ground is not told)
            if (!(std::fabs(a[g.at(x)] - b[g.at(x)]) <= tol * big)) why = suite::fmt("%s at (%d,%d,%d) is %.17g instead of %.17g%s", what, x[0], x[1], x[2], a[g.at(x)], b[g.at(x)], again ? " (computed before)" : "");
          });
        };
        for (int k = 0; k < D && why.empty(); ++k) { cmp(got[w].f[k], r.f[k], suite::fmt("force %d", k).c_str(), k, big); c.state(got[w].f[k]); }
        if (BOU && why.empty()) { cmp(got[w].h, r.h, "heating", -1, std::max({big, maxabs(r.h), std::fabs(R.hfc)})); c.state(got[w].h); }
        // what the forces must be whatever the formula
        if (why.empty() && !again && !BOU && allcyc)
        {
          auto &f = got[w].f; double work_ = 0, wbig = big * std::max(vs, 1.) * pts;
          for (int k = 0; k < D; ++k)
          {
            double m = 0; g.each([&](I3 x) { if (!g.dup(x)) { m += (R.G.size() && SD == COMPACT ? R.G[g.at(x)] : 1) * f[k][g.at(x)]; work_ += i.v[k][g.at(x)] * f[k][g.at(x)]; } });
            if (!(std::fabs(m) <= 1e-12 * big * pts)) why = suite::fmt("momentum %d changes by %g", k, m);
            g.each([&](I3 x) { if (why.empty() && !(std::fabs(f[k][g.at(x)] - f[k][g.at(g.rep(x))]) <= 1e-13 * big)) why = "the two copies of a point of the cyclic domain get different forces"; });
            if (i.id.find("uniform") != std::string::npos && !R.G.size() && maxabs(f[k]) != 0) why = "uniform flow is decelerated";
          }
          if (why.empty() && SD != PADE && !R.G.size() && !(work_ <= 1e-12 * wbig)) why = suite::fmt("mixing adds energy: %g", work_);
          size_t e;
          if (why.empty() && (e = i.id.find(" moving")) != std::string::npos && !R.G.size()) for (int k = 0; k < D; ++k) for (size_t q = 0; q < f[k].size(); ++q) if (!(std::fabs(f[k][q] - got[where[i.id.substr(0, e)]].f[k][q]) <= 1e-12 * big)) why = "the force depends on the speed of the whole fluid";
        }
        size_t e = i.id.find(" times -2");
        if (why.empty() && !again && !BOU && e != std::string::npos && R.cdrag == 0) for (int k = 0; k < D; ++k) for (size_t q = 0; q < got[w].f[k].size(); ++q)
        { double x = got[w].f[k][q], y = (SGS == sl::dns ? -2 : -4) * got[where[i.id.substr(0, e)]].f[k][q]; if (!(std::fabs(x - y) <= 1e-12 * big)) why = suite::fmt("twice the opposite velocities: force %g instead of %g", x, y); }
        c.step(); c.traces++;
        if (why.empty()) continue;
        c.viol("sgs:" + c.name, i.id + ": " + why); if (c.enough()) return;
      }
      total += work.size();
      // whole runs of shear flows (nothing but mixing acts): one explicit step of the force per time step
      if constexpr (BOU == 0)
      {
        using flow_t = typename bind_bc<concurr::serial, log_t<base_t>, B>::type;
        for (int a = 0; a < D; ++a) for (int k = 0; k < D; ++k) if (k != a && g.cyc(k) && g.l[a] != 'o')
        {
          bool flat = true; for (int d = 0; d < D; ++d) if (d != a && !g.cyc(d)) flat = false; // (uniform across)
          if (!flat || (R.G.size() && !(a == D - 1 && var < 2))) continue;
          int m = g.cyc(a) ? g.n[a] - 1 : g.n[a]; uint32_t all = 1; for (int i = 0; i < m; ++i) all *= 3; uint32_t st = c.thorough ? 1 : all > 60 ? 7 : 2;
          for (uint32_t q = var % st; q < all; q += st)
          {
            std::string id = suite::fmt("variant %d run of profile %u of %d along %d", var, q, k, a); if (!c.item(id)) continue;
            std::vector<V> st(D, V(g.size(), 0.)); g.each([&](I3 x) { uint32_t z = q; I3 r = g.rep(x); for (int s = 0; s < r[a]; ++s) z /= 3; st[k][g.at(x)] = (int)(z % 3) - 1; });
            Setup s2 = s; s2.dt = .05; auto p2 = p; p2.dt = .05; p2.prs_tol = 1e-11;
            std::vector<Rec<D>> log; logp<D> = &log; std::vector<V> fin;
            fill_::on_new = 0xff;
            {
              flow_t r(p2);
              for (int d = 0; d < D; ++d) fill(r.advectee(d), [&](int i, int j, int l) { return st[d][g.at({i, j, l})]; });
              if (isset(O, nug)) fill(r.g_factor(), [&](int i, int j, int l) { return R.G[g.at({i, j, l})]; });
              r.advance(1); r.advance(2);
              for (int d = 0; d < D; ++d) fin.push_back(read(r.advectee(d)));
            }
            fill_::on_new = -1;
            std::string why;
            for (size_t t = 0; t <= log.size() && why.empty(); ++t)
            {
              auto &cur = t < log.size() ? log[t].st : fin; double big = 1; for (auto &v : st) big = std::max(big, maxabs(v));
              for (int d = 0; d < D && why.empty(); ++d) for (size_t i = 0; i < cur[d].size(); ++i) if (!(std::fabs(cur[d][i] - st[d][i]) <= 1e-6 * big)) { why = suite::fmt("after %zu steps velocity %d at %zu is %.17g instead of %.17g", t, d, i, cur[d][i], st[d][i]); break; }
              if (big > 10) break;
              for (auto &v : cur) c.state(v);
              In i; for (auto &v : cur) i.v.push_back(v); Got f = R(i);
              st.clear(); for (int d = 0; d < D; ++d) { st.push_back(cur[d]); for (size_t x = 0; x < st[d].size(); ++x) st[d][x] += p2.dt * f.f[d][x]; }
              for (int d = 0; d < D; ++d) if (!g.cyc(d)) g.each([&](I3 x) { if (x[d] == 0 || x[d] == g.n[d] - 1) st[d][g.at(x)] = 0; });
            }
            c.step(log.size()); c.traces++; ++total;
            if (log.size() != 3) why = suite::fmt("%zu steps instead of 3", log.size());
            if (!why.empty()) { c.viol("shear:" + c.name, id + ": " + why); if (c.enough()) return; }
          }
        }
      }
    }
    c.sample(suite::fmt("%s %s: %zu fields", g.name().c_str(), nm(O).c_str(), total));
  }
#define S_(D, SGS, SD, O, BOU, B, N0, N1, N2) CASE(suite::fmt("%s %dD %s %s %s %s", BOU ? BOU == 2 ? "boussinesq implicit" : "boussinesq" : "plain", D, #SGS, #SD, nm(O).c_str(), #B), D * 12, [](suite::Ctx &c) { sgs<D, (int)sl::SGS, (int)sl::SD, (O), BOU, B>(c, {{N0, N1, N2}}); });
  using CR = BC<cyc, cyc, rgd, rgd>; using RC = BC<rgd, rgd, cyc, cyc>; using CG = BC<cyc, cyc, gsk, gsk>; using RG = BC<rgd, rgd, gsk, gsk>; using OC = BC<opn, opn, cyc, cyc>;
  using CCR = BC<cyc, cyc, cyc, cyc, rgd, rgd>; using CCG = BC<cyc, cyc, cyc, cyc, gsk, gsk>; using RRG = BC<rgd, rgd, rgd, rgd, gsk, gsk>; using RCR = BC<rgd, rgd, cyc, cyc, rgd, rgd>;
#if PART == 0
  S_(2, dns, normal, iga, 0, C2, 5, 4, 1) S_(2, dns, pade, iga, 0, C2, 5, 6, 1) S_(2, dns, normal, iga, 0, R2, 4, 5, 1) S_(2, dns, pade, iga, 0, OC, 4, 4, 1) S_(2, smg, normal, iga, 0, C2, 5, 4, 1) S_(2, smg, pade, iga, 0, CR, 4, 4, 1)
#elif PART == 1
  S_(2, dns, compact, iga, 0, C2, 5, 4, 1) S_(2, dns, compact, iga | nug, 0, CR, 4, 5, 1) S_(2, dns, compact, iga | nug, 0, RC, 5, 4, 1) S_(2, dns, compact, iga | nug, 0, RG, 4, 5, 1) S_(2, dns, compact, iga, 0, CG, 4, 5, 1)
#elif PART == 2
  S_(2, smg, compact, iga, 0, C2, 5, 4, 1) S_(2, smg, compact, iga | nug, 0, CR, 4, 5, 1) S_(2, smg, compact, iga | nug, 0, R2, 5, 4, 1) S_(2, smg, compact, iga, 0, CG, 5, 4, 1) S_(2, smgani, compact, iga, 0, C2, 4, 5, 1) S_(2, smgani, compact, iga | nug, 0, R2, 4, 4, 1)
#elif PART == 3
  S_(2, smg, compact, iga, 1, CG, 5, 5, 1) S_(2, smg, compact, iga | nug, 2, CG, 4, 5, 1) S_(2, smg, compact, iga | nug, 1, RG, 5, 4, 1) S_(2, smgani, compact, iga | nug, 1, CG, 4, 5, 1) S_(2, smgani, compact, iga, 2, RG, 4, 5, 1)
#elif PART == 4
  S_(3, dns, normal, iga, 0, C3, 4, 3, 4) S_(3, dns, pade, iga, 0, CCR, 4, 4, 4) S_(3, dns, compact, iga, 0, C3, 4, 4, 3) S_(3, smg, normal, iga, 0, CCR, 4, 4, 4)
#elif PART == 5
  S_(3, dns, compact, iga | nug, 0, CCR, 4, 3, 4) S_(3, dns, compact, iga | nug, 0, RRG, 3, 4, 4) S_(3, smg, compact, iga | nug, 0, RCR, 3, 4, 4)
#elif PART == 6
  S_(3, smg, compact, iga, 0, C3, 3, 4, 4) S_(3, smgani, compact, iga | nug, 0, CCR, 4, 3, 4) S_(3, smg, compact, iga | nug, 1, CCG, 4, 4, 4)
#elif PART == 7
  S_(3, smgani, compact, iga | nug, 2, CCG, 4, 3, 4) S_(3, smg, compact, iga, 2, RRG, 4, 3, 4) S_(3, smgani, compact, iga, 1, RRG, 3, 4, 4)
#endif
}
