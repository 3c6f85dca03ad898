// Pairs of domains related by a symmetry: every point of the second domain is an image of a point of the first, every
// edge of an edge (with a sign). A solution on the second must be the image of the solution on the first.
#pragma once
#include "dom.hpp"

namespace sym
{
  using namespace dom;
  struct Map
  {
    std::string name;
    std::function<I3(I3)> pt;                                    // point of the second domain -> point of the first
    std::function<bool(int, I3, int &, I3 &, double &)> ed;      // edge of the second -> edge of the first and sign; false: no flow
  };
  // ---- boundary-condition packs transformed
  template <class B, int... q> struct sel;
  template <bcond::bcond_e... b, int... q> struct sel<BC<b...>, q...> { static constexpr bcond::bcond_e a[] = {b...}; using type = BC<a[q]...>; };
  template <bcond::bcond_e... b, int... q> constexpr bcond::bcond_e sel<BC<b...>, q...>::a[];
  template <class B, int d> struct flip; // the two sides of direction d exchanged
  template <class B> struct flip<B, 0> { static constexpr int D = bcs_of<B>::D; using type = typename std::conditional<D == 1, sel<B, 1, 0>, typename std::conditional<D == 2, sel<B, 1, 0, 2 % (2 * D), 3 % (2 * D)>, sel<B, 1, 0, 2 % (2 * D), 3 % (2 * D), 4 % (2 * D), 5 % (2 * D)>>::type>::type::type; };
  template <class B> struct flip<B, 1> { static constexpr int D = bcs_of<B>::D; using type = typename std::conditional<D == 2, sel<B, 0, 1, 3, 2>, sel<B, 0, 1, 3, 2, 4 % (2 * D), 5 % (2 * D)>>::type::type; };
  template <class B> struct flip<B, 2> { using type = typename sel<B, 0, 1, 2, 3, 5, 4>::type; };

  inline Map shift(const Dom &g, int d, int s)
  {
    Map m; m.name = suite::fmt("shifted by %d along %d", s, d);
    m.pt = [=](I3 i) { i[d] = cy(i[d] + s, g.n[d]); return i; };
    m.ed = [=](int q, I3 e, int &q1, I3 &e1, double &sg) { q1 = q; e1 = e; e1[d] = cy(e[d] + s, g.n[d]); sg = 1; return true; };
    return m;
  }
  inline Map reflect(const Dom &g, int d)
  {
    Map m; m.name = suite::fmt("reflected along %d", d);
    m.pt = [=](I3 i) { i[d] = g.n[d] - 1 - i[d]; return i; };
    m.ed = [=](int q, I3 e, int &q1, I3 &e1, double &sg) { q1 = q; e1 = e; e1[d] = (q == d ? g.n[d] - 2 : g.n[d] - 1) - e[d]; sg = q == d ? -1 : 1; return true; };
    return m;
  }
  // direction d of the second domain is direction p[d] of the first
  inline Map permute(const Dom &g, I3 p)
  {
    Map m; m.name = suite::fmt("axes exchanged (%d %d %d)", p[0], p[1], p[2]);
    m.pt = [=](I3 i) { I3 r{{0, 0, 0}}; for (int d = 0; d < g.D; ++d) r[p[d]] = i[d]; return r; };
    m.ed = [=](int q, I3 e, int &q1, I3 &e1, double &sg) { q1 = p[q]; e1 = I3{{0, 0, 0}}; for (int d = 0; d < g.D; ++d) e1[p[d]] = e[d]; sg = 1; return true; };
    return m;
  }
  inline I3 permuted(const Dom &g, I3 p) { I3 n{{1, 1, 1}}; for (int d = 0; d < g.D; ++d) n[d] = g.n[p[d]]; return n; }
  // walls: the mirror image joined to the domain, as a cyclic domain of 2 n - 1 points
  inline Map unfold(const Dom &g)
  {
    Map m; m.name = "with mirror images beyond the walls";
    auto mir = [=](int d, int i) { int n = g.n[d]; if (!Dom::wall(g.l[d])) return i; i = cy(i, 2 * n - 1); return i > n - 1 ? 2 * (n - 1) - i : i; };
    m.pt = [=](I3 i) { for (int d = 0; d < g.D; ++d) i[d] = mir(d, i[d]); return i; };
    m.ed = [=](int q, I3 e, int &q1, I3 &e1, double &sg) {
      q1 = q; sg = 1;
      for (int d = 0; d < g.D; ++d)
      {
        if (d != q) e1[d] = mir(d, e[d]);
        else if (Dom::wall(g.l[d])) { int n = g.n[d], x = cy(e[d], 2 * n - 1); if (x > n - 2) { x = 2 * (n - 1) - 1 - x; sg = -1; } e1[d] = x; }
        else e1[d] = e[d];
      }
      for (int d = g.D; d < 3; ++d) e1[d] = 0;
      return true;
    };
    return m;
  }
  inline I3 unfolded(const Dom &g) { I3 n = g.n; for (int d = 0; d < g.D; ++d) if (Dom::wall(g.l[d])) n[d] = 2 * n[d] - 1; return n; }
  // poles at the ends of direction 1: the other side of the globe joined to the domain, cyclic, 2 n + 1 points
  inline Map across(const Dom &g)
  {
    Map m; m.name = "continued across the poles";
    auto flipd = [=](int j, bool &f) { j = cy(j, 2 * g.n[1] + 1); f = j > g.n[1] - 1; return f ? 2 * g.n[1] - 1 - j : j; };
    m.pt = [=](I3 i) { bool f; i[1] = flipd(i[1], f); if (f) i[0] = cy(i[0] + (g.n[0] - 1) / 2, g.n[0]); else i[0] = cy(i[0], g.n[0]); return i; };
    m.ed = [=](int q, I3 e, int &q1, I3 &e1, double &sg) {
      q1 = q; sg = 1; e1 = e; bool f; int n = g.n[1];
      if (q != 1) { e1[1] = flipd(e[1], f); if (f) e1[0] = cy(e[0] + (g.n[0] - 1) / 2, g.n[0]); return true; }
      int x = cy(e[1], 2 * n + 1);
      if (x == n - 1 || x == 2 * n - 1) return false; // at a pole
      if (x > n - 1) { sg = -1; x = 2 * n - 2 - x; e1[0] = cy(e[0] + (g.n[0] - 1) / 2, g.n[0]); }
      e1[1] = x;
      return true;
    };
    return m;
  }
  // a direction (or two) along which nothing varies; p[d]: direction of the first (lower-dimensional) domain or -1
  inline Map embed(I3 p, std::array<double, 3> wind)
  {
    Map m; m.name = suite::fmt("as a uniform slab (%d %d %d)", p[0], p[1], p[2]);
    m.pt = [=](I3 i) { I3 r{{0, 0, 0}}; for (int d = 0; d < 3; ++d) if (p[d] >= 0) r[p[d]] = i[d]; return r; };
    m.ed = [=](int q, I3 e, int &q1, I3 &e1, double &sg) { if (p[q] < 0) { q1 = -1; sg = wind[q]; return true; } q1 = p[q]; sg = 1; e1 = I3{{0, 0, 0}}; for (int d = 0; d < 3; ++d) if (p[d] >= 0) e1[p[d]] = e[d]; return true; };
    return m;
  }
  inline Map same() { Map m; m.name = "the same"; m.pt = [](I3 i) { return i; }; m.ed = [](int q, I3 e, int &q1, I3 &e1, double &sg) { q1 = q; e1 = e; sg = 1; return true; }; return m; }

  inline V image(const Dom &g1, const Dom &g2, const Map &m, const V &a) { V r(g2.size()); g2.each([&](I3 i) { r[g2.at(i)] = a[g1.at(m.pt(i))]; }); return r; }
  inline Flw image(const Dom &g1, const Dom &g2, const Map &m, const Flw &f)
  {
    Flw r; r.name = f.name; r.divergent = f.divergent;
    for (int d = 0; d < g2.D; ++d)
    {
      r.c[d].assign(g2.esize(d), 0.);
      g2.edges(d, [&](I3 e) { int d1; I3 e1; double s; if (m.ed(d, e, d1, e1, s)) r.c[d][g2.eat(d, e)] = d1 < 0 ? s : s * f.c[d1][g1.eat(d1, e1)]; });
    }
    return r;
  }

  // the comparison; 'mask' (optional): points of the second domain to compare
  template <class K1, class B1, class K2, class B2>
  void compare(suite::Ctx &c, const std::string &key, I3 n1, I3 n2, const Map &m, const std::vector<V> &fields, const std::vector<Flw> &flows, const std::vector<int> &iters, int steps, double tol = 1e-12)
  {
    const Dom g1 = dom_of<B1>(n1), g2 = dom_of<B2>(n2);
    const V G1 = isset(K1::ct::opts, nug) ? density(g1) : V(g1.size(), 1.), G2 = image(g1, g2, m, G1);
    for (int it : iters) for (auto &f1 : flows)
    {
      if (!c.item(suite::fmt("%s %s, %d passes, %d steps, flow %s", g1.name().c_str(), m.name.c_str(), it, steps, f1.name.c_str()))) continue;
      const Flw f2 = image(g1, g2, m, f1);
      if (c.traces == 0) c.sample(suite::fmt("%s %s vs %s, flow %s, %zu fields", g1.name().c_str(), m.name.c_str(), g2.name().c_str(), f1.name.c_str(), fields.size()));
      for (auto &p1 : fields)
      {
        V p2 = image(g1, g2, m, p1);
        Out a = dom::run<K1, B1>(g1, p1, f1, G1, it, steps), b = dom::run<K2, B2>(g2, p2, f2, G2, it, steps);
        c.step(2 * steps); ++c.traces; c.state(a.psi);
        V want = image(g1, g2, m, a.psi);
        double scale = std::max(1e-300, std::max(maxabs(p1), isset(K1::ct::opts, iga) ? 1. : 0.)), worst = 0; int at = -1;
        for (double x : a.psi) if (std::isfinite(x)) scale = std::max(scale, std::fabs(x));
        for (size_t q = 0; q < want.size(); ++q) { double d = std::fabs(want[q] - b.psi[q]); if (!(d <= tol * scale) && !(std::isnan(want[q]) && std::isnan(b.psi[q])) && (at < 0 || !(d <= worst))) { worst = d; at = q; } }
        if (at < 0) continue;
        // does rounding of the input explain it?
        double sens = 0;
        for (int s = 1; s <= 6; ++s)
        {
          V q1 = p1; for (size_t i = 0; i < q1.size(); ++i) q1[i] *= 1 + ((hsh(i, s, 5, 6) & 1) ? 2.3e-16 : -2.3e-16) * 2;
          g1.each([&](I3 i) { q1[g1.at(i)] = q1[g1.at(g1.rep(i))]; });
          Out o = dom::run<K1, B1>(g1, q1, f1, G1, it, steps);
          for (size_t i = 0; i < o.psi.size(); ++i) { double d = std::fabs(o.psi[i] - a.psi[i]); if (d > sens) sens = d; }
        }
        if (std::isfinite(worst) && worst <= 30 * sens) { ++c.extra["results_left_out_as_ill_conditioned"]; continue; }
        c.viol(key, suite::fmt("%s %s: point %d is %.17g, but its image is %.17g (sensitivity %.2g); field %s, flow %s %s %s %s, %d passes, %d steps", g1.name().c_str(), m.name.c_str(), at, want[at], b.psi[at], sens, suite::show(p1).c_str(), f1.name.c_str(), suite::show(f1.c[0]).c_str(), suite::show(f1.c[1]).c_str(), suite::show(f1.c[2]).c_str(), it, steps));
        break;
      }
      if (c.enough()) return;
    }
  }
}
