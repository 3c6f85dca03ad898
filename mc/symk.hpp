// Symmetric pairs of whole set-ups of any kind of solver: velocities change sign, order and number with the axes.
#pragma once
#include "sym.hpp"
namespace sym
{
  // everything a run starts from
  struct State { Dom g; std::vector<V> f; Flw flow; V G; std::map<std::string, V> arr; double dx[3] = {1, 1, 1}, dt = 1, unit = 1; int iters = 2; std::string name; };
  struct EqMap { int nv1 = 0, nv2 = 0; }; // the first nv equations are the components of a vector
  inline std::vector<V> image(const Dom &g1, const Dom &g2, const Map &m, const EqMap &q, const std::vector<V> &f)
  {
    std::vector<V> r; const int ne = (int)f.size() - q.nv1 + q.nv2;
    for (int e = 0; e < ne; ++e)
    {
      if (e >= q.nv2) { r.push_back(image(g1, g2, m, f[e - q.nv2 + q.nv1])); continue; }
      int d1; I3 e1; double s; m.ed(e, I3{{0, 0, 0}}, d1, e1, s);
      if (d1 < 0) { r.push_back(V(g2.size(), s)); continue; }
      V x = image(g1, g2, m, f[d1]); for (auto &v : x) v *= s; r.push_back(x);
    }
    return r;
  }
  inline State image(const State &a, const Dom &g2, const Map &m, const EqMap &q)
  {
    State b; b.g = g2; b.f = image(a.g, g2, m, q, a.f); b.dt = a.dt; b.unit = a.unit; b.iters = a.iters; b.name = a.name;
    if (!a.flow.c[0].empty()) b.flow = image(a.g, g2, m, a.flow);
    b.G = image(a.g, g2, m, a.G);
    for (auto &x : a.arr)
    {
      if (x.first.compare(0, 9, "vab_relax")) { b.arr[x.first] = image(a.g, g2, m, x.second); continue; }
    }
    for (int d = 0; d < g2.D; ++d)
    {
      int d1; I3 e1; double s; m.ed(d, I3{{0, 0, 0}}, d1, e1, s);
      b.dx[d] = d1 < 0 ? 1.25 : a.dx[d1];
      if (a.arr.count("vab_relax0")) { V x = d1 < 0 ? V(g2.size(), s) : image(a.g, g2, m, a.arr.at("vab_relax" + std::to_string(d1))); if (d1 >= 0) for (auto &v : x) v *= s; b.arr["vab_relax" + std::to_string(d)] = x; }
    }
    return b;
  }
  template <class P> auto tight(P &p, int) -> decltype(p.prs_tol, void()) { p.prs_tol = 1e-11; }
  template <class P> void tight(P &, long) {}
  template <class K, class B> std::vector<V> runk(const State &a, int steps)
  {
    using run_t = typename bind_bc<concurr::serial, typename K::base_t, B>::type;
    Setup s; s.D = a.g.D; s.n = a.g.n; s.dt = a.dt; s.iters = a.iters; for (int d = 0; d < 3; ++d) s.dx[d] = a.dx[d];
    const Dom &g = a.g;
    s.psi = [&](int e, int i, int j, int k) { return a.f[e][g.at({i, j, k})]; };
    s.gc = [&](int d, int i, int j, int k) { return a.flow.c[d][g.eat(d, {i, j, k})]; };
    s.G = [&](int i, int j, int k) { return a.G[g.at({i, j, k})]; };
    s.arr = [&](const std::string &n, int i, int j, int k) { return a.arr.at(n)[g.at({i, j, k})]; };
    for (auto &x : a.arr) s.arrs.push_back(x.first);
    auto p = make_params<K>(s); tight(p, 0);
    run_t r(p); init<K>(r, s);
    r.advance(steps * a.unit);
    std::vector<V> o; for (int e = 0; e < (int)K::ct::n_eqns; ++e) o.push_back(read(r.advectee(e)));
    return o;
  }
  // fields of the result on the second domain against the image of those on the first
  template <class K1, class B1, class K2, class B2>
  void comparek(suite::Ctx &c, const std::string &key, const State &a, I3 n2, const Map &m, EqMap q, int steps, double tol, bool prs = false)
  {
    const Dom g2 = dom_of<B2>(n2);
    if (!c.item(suite::fmt("%s %s, %d passes, %d steps, %s", a.g.name().c_str(), m.name.c_str(), a.iters, steps, a.name.c_str()))) return;
    const State b = image(a, g2, m, q);
    std::vector<V> x = runk<K1, B1>(a, steps), y = runk<K2, B2>(b, steps), want = image(a.g, g2, m, q, x);
    c.step(2 * steps); ++c.traces; for (auto &v : x) c.state(v);
    double sc = 0; for (auto &v : a.f) sc = std::max(sc, maxabs(v)); for (auto &v : x) for (double z : v) if (std::isfinite(z)) sc = std::max(sc, std::fabs(z));
    for (auto &v : x) for (double z : v) if (!std::isfinite(z)) { ++c.extra["results_not_finite"]; break; }
    double worst = 0; int we = -1, wp = -1;
    for (size_t e = 0; e < want.size(); ++e) for (size_t i = 0; i < want[e].size(); ++i)
    { double d = std::fabs(want[e][i] - y[e][i]); if (!(d <= tol * sc) && !(std::isnan(want[e][i]) && std::isnan(y[e][i])) && (we < 0 || !(d <= worst))) { worst = d; we = e; wp = i; } }
    if (we < 0) return;
    double sens = 0;
    for (int s = 1; s <= 6; ++s)
    {
      State a2 = a; for (auto &v : a2.f) { for (size_t i = 0; i < v.size(); ++i) v[i] *= 1 + ((hsh(i, s, 5, 6) & 1) ? 4.6e-16 : -4.6e-16); V w = v; a.g.each([&](I3 i) { v[a.g.at(i)] = w[a.g.at(a.g.rep(i))]; }); }
      auto o = runk<K1, B1>(a2, steps);
      for (size_t e = 0; e < o.size(); ++e) for (size_t i = 0; i < o[e].size(); ++i) sens = std::max(sens, std::fabs(o[e][i] - x[e][i]));
    }
    if (std::isfinite(worst) && worst <= 30 * sens) { ++c.extra["results_left_out_as_ill_conditioned"]; return; }
    (void)prs;
    std::string in; for (size_t e = 0; e < a.f.size(); ++e) in += suite::fmt(" field %zu ", e) + suite::show(a.f[e]);
    c.viol(key, suite::fmt("%s %s: field %d point %d is %.17g, its image %.17g (sensitivity %.2g); %s;%s; %d passes, %d steps", a.g.name().c_str(), m.name.c_str(), we, wp, want[we][wp], y[we][wp], sens, a.name.c_str(), in.c_str(), a.iters, steps));
  }
}
