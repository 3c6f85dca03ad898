// C22: advecting velocities are carried to the middle of the step and averaged to the cell edges with the documented
// weights, and absorbers relax them with the documented factors. Reference: the recurrences written out, with the
// library's homogeneous advection (of a single field with given Courant numbers, decided by C10) as ADV.
#include "../mc/vip.hpp"
#ifndef PART
#define PART 0
#endif

namespace
{
  template <int D, int SCH, long O, int VAB, bool VD, bool DEN, class B> struct Check
  {
    using ct = ctF<D, SCH, O, VAB, VD, DEN>;
    using base_t = log_t<force_t<ct>>;
    enum { NE = D + 1 };
    const Dom &g;
    Adv<D, O, B> adv{g};
    bool operator()(suite::Ctx &c, const Probe &p, const std::string &id)
    {
      Setup s; s.D = D; s.n = g.n; s.iters = p.iters; s.dt = p.dt; s.max_courant = p.maxc; for (int d = 0; d < 3; ++d) s.dx[d] = p.dx[d];
      auto q = base_params<base_t>(s); q.vip_eps = p.eps;
      Run<base_t, B> run; run(g, p, q);
      int vix[3] = {0, 1, 2}; double big = 1;
      std::string why = gcs<base_t, DEN ? D : -1>(c, g, p, run.log, vix, big);
      // the fields
      auto st = p.psi0; size_t N = st[0].size();
      std::vector<V> R(NE, V(N, 0.)), f(D, V(N, 0.));
      auto calc = [&] { for (size_t i = 0; i < N; ++i) { R[0][i] = p.cor * st[NE - 1][i]; R[NE - 1][i] = -p.cor * st[0][i] + .125 * p.cor; } };
      auto add = [&](double w) { for (int e = 0; e < NE; ++e) if (!isset(ct::hint_norhs, bit(e))) for (size_t i = 0; i < N; ++i) st[e][i] += w * R[e][i]; };
      auto rate = [&](double w) { if (p.coeff.size()) for (int d = 0; d < D; ++d) for (size_t i = 0; i < N; ++i) f[d][i] = -w * p.coeff[i] * (st[d][i] - p.relax[d][i]); };
      if (SCH == trapez) calc();
      if (VAB == 2) rate(1);
      int nst = 0; for (int n : p.parts) nst += n;
      if (why.empty() && !VD && (int)run.log.size() != nst) why = suite::fmt("%zu steps instead of %d", run.log.size(), nst);
      for (size_t n = 0; why.empty() && n <= run.log.size() && big < 1e3; ++n)
      {
        auto &cmp = n < run.log.size() ? run.log[n].st : run.fin;
        for (int e = 0; why.empty() && e < NE; ++e) for (size_t i = 0; i < N; ++i)
        {
          big = std::max(big, std::fabs(st[e][i]));
          if (!(std::fabs(cmp[e][i] - st[e][i]) <= 1e-11 * big)) { why = suite::fmt("equation %d point %zu after %zu steps is %.17g instead of %.17g", e, i, n, cmp[e][i], st[e][i]); break; }
        }
        for (auto &v : st) c.state(v);
        if (n == run.log.size() || !why.empty()) break;
        double dt = run.log[n].dt;
        if (VAB == 1) rate(2);
        if (SCH == euler_a) calc();
        if (SCH == euler_b) { calc(); add(dt); }
        if (SCH == trapez) add(dt / 2);
        for (int d = 0; d < D; ++d) for (size_t i = 0; i < N; ++i) { st[d][i] += .5 * dt * f[d][i]; f[d][i] = 0; }
        for (int e = 0; e < NE; ++e) st[e] = adv(st[e], p, run.log[n].gc);
        if (SCH == euler_a) add(dt);
        if (SCH == trapez) { calc(); add(dt / 2); }
        if (VAB == 2)
        {
          for (int d = 0; d < D; ++d) for (size_t i = 0; i < N; ++i) st[d][i] = (st[d][i] + .5 * dt * p.coeff[i] * p.relax[d][i]) / (1 + .5 * dt * p.coeff[i]);
          rate(1);
        }
      }
      if (!(big < 1e3)) { c.extra["left_out_growing_without_bound"]++; return true; }
      c.traces++;
      if (why.empty()) return true;
      c.viol("vip:" + c.name, id + ": " + why);
      return false;
    }
  };

  // all = every field of the first velocity over 3 values
  template <int D, int SCH, long O, int VAB, bool VD, bool DEN, class B> void go(suite::Ctx &c, I3 n, bool all)
  {
    Dom g = dom_of<B>(n); Check<D, SCH, O, VAB, VD, DEN, B> chk{g};
    auto F = all ? all_fields(g, {0, .5, -.75}, true) : impulses(g, .125, .75, -.5, c.thorough && D < 3, c.thorough ? 24 : 12, true);
    V G = isset(O, nug) ? density(g) : V();
    std::vector<std::vector<int>> parts = VD ? std::vector<std::vector<int>>{{2}, {3}} : std::vector<std::vector<int>>{{3}, {1, 2}, {4}, {2, 1, 1}};
    int m = 0;
    for (size_t a = 0; a < F.size(); ++a) for (int var = 0; var < (all ? (c.thorough ? 8 : 2) : D == 3 ? 4 : 8); ++var)
    {
      std::string id = suite::fmt("field %zu variant %d", a, var);
      if (!c.item(id)) { ++m; continue; }
      Probe p; p.G = G; p.dt = var % 2 ? .5 : 1; p.dx[0] = 1; p.dx[1] = 1.5; p.dx[2] = .8; if (var & 1) { p.dx[0] = .9; p.dx[1] = .7; p.dx[2] = 1.3; }
      p.parts = parts[m % parts.size()]; p.cor = var & 2 ? .25 : 0; p.iters = 1 + (m / 3) % 2 + (isset(O, iga) ? 0 : 1); if (isset(O, iga)) p.iters = 2;
      for (int e = 0; e < D; ++e) p.psi0.push_back(scaled(F[(a + 5 * e) % F.size()], e ? .3 : .4, e ? .05 : .1));
      p.psi0.push_back(scaled(F[(a * 7 + 3 + var) % F.size()], .5, DEN ? 1.5 : .25));
      if (DEN && var >= 2)
      { // layers that vanish in places
        p.eps = .3; for (size_t i = 0; i < p.psi0[D].size(); ++i) { g.each([&](I3 x) { I3 r = g.rep(x); if (hsh(r[0], r[1], r[2], a) % 4 == 0) p.psi0[D][g.at(x)] = .0625 * (hsh(r[0], r[1], r[2], a) % 3); }); break; }
        p.cor = 0;
      }
      if (VAB)
      {
        p.coeff.assign(g.size(), 0.); for (int d = 0; d < D; ++d) p.relax[d] = p.coeff;
        g.each([&](I3 x) { I3 r = g.rep(x); uint32_t h = hsh(r[0], r[1], r[2], 40 + var); p.coeff[g.at(x)] = h % 3 ? .25 * (h % 4) : 0; for (int d = 0; d < D; ++d) p.relax[d][g.at(x)] = u01(r[0], r[1], r[2], 50 + d) - .5; });
      }
      ++m;
      if (!chk(c, p, id) && c.enough()) return;
    }
    c.sample(suite::fmt("%s %s absorber %d: %zu fields", g.name().c_str(), nm(O).c_str(), VAB, F.size()));
  }
  // the solvers built on top of it: only the Courant numbers
  template <class K> struct Logged : K { using base_t = log_t<typename K::base_t>; };
  template <class K, int DEN, class B> void top(suite::Ctx &c, I3 n)
  {
    using LK = Logged<K>; using base_t = typename LK::base_t; enum { D = K::ct::n_dims, NE = K::ct::n_eqns };
    Dom g = dom_of<B>(n);
    auto F = impulses(g, .125, .5, -.25, false, 4, true);
    V G = isset(K::ct::opts, nug) ? density(g) : V();
    const int vix[3] = {K::ct::ix::vip_i, D > 1 ? K::ct::ix::vip_i + 1 : 0, D > 2 ? K::ct::ix::vip_i + 2 : 0};
    for (size_t a = 0; a < F.size(); ++a)
    {
      if (!c.thorough && F.size() > 14 && a % (F.size() / 12)) continue;
      std::string id = suite::fmt("field %zu", a); if (!c.item(id)) continue;
      Probe p; p.G = G; p.dt = .5; p.dx[0] = 1; p.dx[1] = 1.5; p.dx[2] = .8; p.parts = {2, 1};
      for (int e = 0; e < NE; ++e) { p.psi0.push_back(scaled(F[(a + 5 * e) % F.size()], .3, e == DEN ? 1 : .05)); }
      // (no flow through ends of the domain)
      for (int d = 0; d < D; ++d) if (!g.cyc(d)) g.each([&](I3 x) { if (x[d] == 0 || x[d] == g.n[d] - 1) p.psi0[vix[d]][g.at(x)] = 0; });
      if (K::ct::vip_vab)
      {
        p.coeff.assign(g.size(), 0.); for (int d = 0; d < D; ++d) p.relax[d] = p.coeff;
        g.each([&](I3 x) { I3 r = g.rep(x); p.coeff[g.at(x)] = .25 * (hsh(r[0], r[1], r[2], 40) % 3); });
      }
      Setup s; s.D = D; s.n = g.n; s.dt = p.dt; for (int d = 0; d < 3; ++d) s.dx[d] = p.dx[d];
      auto q = make_params<LK>(s);
      Run<base_t, B> run; 
      run(g, p, q);
      double big = 1;
      std::string why = gcs<base_t, DEN>(c, g, p, run.log, vix, big);
      for (auto &r : run.log) for (auto &v : r.st) c.state(v);
      c.traces++;
      if (!why.empty()) { c.viol("vip:" + c.name, id + ": " + why); if (c.enough()) return; }
    }
    c.sample(suite::fmt("%s: %zu fields", g.name().c_str(), F.size()));
  }
#define V_(D, SCH, O, VAB, VD, DEN, B, N0, N1, N2, ALL) CASE(suite::fmt("%dD %s %s absorber %d adaptive %d den %d %s", D, sname(SCH), nm(O).c_str(), VAB, VD, DEN, #B), D * 10, [](suite::Ctx &c) { go<D, SCH, (O), VAB, VD, DEN, B>(c, {{N0, N1, N2}}, ALL); });
#define TOP(NAME, DEN, B, N0, N1, N2, ...) CASE(std::string(NAME) + " " #B, 15, [](suite::Ctx &c) { top<__VA_ARGS__, DEN, B>(c, {{N0, N1, N2}}); });
  using Om2 = BC<cyc, cyc, opn, opn>; using Rm2 = BC<cyc, cyc, rgd, rgd>; using RO2 = BC<rgd, rgd, opn, opn>; using M3 = BC<cyc, cyc, opn, opn, rgd, rgd>; using N3 = BC<opn, opn, rgd, rgd, cyc, cyc>;
#if PART == 0
  V_(1, euler_a, ABS, 0, false, false, C1, 6, 1, 1, true) V_(1, trapez, iga | fct, 0, false, false, C1, 6, 1, 1, true) V_(1, euler_b, ABS | tot, 0, false, false, O1, 5, 1, 1, true)
#elif PART == 1
  V_(1, trapez, ABS, 0, true, false, C1, 6, 1, 1, true) V_(1, euler_a, iga, 0, true, false, O1, 5, 1, 1, true) V_(1, trapez, ABS | fct, 0, false, true, C1, 6, 1, 1, true) V_(1, euler_a, iga, 0, false, true, O1, 5, 1, 1, true)
#elif PART == 2
  V_(2, trapez, ABS, 0, false, false, C2, 5, 4, 1, false) V_(2, euler_a, iga | fct, 2, false, false, C2, 5, 4, 1, false) V_(2, euler_b, iga, 1, false, false, C2, 5, 4, 1, false) V_(2, trapez, iga | fct | nug, 2, false, false, C2, 4, 5, 1, false)
#elif PART == 3
  V_(2, trapez, iga | fct, 1, false, false, O2, 4, 5, 1, false) V_(2, trapez, ABS | tot, 0, false, false, Om2, 4, 5, 1, false) V_(2, trapez, iga | tot, 2, false, false, RO2, 4, 5, 1, false) V_(2, euler_a, ABS | nug, 0, false, false, Rm2, 5, 4, 1, false)
#elif PART == 4
  V_(2, trapez, iga, 2, true, false, C2, 5, 4, 1, false) V_(2, euler_a, ABS | fct, 1, true, false, C2, 5, 4, 1, false) V_(2, trapez, iga, 0, false, true, C2, 5, 4, 1, false) V_(2, euler_b, ABS | fct, 0, true, true, Om2, 5, 4, 1, false)
#elif PART == 5
  V_(2, trapez, iga | div_2nd | div_3rd, 0, false, false, C2, 5, 5, 1, false) V_(2, euler_a, iga | div_2nd | div_3rd, 0, true, false, C2, 5, 4, 1, false) V_(1, trapez, iga | div_2nd | div_3rd, 0, false, false, C1, 6, 1, 1, true) V_(1, euler_b, iga | div_2nd | div_3rd | fct, 0, true, false, C1, 6, 1, 1, true)
#elif PART == 6
  V_(2, trapez, iga | div_2nd | div_3rd_dt, 0, false, false, C2, 5, 5, 1, false) V_(2, euler_a, iga | div_2nd | div_3rd_dt | nug, 0, true, false, C2, 5, 4, 1, false) V_(2, trapez, iga | div_2nd | div_3rd, 0, false, false, O2, 5, 4, 1, false)
#elif PART == 7
  V_(3, trapez, iga | fct, 2, false, false, C3, 4, 4, 3, false) V_(3, euler_b, ABS, 1, false, false, M3, 4, 3, 4, false)
#elif PART == 8
  V_(3, trapez, iga | nug, 0, true, false, C3, 4, 4, 3, false) V_(3, euler_a, ABS | tot, 0, false, false, N3, 4, 4, 4, false)
#elif PART == 9
  V_(3, trapez, iga | div_2nd | div_3rd, 0, false, false, C3, 4, 4, 4, false) V_(3, euler_a, iga, 0, false, true, M3, 4, 3, 4, false)
#elif PART == 10
  TOP("pressure solver 2D cr", -1, C2, 5, 5, 1, Prs<ctPrs<2, (int)solvers::cr, iga | fct>>) TOP("pressure solver 2D gcrk tot", -1, Rm2, 5, 5, 1, Prs<ctPrs<2, (int)solvers::gcrk, ABS | tot>>) TOP("pressure solver 2D mr absorber", -1, O2, 5, 5, 1, Prs<ctPrs<2, (int)solvers::mr, iga | fct, 2>>)
  TOP("shallow water 1D", 1, C1, 6, 1, 1, Shw<ctShw<1, iga | fct>>) TOP("shallow water 2D", 2, C2, 5, 4, 1, Shw<ctShw<2, iga | fct>>) TOP("shallow water 2D", 2, O2, 5, 4, 1, Shw<ctShw<2, ABS>>)
#elif PART == 11
  TOP("pressure solver 3D cr", -1, C3, 4, 4, 4, Prs<ctPrs<3, (int)solvers::cr, iga | nug>>) TOP("pressure solver 3D gcrk", -1, N3, 4, 4, 4, Prs<ctPrs<3, (int)solvers::gcrk, iga | tot>>)
#endif
}
