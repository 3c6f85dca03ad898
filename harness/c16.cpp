// C16: pressure solvers keep the advecting velocities free of divergence to the requested tolerance, change them by a
// pressure gradient only, and keep prescribed velocities at the ends of the domain. Reference: the projection computed by
// direct elimination, in a model of the whole step (advection with given Courant numbers taken from the library, C10).
#include "../mc/proj.hpp"
#ifndef PART
#define PART 0
#endif
namespace sl = libmpdataxx::solvers;

namespace
{
  template <class ct> struct force_p : sl::mpdata_rhs_vip_prs<ct>
  {
    using parent_t = sl::mpdata_rhs_vip_prs<ct>; using parent_t::parent_t;
    void update_rhs(libmpdataxx::arrvec_t<typename parent_t::arr_t> &rhs, const typename parent_t::real_t &dt, const int &at)
    {
      parent_t::update_rhs(rhs, dt, at);
      auto &I = this->ijk;
      rhs.at(0)(I) += cor * this->state(ct::n_eqns - 1)(I);
      rhs.at(ct::n_eqns - 1)(I) += -cor * this->state(0)(I) + .125 * cor;
    }
  };
  template <int D, int PRS, long O, int SCH, int VAB, int K> struct ctP : CT<D, D + 1, O>
  {
    enum { rhs_scheme = SCH, vip_vab = VAB, prs_scheme = PRS, prs_k_iters = K };
    using ix = ixv<D>;
  };

  template <int D, int PRS, long O, int SCH, int VAB, class B, int K = 4> struct Check
  {
    using ct = ctP<D, PRS, O, SCH, VAB, K>; using base_t = log_t<force_p<ct>>;
    enum { NE = D + 1 };
    const Dom &g; Adv<D, O, B> adv{g};
    bool operator()(suite::Ctx &c, const Probe &p, double tol, const std::string &id)
    {
      Setup s; s.D = D; s.n = g.n; s.iters = p.iters; s.dt = p.dt; for (int d = 0; d < 3; ++d) s.dx[d] = p.dx[d];
      auto q = base_params<base_t>(s); q.prs_tol = tol; set_pc(q, 0);
      Run<base_t, B> run; run(g, p, q);
      int vix[3] = {0, 1, 2}; double big = 1;
      size_t N = g.size(); double dt = p.dt;
      std::vector<V> w; if (VAB == 2) { w.assign(D, p.coeff); for (auto &v : w) for (double &x : v) x = 1 + .5 * dt * x; }
      Proj P0(g, p.dx, p.G, {}), P1(g, p.dx, p.G, w);
      if (P0.ambiguous) c.extra["projections_not_unique"]++;
      auto st = p.psi0;
      std::vector<V> edge(st.begin(), st.begin() + D);
      for (int d = 0; d < D; ++d) for (size_t i = 0; i < N; ++i) g.each([&](I3 x) { if (Dom::wall(g.l[d]) && x[d] == 0) edge[d][g.at(x)] = 0; if (Dom::wall(g.r[d]) && x[d] == g.n[d] - 1) edge[d][g.at(x)] = 0; });
      std::string why = gcs<base_t, -1>(c, g, p, run.log, vix, big);
      if (!(big < 1e2)) { c.extra["left_out_growing_without_bound"]++; return true; }
      // 1. divergence of the velocities and of the Courant numbers of every step, and the prescribed values at the ends
      for (size_t n = 0; why.empty() && n <= run.log.size(); ++n)
      {
        auto &S = n < run.log.size() ? run.log[n].st : run.fin;
        std::vector<V> v(S.begin(), S.begin() + D);
        double lim = tol / dt * 1.0001 + 1e-12 * big;
        V dv = P0.div(v);
        for (size_t i = 0; why.empty() && i < N; ++i) if (!(std::fabs(dv[i]) <= lim)) why = suite::fmt("divergence at point %zu after %zu steps is %g, tolerance %g", i, n, dv[i], tol / dt);
        c.extra["max_divergence_over_tolerance_percent"] = std::max<uint64_t>(c.extra["max_divergence_over_tolerance_percent"], 100 * maxabs(dv) / (tol / dt + 1e-13));
        g.each([&](I3 x) { for (int d = 0; d < D; ++d) if (why.empty() && P0.edge(d, x) && std::fabs(v[d][g.at(x)] - edge[d][g.at(x)]) > 1e-12) why = suite::fmt("velocity %d at the end point (%d %d %d) is %g instead of %g after %zu steps", d, x[0], x[1], x[2], v[d][g.at(x)], edge[d][g.at(x)], n); });
        if (n < run.log.size()) g.each([&](I3 x) {
          double s = 0; for (int d = 0; d < D; ++d) { I3 a = x; a[d]--; s += at<D>(run.log[n].gc[0][d], x) - at<D>(run.log[n].gc[0][d], a); }
          if (p.G.size()) s /= p.G[g.at(x)];
          if (why.empty() && !(std::fabs(s) <= (n ? 2 : 1) * (tol * 1.0001) + 1e-12 * big)) why = suite::fmt("divergence of the Courant numbers at (%d %d %d) in step %zu is %g, tolerance %g", x[0], x[1], x[2], n + 1, s, tol);
        });
      }
      // 2. the whole run
      if (why.empty() && tol < 1e-9 && !P0.ambiguous && !P1.ambiguous)
      {
        std::vector<V> R(NE, V(N, 0.)), f(D, V(N, 0.));
        auto vel = [&] { return std::vector<V>(st.begin(), st.begin() + D); };
        auto setv = [&](const std::vector<V> &v) { for (int d = 0; d < D; ++d) st[d] = v[d]; };
        auto calc = [&] { for (size_t i = 0; i < N; ++i) { R[0][i] = p.cor * st[NE - 1][i]; R[NE - 1][i] = -p.cor * st[0][i] + .125 * p.cor; } };
        auto add = [&](double a) { for (int e = 0; e < NE; ++e) for (size_t i = 0; i < N; ++i) st[e][i] += a * R[e][i]; };
        bool ok; { auto v = vel(); ok = P0(v, edge); setv(v); }
        if (SCH == trapez) calc();
        if (VAB == 2) for (int d = 0; d < D; ++d) for (size_t i = 0; i < N; ++i) f[d][i] = -p.coeff[i] * (st[d][i] - p.relax[d][i]);
        { V phi(N, 0.); for (int d = 0; d < D; ++d) for (size_t i = 0; i < N; ++i) phi[i] -= .5 * st[d][i] * st[d][i]; auto q = P0.grad(phi); for (int d = 0; d < D; ++d) for (size_t i = 0; i < N; ++i) f[d][i] -= q[d][i]; }
        for (size_t n = 0; ok && why.empty() && n <= run.log.size(); ++n)
        {
          auto &cmp = n < run.log.size() ? run.log[n].st : run.fin; double worst = 0;
          for (int e = 0; e < NE; ++e) for (size_t i = 0; i < N; ++i)
          {
            big = std::max(big, std::fabs(st[e][i]));
            double d = std::fabs(cmp[e][i] - st[e][i]);
            if (!(d <= 1e-7 * big) && !(d <= worst)) { worst = d; why = suite::fmt("equation %d point %zu after %zu steps is %.12g instead of %.12g", e, i, n, cmp[e][i], st[e][i]); }
          }
          for (auto &v : cmp) c.state(v);
          if (n == run.log.size() || !why.empty()) break;
          st = cmp; // (keeps the small errors of the iterations from piling up)
          if (VAB == 1) for (int d = 0; d < D; ++d) for (size_t i = 0; i < N; ++i) f[d][i] -= 2 * p.coeff[i] * (st[d][i] - p.relax[d][i]);
          if (SCH == euler_a) calc();
          if (SCH == euler_b) { calc(); add(dt); }
          if (SCH == trapez) add(dt / 2);
          for (int d = 0; d < D; ++d) for (size_t i = 0; i < N; ++i) st[d][i] += .5 * dt * f[d][i];
          for (int e = 0; e < NE; ++e) st[e] = adv(st[e], p, run.log[n].gc);
          if (SCH == euler_a) add(dt);
          if (SCH == trapez) { calc(); add(dt / 2); }
          for (int d = 0; d < D; ++d) for (size_t i = 0; i < N; ++i) { f[d][i] = -st[d][i]; if (VAB == 2) st[d][i] += .5 * dt * p.coeff[i] * p.relax[d][i]; }
          { auto v = vel(); ok = P1(v, edge); setv(v); }
          for (int d = 0; d < D; ++d) for (size_t i = 0; i < N; ++i) f[d][i] = (f[d][i] + st[d][i]) / (.5 * dt);
        }
        if (!ok) c.extra["without_solution"]++;
        c.traces++;
      }
      else for (auto &r : run.log) for (auto &v : r.st) c.state(v);
      if (why.empty()) return true;
      c.viol("prs:" + c.name, id + ": " + why);
      return false;
    }
  };
  // what flows through the ends of the domain: nothing, or a uniform current
  template <int D, int PRS, long O, int SCH, int VAB, class B, int K = 4> void go(suite::Ctx &c, I3 n, bool through)
  {
    Dom g = dom_of<B>(n); Check<D, PRS, O, SCH, VAB, B, K> chk{g};
    V G = isset(O, nug) ? density(g) : V();
    if (G.size() && D == 2) g.each([&](I3 x) { I3 r = g.rep(x); G[g.at(x)] = 1.25 - .125 * r[1] + .0625 * (r[0] % 2); });
    std::vector<double> tols{1e-10, 1e-2, 1e-5};
    std::vector<std::vector<int>> parts{{2}, {1, 2}, {3}};
    int m = 0, pts = g.distinct();
    // one velocity component deviates at one point; irregular states
    for (int e = 0; e <= D; ++e) for (int q = 0; q < pts + (c.thorough ? 16 : 8); ++q)
    {
      if (e == D && q < pts) continue;
      for (int var = 0; var < (c.thorough ? 8 : D == 2 ? 4 : 2); ++var, ++m)
      {
        double tol = tols[(q + var + e) % (c.thorough ? 3 : 3)]; if (q % 2 || q >= pts) tol = 1e-10;
        std::string id = suite::fmt("component %d state %d variant %d", e, q, var);
        if (!c.item(id)) continue;
        Probe p; p.G = G; p.dt = var % 2 ? .5 : .25; p.dx[0] = 1; p.dx[1] = 1.5; p.dx[2] = .8; if (var & 1) { p.dx[0] = .9; p.dx[1] = .7; p.dx[2] = 1.3; }
        p.parts = parts[m % 3]; p.cor = m % 2 ? .25 : 0; p.iters = 2;
        for (int k = 0; k <= D; ++k)
        {
          V d(pts, k == 0 ? .125 : k == D ? 1. : 0.);
          if (q < pts) { if (k == e) d[q] += var & 2 ? -.5 : .75; }
          else for (int i = 0; i < pts; ++i) d[i] += .5 * (u01(i, k, q, e) - .5);
          p.psi0.push_back(spread(g, d));
        }
        for (int d = 0; d < D; ++d) if (!g.cyc(d)) g.each([&](I3 x) { if (x[d] == 0 || x[d] == g.n[d] - 1) p.psi0[d][g.at(x)] = through && d == 0 ? .25 : 0; });
        if (VAB)
        {
          p.coeff.assign(g.size(), 0.); for (int d = 0; d < D; ++d) p.relax[d] = p.coeff;
          g.each([&](I3 x) { I3 r = g.rep(x); uint32_t h = hsh(r[0], r[1], r[2], 40 + var); p.coeff[g.at(x)] = h % 3 ? .25 * (h % 4) : 0; for (int d = 0; d < D; ++d) { if (!g.cyc(d) && (x[d] == 0 || x[d] == g.n[d] - 1)) p.coeff[g.at(x)] = 0; p.relax[d][g.at(x)] = u01(r[0], r[1], r[2], 50 + d) - .5; } });
        }
        if (!chk(c, p, tol, id) && c.enough()) return;
      }
    }
    c.sample(suite::fmt("%s %s absorber %d: %d points", g.name().c_str(), nm(O).c_str(), VAB, pts));
  }
  const char *pname(int p) { return p == sl::mr ? "mr" : p == sl::cr ? "cr" : p == sl::gcrk ? "gcrk" : "pc"; }
#define P_(D, PRS, O, SCH, VAB, B, N0, N1, N2, THR, ...) CASE(suite::fmt("%dD %s %s %s absorber %d %s" #__VA_ARGS__, D, pname(PRS), nm(O).c_str(), sname(SCH), VAB, #B), D * 10, [](suite::Ctx &c) { go<D, PRS, (O), SCH, VAB, B, ##__VA_ARGS__>(c, {{N0, N1, N2}}, THR); });
  using CO = BC<cyc, cyc, opn, opn>; using CR = BC<cyc, cyc, rgd, rgd>; using RC = BC<rgd, rgd, cyc, cyc>; using RO = BC<rgd, rgd, opn, opn>; using CG = BC<cyc, cyc, gsk, gsk>;
  using CCR = BC<cyc, cyc, cyc, cyc, rgd, rgd>; using CRO = BC<cyc, cyc, rgd, rgd, opn, opn>; using RRC = BC<rgd, rgd, rgd, rgd, cyc, cyc>;
#if PART == 0
  P_(2, sl::cr, iga | fct, trapez, 0, C2, 6, 5, 1, false) P_(2, sl::mr, iga | fct, trapez, 0, C2, 6, 5, 1, false) P_(2, sl::gcrk, iga | fct, trapez, 0, C2, 6, 5, 1, false) P_(2, sl::pc, iga | fct, trapez, 0, C2, 6, 5, 1, false)
#elif PART == 1
  P_(2, sl::cr, iga | nug, euler_b, 0, CR, 5, 5, 1, false) P_(2, sl::mr, iga | nug, euler_a, 0, CG, 5, 5, 1, false) P_(2, sl::gcrk, iga | nug, trapez, 0, CR, 5, 5, 1, false) P_(2, sl::pc, iga | nug, trapez, 0, RC, 5, 5, 1, false)
#elif PART == 2
  P_(2, sl::cr, iga, trapez, 2, C2, 5, 5, 1, false) P_(2, sl::mr, iga | fct, trapez, 1, CR, 5, 5, 1, false) P_(2, sl::gcrk, ABS, euler_b, 2, R2, 5, 5, 1, false) P_(2, sl::pc, iga, trapez, 2, CR, 5, 5, 1, false)
#elif PART == 3
  P_(2, sl::cr, iga | fct, trapez, 0, O2, 5, 5, 1, false) P_(2, sl::mr, ABS | fct, trapez, 0, CO, 5, 5, 1, false) P_(2, sl::gcrk, iga | tot, trapez, 0, O2, 5, 6, 1, true) P_(2, sl::pc, iga, trapez, 0, RO, 5, 5, 1, false)
#elif PART == 4
  P_(2, sl::gcrk, iga, trapez, 0, CR, 5, 6, 1, false, 1) P_(2, sl::gcrk, iga | nug, trapez, 2, CR, 6, 5, 1, false, 2) P_(2, sl::gcrk, iga, trapez, 0, R2, 5, 6, 1, false, 3) P_(2, sl::cr, iga, trapez, 2, O2, 5, 5, 1, true)
#elif PART == 5
  P_(3, sl::cr, iga | fct, trapez, 0, C3, 4, 4, 4, false) P_(3, sl::gcrk, iga | nug, trapez, 0, CCR, 4, 4, 4, false)
#elif PART == 6
  P_(3, sl::mr, iga, euler_b, 2, RRC, 4, 4, 4, false) P_(3, sl::pc, ABS, trapez, 0, CRO, 3, 4, 4, false)
#elif PART == 7
  P_(3, sl::gcrk, iga | fct, trapez, 1, O3, 4, 4, 4, false) P_(3, sl::cr, iga | nug, trapez, 2, R3, 4, 4, 4, false)
#endif
}
