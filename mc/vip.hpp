// Solvers that advect the velocities they are advected with: recording of what every step starts with, halo values of
// velocities, single-field advection with given Courant numbers, and the Courant numbers expected of each step.
#pragma once
#include "dom.hpp"
#include "fill.hpp"
#include <memory>
using namespace dom;
using libmpdataxx::solvers::euler_a; using libmpdataxx::solvers::euler_b; using libmpdataxx::solvers::trapez;

namespace
{
  template <int D> using A = blitz::Array<double, D>;
  template <int D> struct Rec { double dt, time; std::vector<std::vector<A<D>>> gc; std::vector<V> st; }; // gc, ndt_gc, ndtt_gc; all states
  template <int D> std::vector<Rec<D>> *logp;
  double cor; // Coriolis-like coupling of the first velocity with the last equation
  template <int D> A<D> el(const A<D> &a, int) { return a; }
  template <int D> double at(const A<D> &a, I3 i) { blitz::TinyVector<int, D> x; for (int d = 0; d < D; ++d) x[d] = i[d]; return a(x); }

  // ------------------------------------------------------------------ user code: records what the step starts with
  size_t log_limit = 0;
  template <class base_t> struct log_t : base_t
  {
    using base_t::base_t;
    enum { D = base_t::n_dims, DIV3 = base_t::div3_mpdata, HALO = base_t::halo };
    void hook_ante_step()
    {
      Rec<D> r; r.dt = this->dt; r.time = this->time;
      auto cp = [](auto &v) { std::vector<A<D>> o; for (size_t d = 0; d < v.size(); ++d) o.push_back(v[d].copy()); return o; };
      r.gc.push_back(cp(this->mem->GC)); if (base_t::div3_mpdata) { r.gc.push_back(cp(this->mem->ndt_GC)); r.gc.push_back(cp(this->mem->ndtt_GC)); }
      for (int e = 0; e < base_t::n_eqns; ++e) { A<D> s(this->state(e)(this->ijk)); r.st.push_back(read(s)); }
      logp<D>->push_back(r);
      if (log_limit && logp<D>->size() > log_limit) throw std::length_error("more steps than expected");
      base_t::hook_ante_step();
    }
  };
  template <class ct> struct force_t : libmpdataxx::solvers::mpdata_rhs_vip<ct>
  {
    using parent_t = libmpdataxx::solvers::mpdata_rhs_vip<ct>; using parent_t::parent_t;
    void update_rhs(libmpdataxx::arrvec_t<typename parent_t::arr_t> &rhs, const typename parent_t::real_t &dt, const int &at)
    {
      parent_t::update_rhs(rhs, dt, at);
      auto &I = this->ijk;
      rhs.at(0)(I) += cor * this->state(ct::n_eqns - 1)(I);
      rhs.at(ct::n_eqns - 1)(I) += -cor * this->state(0)(I) + .125 * cor;
    }
  };
  // single-field advection with given Courant numbers (and their time derivatives)
  template <int D> std::vector<std::vector<A<D>>> *inject;
  template <class ct> struct adv_t : libmpdataxx::solvers::mpdata<ct>
  {
    using parent_t = libmpdataxx::solvers::mpdata<ct>; using parent_t::parent_t;
    void hook_ante_step()
    {
      auto put = [](auto &v, auto &s) { for (size_t d = 0; d < v.size(); ++d) v[d] = s[d]; };
      put(this->mem->GC, inject<ct::n_dims>->at(0));
      if (parent_t::div3_mpdata) { put(this->mem->ndt_GC, inject<ct::n_dims>->at(1)); put(this->mem->ndtt_GC, inject<ct::n_dims>->at(2)); }
      parent_t::hook_ante_step();
    }
  };
  template <int D, long O> struct ctA : CT<D, 1, O> { enum { sptl_intrp = libmpdataxx::solvers::aver2, tmprl_extrp = libmpdataxx::solvers::linear2 }; };
  // velocities and a tracer; DEN: momenta and a depth
  template <int D, bool DEN> struct ixd : ixv<D> {};
  template <> struct ixd<1, true> { enum { u, h, vip_i = u, vip_den = h }; };
  template <> struct ixd<2, true> { enum { u, w, h, vip_i = u, vip_j = w, vip_den = h }; };
  template <> struct ixd<3, true> { enum { u, v, w, h, vip_i = u, vip_j = v, vip_k = w, vip_den = h }; };
  template <int D, int SCH, long O, int VAB, bool VD, bool DEN> struct ctF : CT<D, D + 1, O, VD>
  {
    enum { rhs_scheme = SCH, vip_vab = VAB, hint_norhs = D == 3 ? 1 << 1 : 0 };
    using ix = ixd<D, DEN>;
  };

  struct Probe { std::vector<V> psi0; double dt, dx[3]; std::vector<int> parts; V G, coeff, relax[3]; int iters = 2; double eps = 0, cor = 0, maxc = .5; };

  // halo values of velocities: linear continuation beyond open ends and walls (1D: as for scalars)
  struct Halo
  {
    const Dom &g;
    double scalar(const V &s, I3 i) const
    {
      for (int d = 0; d < g.D; ++d)
      {
        if (g.cyc(d)) i[d] = cy(i[d], g.n[d]);
        else if (i[d] < 0) i[d] = g.l[d] == 'o' ? 0 : -i[d];
        else if (i[d] > g.n[d] - 1) i[d] = g.r[d] == 'o' ? g.n[d] - 1 : 2 * (g.n[d] - 1) - i[d];
      }
      return s[g.at(i)];
    }
    double pres(const V &s, I3 i) const
    {
      if (g.D == 1) return scalar(s, i);
      for (int d = 0; d < g.D; ++d)
      {
        if (g.cyc(d)) { i[d] = cy(i[d], g.n[d]); continue; }
        int last = g.n[d] - 1; bool lo = i[d] < 0, hi = i[d] > last; if (!lo && !hi) continue;
        int m = lo ? -i[d] : i[d] - last, in = lo ? 1 : -1, e = lo ? 0 : last; char b = lo ? g.l[d] : g.r[d];
        I3 a = i, c = i; a[d] = e;
        if (b == 'o') { c[d] = e + in; return (m + 1) * pres(s, a) - m * pres(s, c); }
        c[d] = e + m * in; return 2 * pres(s, a) - pres(s, c);
      }
      return s[g.at(i)];
    }
  };
  template <int D> std::string gc_differs(const Dom &g, const Probe &p, const std::vector<A<D>> &got, const std::vector<V> &vel, double dt, int halo, const char *what, double big)
  {
    Halo H{g}; double worst = 0; std::string why;
    for (int d = 0; d < D; ++d)
    {
      I3 lo{{0, 0, 0}}, hi{{0, 0, 0}}, e; for (int q = 0; q < D; ++q) { lo[q] = 0; hi[q] = g.n[q] - 1; }
      // along its direction: all the edges the scheme may look at
      lo[d] = g.cyc(d) || D > 1 ? -halo : -1; hi[d] = g.n[d] - 2 + (g.cyc(d) || D > 1 ? halo : 1);
      for (e[0] = lo[0]; e[0] <= hi[0]; ++e[0]) for (e[1] = lo[1]; e[1] <= hi[1]; ++e[1]) for (e[2] = lo[2]; e[2] <= hi[2]; ++e[2])
      {
        I3 f = e; f[d]++;
        double a = H.pres(vel[d], e), b = H.pres(vel[d], f);
        if (p.G.size()) { a *= H.scalar(p.G, e); b *= H.scalar(p.G, f); }
        double w = dt / p.dx[d] * .5 * (a + b), x = at<D>(got[d], e);
        if (!(std::fabs(w - x) <= 1e-12 * big)) if (!(std::fabs(w - x) <= worst)) { worst = std::fabs(w - x); why = suite::fmt("%s of direction %d at the edge right of (%d %d %d) is %.17g instead of %.17g", what, d, e[0], e[1], e[2], x, w); if (std::isnan(x)) return why; }
      }
    }
    return why;
  }

  template <class base_t, class B> struct Run
  {
    enum { D = base_t::n_dims, NE = base_t::n_eqns };
    std::vector<Rec<D>> log; std::vector<V> fin;
    template <class P> void operator()(const Dom &g, const Probe &p, P q)
    {
      using run_t = typename bind_bc<concurr::serial, base_t, B>::type;
      logp<D> = &log; cor = p.cor;
      fill_::on_new = 0xff;
      run_t r(q);
      for (int e = 0; e < NE; ++e) fill(r.advectee(e), [&](int i, int j, int k) { return p.psi0[e][g.at({i, j, k})]; });
      if (p.G.size()) fill(r.g_factor(), [&](int i, int j, int k) { return p.G[g.at({i, j, k})]; });
      if (p.coeff.size())
      {
        fill(r.vab_coefficient(), [&](int i, int j, int k) { return p.coeff[g.at({i, j, k})]; });
        for (int d = 0; d < D; ++d) fill(r.vab_relaxed_state(d), [&](int i, int j, int k) { return p.relax[d][g.at({i, j, k})]; });
      }
      for (int n : p.parts) r.advance(n);
      for (int e = 0; e < NE; ++e) fin.push_back(read(r.advectee(e)));
      fill_::on_new = -1;
    }
  };
  // the Courant numbers of every recorded step against the velocities the steps started with
  template <class base_t, int DEN> std::string gcs(suite::Ctx &c, const Dom &g, const Probe &p, const std::vector<Rec<base_t::n_dims>> &log, const int *vix, double &big)
  {
    enum { D = base_t::n_dims };
    auto vel = [&](const std::vector<V> &st) { std::vector<V> v; for (int d = 0; d < D; ++d) { v.push_back(st[vix[d]]); if (DEN >= 0) for (size_t i = 0; i < v[d].size(); ++i) { double h = st[DEN][i]; v[d][i] = p.eps == 0 || h > p.eps ? v[d][i] / h : 0; } } return v; };
    for (size_t n = 0; n < log.size(); ++n)
    {
      auto v0 = vel(log[n].st), v1 = n ? vel(log[n - 1].st) : v0, v2 = n > 1 ? vel(log[n - 2].st) : v1;
      double dt = log[n].dt, d0 = n ? log[n - 1].dt : 0, d1 = n > 1 ? log[n - 2].dt : 0, beta = n ? dt / (2 * d0) : 0;
      for (auto &v : v0) for (double x : v) big = std::max(big, std::fabs(x) * std::max(1., dt / std::min(p.dx[0], std::min(p.dx[1], p.dx[2]))));
      if (!(big < 1e3)) { c.extra["left_out_growing_without_bound"]++; return ""; }
      std::vector<V> x = v0; for (int d = 0; d < D; ++d) for (size_t i = 0; i < x[d].size(); ++i) x[d][i] = (1 + beta) * v0[d][i] - beta * v1[d][i];
      std::string why = gc_differs<D>(g, p, log[n].gc[0], x, dt, base_t::HALO, "Courant number", big * (1 + beta));
      if (why.empty() && base_t::DIV3 && n > 0)
      {
        for (int d = 0; d < D; ++d) for (size_t i = 0; i < x[d].size(); ++i) x[d][i] = dt * (v0[d][i] - v1[d][i]) / d0;
        why = gc_differs<D>(g, p, log[n].gc[1], x, dt, base_t::HALO, "time derivative of the Courant number", big * (1 + dt / d0));
        if (why.empty() && n > 1)
        {
          for (int d = 0; d < D; ++d) for (size_t i = 0; i < x[d].size(); ++i) x[d][i] = dt * dt * ((v0[d][i] - v1[d][i]) / d0 - (v1[d][i] - v2[d][i]) / d1) / (.5 * (d0 + d1));
          why = gc_differs<D>(g, p, log[n].gc[2], x, dt, base_t::HALO, "second time derivative of the Courant number", big * 10);
        }
      }
      c.step();
      if (!why.empty()) return suite::fmt("step %zu: ", n + 1) + why;
    }
    return "";
  }
  template <int D, long O, class B, class ctx = ctA<D, O>> struct Adv
  {
    using adv_run_t = typename bind_bc<concurr::serial, adv_t<ctx>, B>::type;
    const Dom &g;
    std::unique_ptr<adv_run_t> adv_run; V adv_G; int adv_it = 0;

    V operator()(const V &psi, const Probe &p, std::vector<std::vector<A<D>>> &gc)
    {
      if (!adv_run || adv_it != p.iters || adv_G != p.G)
      {
        Setup s; s.D = D; s.n = g.n; s.iters = p.iters;
        adv_run.reset(new adv_run_t(base_params<adv_t<ctx>>(s))); adv_it = p.iters; adv_G = p.G;
        for (int d = 0; d < D; ++d) fill(adv_run->advector(d), [&](int, int, int) { return 0.; });
        if (p.G.size()) fill(adv_run->g_factor(), [&](int i, int j, int k) { return p.G[g.at({i, j, k})]; });
      }
      inject<D> = &gc;
      fill(adv_run->advectee(), [&](int i, int j, int k) { return psi[g.at({i, j, k})]; });
      adv_run->advance(1);
      return read(adv_run->advectee());
    }
  };
  V scaled(V v, double a, double b) { for (double &x : v) x = a * x + b; return v; }
  const char *sname(int s) { return s == euler_a ? "euler_a" : s == euler_b ? "euler_b" : "trapez"; }
}
