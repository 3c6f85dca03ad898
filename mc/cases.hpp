// Solver configurations under test: compile-time parameter packs, user-style solver classes with
// source terms, small set-ups (grid, initial fields, flow) and observation helpers.
// Only the public interface of the library (and the hooks users override) is used.
#pragma once
#include <libmpdata++/solvers/mpdata.hpp>
#include <libmpdata++/solvers/mpdata_rhs.hpp>
#include <libmpdata++/solvers/mpdata_rhs_vip.hpp>
#include <libmpdata++/solvers/mpdata_rhs_vip_prs.hpp>
#include <libmpdata++/solvers/mpdata_rhs_vip_prs_sgs.hpp>
#include <libmpdata++/solvers/shallow_water.hpp>
#include <libmpdata++/solvers/boussinesq.hpp>
#include <libmpdata++/concurr/serial.hpp>
#include <array>
#include <vector>
#include <functional>
#include <cmath>
#include <cstring>
#include <cstdio>
#include <string>

namespace cases
{
  using namespace libmpdataxx;
  enum : long { ABS = opts::abs }; // (a plain 'abs' is ambiguous in user code)
  typedef std::array<int, 3> I3;
  typedef std::vector<double> V;

  // ------------------------------------------------------------------ deterministic "arbitrary" numbers
  inline uint32_t hsh(uint32_t a, uint32_t b, uint32_t c, uint32_t d)
  {
    uint32_t h = 2166136261u;
    for (uint32_t x : {a, b, c, d}) { h ^= x + 0x9e3779b9u + (h << 6) + (h >> 2); h *= 16777619u; h ^= h >> 15; }
    h *= 0x85ebca6bu; h ^= h >> 13; return h;
  }
  inline double u01(int a, int b, int c, int d) { return (hsh(a, b, c, d) & 0xffff) / 65536.; }

  // ------------------------------------------------------------------ boundary-condition packs
  template <bcond::bcond_e... b> struct BC {};
  template <template <class, bcond::bcond_e, bcond::bcond_e, bcond::bcond_e, bcond::bcond_e, bcond::bcond_e, bcond::bcond_e> class C, class S, class P> struct bind_bc;
  template <template <class, bcond::bcond_e, bcond::bcond_e, bcond::bcond_e, bcond::bcond_e, bcond::bcond_e, bcond::bcond_e> class C, class S, bcond::bcond_e a, bcond::bcond_e b>
  struct bind_bc<C, S, BC<a, b>> { using type = C<S, a, b, bcond::null, bcond::null, bcond::null, bcond::null>; };
  template <template <class, bcond::bcond_e, bcond::bcond_e, bcond::bcond_e, bcond::bcond_e, bcond::bcond_e, bcond::bcond_e> class C, class S, bcond::bcond_e a, bcond::bcond_e b, bcond::bcond_e c, bcond::bcond_e d>
  struct bind_bc<C, S, BC<a, b, c, d>> { using type = C<S, a, b, c, d, bcond::null, bcond::null>; };
  template <template <class, bcond::bcond_e, bcond::bcond_e, bcond::bcond_e, bcond::bcond_e, bcond::bcond_e, bcond::bcond_e> class C, class S, bcond::bcond_e a, bcond::bcond_e b, bcond::bcond_e c, bcond::bcond_e d, bcond::bcond_e e, bcond::bcond_e f>
  struct bind_bc<C, S, BC<a, b, c, d, e, f>> { using type = C<S, a, b, c, d, e, f>; };
  constexpr auto cyc = bcond::cyclic, opn = bcond::open, rgd = bcond::rigid, pol = bcond::polar, gsk = bcond::gndsky;
  using C1 = BC<cyc, cyc>; using C2 = BC<cyc, cyc, cyc, cyc>; using C3 = BC<cyc, cyc, cyc, cyc, cyc, cyc>;
  using O1 = BC<opn, opn>; using O2 = BC<opn, opn, opn, opn>; using O3 = BC<opn, opn, opn, opn, opn, opn>;
  using R2 = BC<rgd, rgd, rgd, rgd>; using R3 = BC<rgd, rgd, rgd, rgd, rgd, rgd>;
  template <int D> struct cycl; template <> struct cycl<1> { using type = C1; }; template <> struct cycl<2> { using type = C2; }; template <> struct cycl<3> { using type = C3; };
  template <int D> using CY = typename cycl<D>::type;

  // ------------------------------------------------------------------ set-up data
  struct Setup
  {
    int D = 1;
    I3 n{{6, 1, 1}};
    double dt = 1, dx[3] = {1, 1, 1};
    int iters = 2;
    double max_courant = .5;
    std::function<double(int, int, int, int)> psi;    // (equation, i, j, k)
    std::function<double(int, int, int, int)> gc;     // (direction, i, j, k): flow through the edge i+1/2 of cell (i, j, k)
    std::function<double(int, int, int)> G;
    std::function<double(const std::string &, int, int, int)> arr; // named arrays
    std::vector<std::string> arrs;
  };
  // cyclic index: the first and the last point of a cyclic direction are the same point
  inline int cy(int i, int n) { int p = n - 1; if (p < 1) return 0; i %= p; return i < 0 ? i + p : i; }

  // flow from a potential, hence non-divergent cell by cell; 'wrap' says which directions are cyclic
  struct Flow
  {
    I3 n; int D; double amp; bool wrap[3]; double base[3] = {0, 0, 0};
    int seed = 1;
    double pot(int c, int i, int j, int k) const
    {
      if (wrap[0]) i = cy(i, n[0]); if (D > 1 && wrap[1]) j = cy(j, n[1]); if (D > 2 && wrap[2]) k = cy(k, n[2]);
      // halo rows of non-cyclic directions simply continue the pattern
      return amp * (u01(c + 11 * seed, i + 50, j + 50, D > 2 ? k + 50 : 7) - .5);
    }
    double operator()(int d, int i, int j, int k) const
    {
      if (D == 1) return base[0] + amp * 0;
      if (D == 2) return base[d] + (d == 0 ? pot(0, i, j, 0) - pot(0, i, j - 1, 0) : -(pot(0, i, j, 0) - pot(0, i - 1, j, 0)));
      // D == 3: curl of a potential living on cell edges
      auto A = [&](int c, int ii, int jj, int kk) { return pot(c, ii, jj, kk); };
      if (d == 0) return base[0] + (A(2, i, j, k) - A(2, i, j - 1, k)) - (A(1, i, j, k) - A(1, i, j, k - 1));
      if (d == 1) return base[1] + (A(0, i, j, k) - A(0, i, j, k - 1)) - (A(2, i, j, k) - A(2, i - 1, j, k));
      return base[2] + (A(1, i, j, k) - A(1, i - 1, j, k)) - (A(0, i, j, k) - A(0, i, j - 1, k));
    }
  };

  // ------------------------------------------------------------------ filling and reading arrays of any rank
  template <class A, class F> void fill(A a, F f, std::integral_constant<int, 1>) { for (int i = a.lbound(0); i <= a.ubound(0); ++i) a(i) = f(i, 0, 0); }
  template <class A, class F> void fill(A a, F f, std::integral_constant<int, 2>) { for (int i = a.lbound(0); i <= a.ubound(0); ++i) for (int j = a.lbound(1); j <= a.ubound(1); ++j) a(i, j) = f(i, j, 0); }
  template <class A, class F> void fill(A a, F f, std::integral_constant<int, 3>) { for (int i = a.lbound(0); i <= a.ubound(0); ++i) for (int j = a.lbound(1); j <= a.ubound(1); ++j) for (int k = a.lbound(2); k <= a.ubound(2); ++k) a(i, j, k) = f(i, j, k); }
  template <class T, int D, class F> void fill(blitz::Array<T, D> a, F f) { fill(a, f, std::integral_constant<int, D>()); }
  template <class T, int D> V read(const blitz::Array<T, D> &a0)
  {
    blitz::Array<T, D> a(a0);
    V v; v.reserve(a.numElements());
    // index order, independent of the storage order
    blitz::TinyVector<int, D> lo(a.lbound()), hi(a.ubound());
    if (D == 1) for (int i = lo[0]; i <= hi[0]; ++i) { blitz::TinyVector<int, D> x; x[0] = i; v.push_back(a(x)); }
    if (D == 2) for (int i = lo[0]; i <= hi[0]; ++i) for (int j = lo[1]; j <= hi[1]; ++j) { blitz::TinyVector<int, D> x; x[0] = i; x[1] = j; v.push_back(a(x)); }
    if (D == 3) for (int i = lo[0]; i <= hi[0]; ++i) for (int j = lo[1]; j <= hi[1]; ++j) for (int k = lo[2]; k <= hi[2]; ++k) { blitz::TinyVector<int, D> x; x[0] = i; x[1] = j; x[2] = k; v.push_back(a(x)); }
    return v;
  }

  // ------------------------------------------------------------------ compile-time parameters
  template <int D, int NE, long O, bool VD = false> struct CT : ct_params_default_t
  {
    using real_t = double;
    enum { n_dims = D }; enum { n_eqns = NE }; enum { opts = O }; enum { var_dt = VD };
  };
  template <class B, int DEL> struct Delay : B { enum { delayed_step = DEL }; };
  template <class B> struct Flt : B { using real_t = float; };

  template <class P> void common(P &p, const Setup &s, std::integral_constant<int, 1>) { p.grid_size = {s.n[0]}; p.di = s.dx[0]; }
  template <class P> void common(P &p, const Setup &s, std::integral_constant<int, 2>) { p.grid_size = {s.n[0], s.n[1]}; p.di = s.dx[0]; p.dj = s.dx[1]; }
  template <class P> void common(P &p, const Setup &s, std::integral_constant<int, 3>) { p.grid_size = {s.n[0], s.n[1], s.n[2]}; p.di = s.dx[0]; p.dj = s.dx[1]; p.dk = s.dx[2]; }
  template <class S> typename S::rt_params_t base_params(const Setup &s)
  {
    typename S::rt_params_t p;
    common(p, s, std::integral_constant<int, S::n_dims>());
    p.n_iters = s.iters; p.dt = s.dt; p.max_courant = s.max_courant;
    return p;
  }

  // ------------------------------------------------------------------ kinds of solvers
  // every kind: solver_t, params(Setup), init(run, Setup)
  template <class ct, template <class> class Wrap> struct KindBase {};
  template <class T> struct NoWrap { using type = T; };

  template <class ct_> struct Mpd
  {
    using ct = ct_;
    using base_t = solvers::mpdata<ct>;
    template <class S> static void params(typename S::rt_params_t &, const Setup &) {}
    static constexpr bool prescribed = true;
  };

  // source terms: a coupled pair plus a passive tracer declared to have none
  template <class ct> struct osc_t : solvers::mpdata_rhs<ct>
  {
    using parent_t = solvers::mpdata_rhs<ct>;
    using parent_t::parent_t;
    void update_rhs(libmpdataxx::arrvec_t<typename parent_t::arr_t> &rhs, const typename parent_t::real_t &dt, const int &at)
    {
      parent_t::update_rhs(rhs, dt, at);
      auto a = this->state(0), b = this->state(1);
      auto &I = this->ijk;
      rhs.at(0)(I) += .25 * b(I);
      rhs.at(1)(I) += -.25 * a(I) + .125;
    }
  };
  template <int D, int SCH, long O, bool VD = false> struct ctRhs : CT<D, 3, O, VD> { enum { rhs_scheme = SCH }; enum { hint_norhs = opts::bit(2) }; };
  template <class ct_> struct Rhs
  {
    using ct = ct_; using base_t = osc_t<ct>;
    template <class S> static void params(typename S::rt_params_t &, const Setup &) {}
    static constexpr bool prescribed = true;
  };

  // velocities advected with the flow they define
  template <int D> struct ixv; template <> struct ixv<1> { enum { u, c, vip_i = u, vip_den = -1 }; };
  template <> struct ixv<2> { enum { u, w, c, vip_i = u, vip_j = w, vip_den = -1 }; };
  template <> struct ixv<3> { enum { u, v, w, c, vip_i = u, vip_j = v, vip_k = w, vip_den = -1 }; };
  template <int D, int SCH, long O, int VAB = 0, bool VD = false> struct ctVip : CT<D, D + 1, O, VD>
  {
    enum { rhs_scheme = SCH }; enum { vip_vab = VAB };
    using ix = ixv<D>;
    enum { hint_norhs = (1 << (D + 1)) - 1 };
  };
  template <class ct_> struct Vip
  {
    using ct = ct_; using base_t = solvers::mpdata_rhs_vip<ct>;
    template <class S> static void params(typename S::rt_params_t &, const Setup &) {}
    static constexpr bool prescribed = false;
  };
  template <int D, int PRS, long O, int VAB = 0, int SCH = (int)solvers::trapez, bool VD = false> struct ctPrs : ctVip<D, SCH, O, VAB, VD> { enum { prs_scheme = PRS }; };
  template <class P> auto set_pc(P &p, int) -> decltype(p.pc_iters, void()) { p.pc_iters = 2; }
  template <class P> void set_pc(P &, long) {}
  template <class ct_> struct Prs
  {
    using ct = ct_; using base_t = solvers::mpdata_rhs_vip_prs<ct>;
    template <class S> static void params(typename S::rt_params_t &p, const Setup &) { p.prs_tol = 1e-7; set_pc(p, 0); }
    static constexpr bool prescribed = false;
  };
  template <int D, int SGS, int SD, long O> struct ctSgs : ctPrs<D, (int)solvers::cr, O> { enum { sgs_scheme = SGS }; enum { stress_diff = SD }; };
  template <class P> auto set_eta(P &p, int) -> decltype(p.eta, void()) { p.eta = .05; }
  template <class P> void set_eta(P &, long) {}
  template <class P> auto set_smg(P &p, int) -> decltype(p.smg_c, void()) { p.smg_c = .165; p.c_m = .0856; }
  template <class P> auto set_pr(P &p, int) -> decltype(p.prandtl_num, void()) { p.prandtl_num = .42; }
  template <class P> void set_pr(P &, long) {}
  template <class P> auto set_cd(P &p, int) -> decltype(p.cdrag, void()) { p.cdrag = .1; }
  template <class P> void set_cd(P &, long) {}
  template <class P> void set_smg(P &, long) {}
  template <class ct_> struct Sgs
  {
    using ct = ct_; using base_t = solvers::mpdata_rhs_vip_prs_sgs<ct>;
    template <class S> static void params(typename S::rt_params_t &p, const Setup &) { p.prs_tol = 1e-7; set_eta(p, 0); set_smg(p, 0); set_pr(p, 0); set_cd(p, 0); }
    static constexpr bool prescribed = false;
  };
  // Boussinesq
  template <int D> struct ixb; template <> struct ixb<2> { enum { u, w, tht, vip_i = u, vip_j = w, vip_den = -1 }; };
  template <> struct ixb<3> { enum { u, v, w, tht, vip_i = u, vip_j = v, vip_k = w, vip_den = -1 }; };
  template <int D, bool IMP, long O, int SGS = 0, int SD = 0, int VAB = 0> struct ctBou : CT<D, D + 1, O>
  {
    enum { rhs_scheme = solvers::trapez }; enum { prs_scheme = solvers::cr }; enum { impl_tht = IMP };
    enum { sgs_scheme = SGS }; enum { stress_diff = SD }; enum { vip_vab = VAB };
    using ix = ixb<D>;
  };
  template <class ct_> struct Bou
  {
    using ct = ct_; using base_t = solvers::boussinesq<ct>;
    template <class S> static void params(typename S::rt_params_t &p, const Setup &) { p.prs_tol = 1e-7; p.Tht_ref = 300; p.g = 10; set_smg(p, 0); set_pr(p, 0); set_cd(p, 0); }
    static constexpr bool prescribed = false;
  };
  // shallow water
  template <int D> struct ixs; template <> struct ixs<1> { enum { qx, h, vip_i = qx, vip_den = h }; };
  template <> struct ixs<2> { enum { qx, qy, h, vip_i = qx, vip_j = qy, vip_den = h }; };
  template <int D, long O> struct ctShw : CT<D, D + 1, O>
  {
    enum { rhs_scheme = solvers::trapez }; using ix = ixs<D>; enum { hint_norhs = 1 << D };
  };
  template <class ct_> struct Shw
  {
    using ct = ct_; using base_t = solvers::shallow_water<ct>;
    template <class S> static void params(typename S::rt_params_t &p, const Setup &) { p.g = 1; }
    static constexpr bool prescribed = false;
  };

  template <class K> typename K::base_t::rt_params_t make_params(const Setup &s)
  {
    auto p = base_params<typename K::base_t>(s);
    K::template params<typename K::base_t>(p, s);
    return p;
  }

  template <class K, class Run> void init(Run &r, const Setup &s)
  {
    enum { D = K::ct::n_dims };
    for (int e = 0; e < (int)K::ct::n_eqns; ++e) fill(r.advectee(e), [&](int i, int j, int k) { return s.psi(e, i, j, k); });
    if (K::prescribed) for (int d = 0; d < D; ++d) fill(r.advector(d), [&](int i, int j, int k) { return s.gc(d, i, j, k); });
    if (opts::isset(K::ct::opts, opts::nug)) fill(r.g_factor(), [&](int i, int j, int k) { return s.G(i, j, k); });
    for (auto &a : s.arrs)
    {
      if (a == "vab_coeff") fill(r.vab_coefficient(), [&](int i, int j, int k) { return s.arr(a, i, j, k); });
      else if (a.compare(0, 9, "vab_relax") == 0) fill(r.vab_relaxed_state(a[9] - '0'), [&](int i, int j, int k) { return s.arr(a, i, j, k); });
      else fill(r.sclr_array(a), [&](int i, int j, int k) { return s.arr(a, i, j, k); });
    }
  }
  // everything a user can read
  template <class K, class Run> V observe(Run &r, bool advector = true)
  {
    V v;
    for (int e = 0; e < (int)K::ct::n_eqns; ++e) { V x = read(r.advectee(e)); v.insert(v.end(), x.begin(), x.end()); }
    if (advector) for (int d = 0; d < (int)K::ct::n_dims; ++d)
    { // (edges inside the domain; what lies in halos is not the user's)
      auto a = r.advector(d);
      blitz::TinyVector<int, K::ct::n_dims> lo(a.lbound()), hi(a.ubound());
      for (int x = 0; x < (int)K::ct::n_dims; ++x) if (lo[x] < 0) lo[x] = 0;
      auto b = a(blitz::RectDomain<K::ct::n_dims>(lo, hi));
      V x = read(b); v.insert(v.end(), x.begin(), x.end());
    }
    v.push_back(r.time());
    for (int e = 0; e < (int)K::ct::n_eqns; ++e) { v.push_back(r.min(e)); v.push_back(r.max(e)); }
    return v;
  }
}
