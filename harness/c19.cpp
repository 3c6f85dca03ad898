// C19: output round trip. Every recording function, on every small grid shape, with another value in every cell;
// what is in the files against what the solver held, cell by cell; recorded parameters against those asked for.
#include "../mc/suite.hpp"
#include "../mc/cases.hpp"
#include "../mc/h5.hpp"
#include <libmpdata++/output/hdf5_xdmf.hpp>
#ifdef GNUPLOT
#include <libmpdata++/output/gnuplot.hpp>
#endif
#ifndef PART
#define PART 0
#endif
using namespace cases;

namespace
{
  const std::string out = "out";
  // values: all different, not representable in single precision, of all magnitudes, signs and kinds
  double value(int what, int i, int j, int k)
  {
    double v = 1 + .1 * (i + 3) + 7.3 * (j + 3) + 131.7 * (k + 3) + 3001.9 * what;
    int m = hsh(what, i + 9, j + 9, k + 9) % 12;
    if (m == 0) v *= 1e30; else if (m == 1) v *= 1e-30; else if (m == 2) v = -v; else if (m == 3) v *= 1e-43; else if (m == 4) v *= -1e-10;
    return v;
  }
  double plain(int what, int i, int j, int k) { return 1 + .1 * (i + 3) + 7.3 * (j + 3) + 131.7 * (k + 3) + 3001.9 * what; }
  const int vals_prof = 21, vals_size = 22, vals_scal = 23;
  double fscal(int w) { return plain(vals_scal, w, 2, 1); }
  template <int D, class T, long O> struct ctT : CT<D, 2, O> { using real_t = T; };

  // a user's solver: records everything there is at every record
  template <class base_t> struct user_t : base_t
  {
    using base_t::base_t; using T = typename base_t::real_t; enum { D = base_t::n_dims };
    template <class F> void put(typename base_t::arr_t a, F f) { fill(a, f); }
    std::vector<T> linear(int what) { std::vector<T> v; auto &g = this->mem->grid_size; int nj = D > 1 ? g[D > 1 ? 1 : 0].length() : 1, nk = D > 2 ? g[D > 2 ? 2 : 0].length() : 1; for (int i = 0; i < g[0].length(); ++i) for (int j = 0; j < nj; ++j) for (int k = 0; k < nk; ++k) v.push_back(value(what, i, j, k)); return v; }
    std::vector<T> prof(int n, int what) { std::vector<T> v; for (int i = 0; i < n; ++i) v.push_back(value(what, i, 5, 5)); return v; }
    int last() { return this->mem->grid_size[D - 1].length(); }
    typename base_t::arr_t &tmp() { return this->mem->tmp["user"][0][0]; }
    void start(const typename base_t::advance_arg_t nt)
    {
      base_t::start(nt);
      put(tmp(), [&](int i, int j, int k) { return value(10, i, j, k); });
      auto a = linear(11); this->record_aux_const("c_lin", a.data());
      auto b = prof(7, vals_size); this->record_aux_const("c_size", b.data(), 7);
      this->record_aux_const("c_scal", "c_grp", (T)fscal(0)); this->record_aux_const("c_scal2", "c_grp", (T)fscal(1)); this->record_aux_const("c_root", (T)fscal(2));
      this->record_aux_const("c_str", "c_grp2", std::string("some text")); this->record_aux_const("c_str0", std::string("other"));
      this->record_aux_dsc_const("c_dsc", tmp());
      auto p = prof(last(), vals_prof); this->record_prof_const("c_prof", p.data());
      auto q = prof(last() + 1, vals_prof + 50); this->record_prof_vctr_const("c_profv", q.data());
    }
    void record_all()
    {
      base_t::record_all();
      int t = 100 * (this->timestep + 1);
      put(tmp(), [&](int i, int j, int k) { return value(t + 10, i, j, k); });
      auto a = linear(t + 11); this->record_aux("lin", a.data());
      this->record_aux_dsc("dsc", tmp()); this->record_aux_dsc("srf", tmp(), true); this->record_aux_dsc("dsc2", tmp(), false);
      this->record_aux_halo_hlpr("halo", tmp(), *this->hdfp);
      this->record_aux_dsc("dsc3", tmp());
      this->record_aux_scalar("scal", "grp", (T)fscal(t)); this->record_aux_scalar("scal2", "grp", (T)fscal(t + 1)); this->record_aux_scalar("root", (T)fscal(t + 2));
      auto p = prof(last(), t + vals_prof); this->record_aux_prof("prof", p.data());
      auto q = prof(last() + 1, t + vals_prof + 50); this->record_aux_prof("profv", q.data(), true);
      // what the variables hold at this moment
      for (int e = 0; e < 2; ++e) held->push_back(read(this->mem->advectee(e)));
    }
    static void alloc(typename base_t::mem_t *mem, const int &n_iters) { base_t::alloc(mem, n_iters); base_t::alloc_tmp_sclr(mem, "user", 1); }
    static std::vector<V> *held; int h() const { return this->halo; }
  };
  template <class base_t> std::vector<V> *user_t<base_t>::held;

  template <class T> std::string is(const h5::Set &s, const h5::Dims &d, const std::function<double(int, int, int)> &f, int off = 0)
  {
    if (s.dims != d) { std::string m = "has dimensions"; for (auto x : s.dims) m += ' ' + std::to_string(x); return m; }
    if (!s.is_float || s.bytes != 4) return "is not stored in single precision";
    size_t a = 0;
    for (hsize_t i = 0; i < d[0]; ++i) for (hsize_t j = 0; j < (d.size() > 1 ? d[1] : 1); ++j) for (hsize_t k = 0; k < (d.size() > 2 ? d[2] : 1); ++k, ++a)
    { float w = (float)(T)f((int)i - off, d.size() > 1 ? (int)j - off : 0, d.size() > 2 ? (int)k - off : 0); if (!(s.val[a] == w)) return suite::fmt("holds %.9g at (%d %d %d) instead of %.9g", s.val[a], (int)i - off, (int)j - off, (int)k - off, w); }
    return "";
  }
  template <int D, class T, bool XDMF, long O> void shapes(suite::Ctx &c)
  {
    h5::quiet();
    using ct = ctT<D, T, O>; using K = Mpd<ct>; using S0 = typename K::base_t;
    using S = user_t<typename std::conditional<XDMF, output::hdf5_xdmf<S0>, output::hdf5<S0>>::type>;
    int lo = 3, hi = c.thorough ? (D == 3 ? 8 : 14) : D == 3 ? 6 : 9; if (D == 1) hi *= 3;
    for (int nx = lo; nx <= hi; ++nx) for (int ny = D > 1 ? lo : 1; ny <= (D > 1 ? hi : 1); ++ny) for (int nz = D > 2 ? lo : 1; nz <= (D > 2 ? hi : 1); ++nz)
    {
      if (c.enough()) return;
      std::string id = suite::fmt("%dx%dx%d points", nx, ny, nz); if (!c.item(id)) continue; c.sample(id);
      boost::filesystem::remove_all(out);
      Setup s; s.D = D; s.n = {nx, ny, nz}; s.dt = .3; s.dx[0] = 1.1; s.dx[1] = .7; s.dx[2] = 2.3;
      std::vector<V> held; S::held = &held; int halo; const int steps = 2;
      {
        auto p = base_params<S>(s); p.outdir = out; p.outvars = {{0, {"a", "1"}}, {1, {"b", "1"}}};
        typename bind_bc<concurr::serial, S, CY<D>>::type r(p);
        // (the flow is at rest: the initial values, of all magnitudes, stay)
        for (int e = 0; e < 2; ++e) fill(r.advectee(e), [&](int i, int j, int k) { return O & opts::nug ? plain(e, cy(i, nx), D > 1 ? cy(j, ny) : 0, D > 2 ? cy(k, nz) : 0) : plain(e, i, j, k); });
        for (int d = 0; d < D; ++d) fill(r.advector(d), [&](int, int, int) { return d == 0 && (O & opts::nug) ? .25 : 0.; });
        if (O & opts::nug) fill(r.g_factor(), [&](int i, int j, int k) { return plain(30, 0, D > 1 ? cy(j, ny) : 0, D > 2 ? cy(k, nz) : 0) / 1000; });
        r.advance(1); r.advance(steps - 1);
        halo = opts::isset(O, opts::tot) || opts::isset(O, opts::div_3rd) ? 2 : 0; (void)halo;
      }
      c.traces++;
      h5::Dims d, dc, ds; for (int q = 0; q < D; ++q) { d.push_back(s.n[q]); dc.push_back(s.n[q] + 1); ds.push_back(q == D - 1 ? 1 : s.n[q]); }
      std::string why, what;
      auto chk = [&](const H5::H5File &f, const std::string &n, const h5::Dims &dd, const std::function<double(int, int, int)> &g, int off = 0) { c.step(); if (!why.empty()) return; auto x = h5::set(f, n); for (auto y : x.val) c.extra["values"]++; why = is<T>(x, dd, g, off); if (!why.empty()) why = n + " in " + what + " " + why; };
      auto num = [&](float got, double want, const std::string &n) { if (why.empty() && !(got == (float)(T)want)) why = suite::fmt("%s in %s is %.9g instead of %.9g", n.c_str(), what.c_str(), got, (float)(T)want); };
      auto txt = [&](const std::string &got, const std::string &want, const std::string &n) { if (why.empty() && got != want) why = n + " in " + what + " is '" + got + "' instead of '" + want + "'"; };
      try
      {
        {
          what = "const.h5"; H5::H5File f(out + "/const.h5", H5F_ACC_RDONLY);
          const char *nm[] = {"X", "Y", "Z"};
          for (int q = 0; q < D; ++q) chk(f, nm[q], dc, [&](int i, int j, int k) { return (T)s.dx[q] * (T)(q == 0 ? i : q == 1 ? j : k); });
          chk(f, "T", {(hsize_t)2}, [&](int i, int, int) { return i * (T)s.dt; }); // (first call: one step)
          chk(f, "c_lin", d, [](int i, int j, int k) { return value(11, i, j, k); });
          chk(f, "c_dsc", d, [](int i, int j, int k) { return value(10, i, j, k); });
          chk(f, "c_size", {7}, [](int i, int, int) { return value(vals_size, i, 5, 5); });
          chk(f, "c_prof", {(hsize_t)s.n[D - 1]}, [](int i, int, int) { return value(vals_prof, i, 5, 5); });
          chk(f, "c_profv", {(hsize_t)s.n[D - 1] + 1}, [](int i, int, int) { return value(vals_prof + 50, i, 5, 5); });
          if (O & opts::nug) chk(f, "G", d, [&](int i, int j, int k) { return (T)(plain(30, 0, D > 1 ? cy(j, ny) : 0, D > 2 ? cy(k, nz) : 0) / 1000); });
          num(h5::num(f.openGroup("c_grp"), "c_scal"), fscal(0), "c_scal"); num(h5::num(f.openGroup("c_grp"), "c_scal2"), fscal(1), "c_scal2"); num(h5::num(f.openGroup("/"), "c_root"), fscal(2), "c_root");
          txt(h5::str(f.openGroup("c_grp2"), "c_str"), "some text", "c_str"); txt(h5::str(f.openGroup("/"), "c_str0"), "other", "c_str0");
        }
        for (int k = 0; k <= steps && why.empty(); ++k)
        {
          what = h5::step(k, "h5"); H5::H5File f(out + "/" + what, H5F_ACC_RDONLY); int t = 100 * (k + 1);
          if (held.size() != 2 * (steps + 1)) { why = "not all records taken"; break; }
          for (int e = 0; e < 2; ++e) { const V &v = held[2 * k + e]; chk(f, e ? "b" : "a", d, [&](int i, int j, int l) { return v[((size_t)i * s.n[1] + j) * s.n[2] + l]; }); if (!(O & opts::nug)) chk(f, e ? "b" : "a", d, [&](int i, int j, int l) { return plain(e, i, j, l); }); c.state(v); }
          chk(f, "lin", d, [&](int i, int j, int l) { return value(t + 11, i, j, l); });
          for (auto n : {"dsc", "dsc2", "dsc3"}) chk(f, n, d, [&](int i, int j, int l) { return value(t + 10, i, j, l); });
          chk(f, "srf", ds, [&](int i, int j, int l) { return value(t + 10, i, j, l); });
          {
            auto x = h5::set(f, "halo"); int h = x.dims.size() == (size_t)D ? ((int)x.dims[0] - s.n[0]) / 2 : -1;
            h5::Dims dh; for (int q = 0; q < D; ++q) dh.push_back(s.n[q] + 2 * h);
            if (h < 1) { if (why.empty()) why = "halo in " + what + " has no halo"; }
            else chk(f, "halo", dh, [&](int i, int j, int l) { return value(t + 10, i, j, l); }, h);
          }
          num(h5::num(f.openGroup("grp"), "scal"), fscal(t), "scal"); num(h5::num(f.openGroup("grp"), "scal2"), fscal(t + 1), "scal2"); num(h5::num(f.openGroup("/"), "root"), fscal(t + 2), "root");
          chk(f, "prof", {(hsize_t)s.n[D - 1]}, [&](int i, int, int) { return value(t + vals_prof, i, 5, 5); });
          chk(f, "profv", {(hsize_t)s.n[D - 1] + 1}, [&](int i, int, int) { return value(t + vals_prof + 50, i, 5, 5); });
          if (XDMF && why.empty()) { std::string sh; why = h5::resolve(out, h5::xmf(out + "/" + h5::step(k, "xmf")), &sh); if (!sh.empty()) c.viol("xdmf: auxiliary field one point short", id + ": " + sh); if (!why.empty()) why = h5::step(k, "xmf") + ": " + why; }
        }
      }
      catch (H5::Exception &e) { if (why.empty()) why = what + ": cannot be read: " + e.getDetailMsg(); }
      if (!why.empty()) c.viol(id, id + ": " + why);
    }
    boost::filesystem::remove_all(out);
  }

  // ------------------------------------------------------------------ recorded parameters
  typedef std::map<std::string, std::string> Want; // "group/attribute" -> text; numbers as "#value", integers as "%value"
  std::string attrs(const H5::H5File &f, const Want &want, int groups)
  {
    for (auto &w : want)
    {
      auto sl = w.first.find('/'); auto g = w.first.substr(0, sl), a = w.first.substr(sl + 1);
      try
      {
        auto grp = f.openGroup(g);
        if (w.second[0] == '#') { float x = h5::num(grp, a), y = (float)atof(w.second.c_str() + 1); if (!(x == y)) return suite::fmt("%s is %.9g instead of %.9g", w.first.c_str(), x, y); }
        else if (w.second[0] == '%') { int x = h5::integer(grp, a); if (x != atoi(w.second.c_str() + 1)) return suite::fmt("%s is %d instead of %s", w.first.c_str(), x, w.second.c_str() + 1); }
        else { auto x = h5::str(grp, a); if (x != w.second) return w.first + " is '" + x + "' instead of '" + w.second + "'"; }
      }
      catch (H5::Exception &) { return w.first + " is missing"; }
    }
    return "";
  }
  const std::vector<std::pair<long, const char *>> names = {{opts::fct, "fct"}, {opts::abs, "abs"}, {opts::tot, "tot"}, {opts::pfc, "pfc"}, {opts::npa, "npa"}, {opts::iga, "iga"}, {opts::nug, "nug"}, {opts::dfl, "dfl"}, {opts::khn, "khn"}, {opts::div_2nd, "div_2nd"}, {opts::div_3rd, "div_3rd"}, {opts::div_3rd_dt, "div_3rd_dt"}, {opts::fot, "fot"}};
  // the set of options, whatever their order
  std::string opts_why(const std::string &text, long o)
  {
    std::vector<std::string> have, want; std::stringstream ss(text); std::string x; while (std::getline(ss, x, '|')) have.push_back(x);
    for (auto &n : names) if (o & n.first) want.push_back(n.second); if (want.empty()) want.push_back("0");
    std::sort(have.begin(), have.end()); std::sort(want.begin(), want.end());
    if (have == want) return ""; std::string w; for (auto &y : want) w += (w.empty() ? "" : "|") + y; return "options are recorded as '" + text + "' instead of '" + w + "'";
  }
  // every combination of two (three) options, through the function that names them
  void all_opts(suite::Ctx &c)
  {
    for (long o = 0; o < 1 << 13; ++o) { if (!c.item(suite::fmt("options %lx", o)) || c.enough()) continue; c.step(); c.traces++; c.state(&o, sizeof o); auto why = opts_why(opts::opts_string(o), o); if (!why.empty()) c.viol(suite::fmt("opts:%lx", o), why); }
  }
  template <class K, bool VD = false> void params(suite::Ctx &c, const char *id, Want want, std::function<void(typename output::hdf5<typename K::base_t>::rt_params_t &)> more = nullptr, std::function<std::string(const H5::H5File &, const h5::Dims &)> extra = nullptr, std::vector<std::string> arrs = {})
  {
    h5::quiet();
    using S = output::hdf5<typename K::base_t>; enum { D = K::ct::n_dims };
    for (int iters = 1; iters <= 3; ++iters) for (double dt : {1., .3}) for (int v = 0; v < 2; ++v)
    {
      if ((K::ct::opts & opts::iga) && iters > 2) continue;
      std::string it = suite::fmt("%s, %d passes, dt %g, set %d", id, iters, dt, v); if (!c.item(it)) continue; c.sample(it); c.traces++; c.step();
      boost::filesystem::remove_all(out);
      Setup s; s.D = D; s.n = {4, D > 1 ? 5 : 1, D > 2 ? 4 : 1}; s.iters = iters; s.dt = dt; s.dx[0] = v ? 1.1 : .5; s.dx[1] = v ? .7 : .25; s.dx[2] = v ? 2.3 : 3; s.max_courant = v ? .3 : .75;
      s.psi = [&](int e, int i, int j, int k) { return K::prescribed ? 1. : K::ct::n_eqns > (int)D ? (e == (int)D ? 300. : 0.) : 0.; }; s.gc = [](int, int, int, int) { return 0.; }; s.G = [](int, int, int) { return 1.; };
      s.arrs = arrs; s.arr = [](const std::string &n, int i, int j, int k) { return n[0] == 't' ? plain(40, i, j, k) : plain(41, i, j, k); };
      typename S::rt_params_t p = base_params<S>(s); K::template params<S>(p, s); if (more) more(p); p.outdir = out;
      for (int e = 0; e < (int)K::ct::n_eqns; ++e) p.outvars[e] = {suite::fmt("v%d", e), ""};
      { typename bind_bc<concurr::serial, S, CY<D>>::type r(p); init<K>(r, s); r.advance(0); }
      std::string why;
      try
      {
        H5::H5File f(out + "/const.h5", H5F_ACC_RDONLY);
        Want w = want; w["advection/dt"] = suite::fmt("#%.17g", dt); w["advection/n_iters"] = suite::fmt("%%%d", iters);
        const char *nm[] = {"advection/di", "advection/dj", "advection/dk"}; for (int d = 0; d < D; ++d) w[nm[d]] = suite::fmt("#%.17g", s.dx[d]);
        if (VD) w["advection/max_courant"] = suite::fmt("#%.17g", s.max_courant);
        why = attrs(f, w, 0);
        if (why.empty()) { hbool_t b = 9; f.openGroup("advection").openAttribute("var_dt").read(H5::PredType::NATIVE_HBOOL, &b); if (b != VD) why = suite::fmt("var_dt is %d", (int)b); }
        if (why.empty()) why = opts_why(h5::str(f.openGroup("advection"), "opts"), K::ct::opts);
        if (why.empty() && extra) { h5::Dims d; for (int q = 0; q < D; ++q) d.push_back(s.n[q]); why = extra(f, d); }
        auto l = h5::names(f); c.state(l.data(), 0);
      }
      catch (H5::Exception &e) { why = "cannot be read: " + e.getDetailMsg(); }
      if (!why.empty()) c.viol(it, it + ": " + why);
    }
    boost::filesystem::remove_all(out);
  }
  template <long O> void adv_params(suite::Ctx &c, const char *id) { params<Mpd<CT<2, 1, O>>>(c, id, {}); }
}

#if PART == 0
CASE("1D double", 5, [](suite::Ctx &c) { shapes<1, double, false, opts::iga | opts::fct>(c); });
CASE("1D float density", 5, [](suite::Ctx &c) { shapes<1, float, false, (long)opts::nug>(c); });
CASE("all sets of options by name", 1, all_opts);
#elif PART == 1
CASE("2D double", 10, [](suite::Ctx &c) { shapes<2, double, false, opts::nug | opts::fct>(c); });
CASE("2D float", 10, [](suite::Ctx &c) { shapes<2, float, false, opts::iga | opts::fct>(c); });
#elif PART == 2
CASE("2D double xdmf", 10, [](suite::Ctx &c) { shapes<2, double, true, opts::iga | opts::fct | opts::tot>(c); });
CASE("2D float xdmf density", 10, [](suite::Ctx &c) { shapes<2, float, true, (long)opts::nug>(c); });
#elif PART == 3
CASE("3D double", 20, [](suite::Ctx &c) { shapes<3, double, false, opts::iga | opts::fct | opts::tot>(c); });
CASE("3D float density", 20, [](suite::Ctx &c) { shapes<3, float, false, (long)opts::nug>(c); });
#elif PART == 4
CASE("3D double xdmf density", 20, [](suite::Ctx &c) { shapes<3, double, true, opts::nug | opts::fct>(c); });
CASE("3D float xdmf", 20, [](suite::Ctx &c) { shapes<3, float, true, opts::iga | opts::fct>(c); });
#elif PART == 5
CASE("parameters advection", 5, [](suite::Ctx &c) {
  params<Mpd<CT<1, 1, 0>>>(c, "1D", {}); adv_params<opts::iga | opts::fct>(c, "iga fct"); adv_params<opts::nug | ABS | opts::dfl>(c, "nug abs dfl"); adv_params<opts::tot | opts::pfc | opts::npa>(c, "tot pfc npa");
  adv_params<opts::iga | opts::div_2nd | opts::div_3rd_dt>(c, "div_3rd_dt"); adv_params<opts::iga | opts::tot | opts::fot | opts::khn>(c, "fot khn");
  params<Mpd<CT<2, 1, opts::iga, true>>, true>(c, "adaptive", {}); params<Mpd<CT<3, 2, opts::iga>>>(c, "3D", {}); });
CASE("parameters source terms", 5, [](suite::Ctx &c) {
  params<Rhs<ctRhs<2, solvers::euler_a, 0>>>(c, "euler_a", {{"rhs/rhs_scheme", "euler_a"}}); params<Rhs<ctRhs<1, solvers::euler_b, 0>>>(c, "euler_b", {{"rhs/rhs_scheme", "euler_b"}}); params<Rhs<ctRhs<3, solvers::trapez, 0>>>(c, "trapez", {{"rhs/rhs_scheme", "trapez"}}); });
#elif PART == 6
CASE("parameters velocities", 5, [](suite::Ctx &c) {
  auto relax = [](auto &p) {};
  params<Vip<ctVip<1, solvers::trapez, 0>>>(c, "1D", {{"vip/vip_abs", "noab"}, {"rhs/rhs_scheme", "trapez"}}); params<Vip<ctVip<2, solvers::euler_a, 0, solvers::expl>>>(c, "expl", {{"vip/vip_abs", "expl"}, {"rhs/rhs_scheme", "euler_a"}}); params<Vip<ctVip<3, solvers::trapez, 0, solvers::impl>>>(c, "impl", {{"vip/vip_abs", "impl"}}); });
CASE("parameters pressure", 5, [](suite::Ctx &c) {
  params<Prs<ctPrs<2, solvers::mr, 0>>>(c, "mr", {{"prs/prs_scheme", "mr"}, {"prs/prs_tol", "#1e-7"}}); params<Prs<ctPrs<2, solvers::cr, 0>>>(c, "cr", {{"prs/prs_scheme", "cr"}, {"prs/prs_tol", "#2e-5"}}, [](auto &p) { p.prs_tol = 2e-5; });
  params<Prs<ctPrs<3, solvers::gcrk, 0>>>(c, "gcrk", {{"prs/prs_scheme", "gcrk"}, {"prs/prs_tol", "#1e-7"}, {"vip/vip_abs", "noab"}}); params<Prs<ctPrs<2, solvers::pc, 0>>>(c, "pc", {{"prs/prs_scheme", "pc"}}); });
#elif PART == 7
CASE("parameters subgrid", 5, [](suite::Ctx &c) {
  params<Sgs<ctSgs<2, solvers::dns, solvers::normal, 0>>>(c, "dns", {{"sgs/sgs_scheme", "dns"}, {"sgs/stress_diff", "normal"}, {"sgs/cdrag", "#.25"}, {"sgs/eta", "#.05"}, {"prs/prs_scheme", "cr"}}, [](auto &p) { p.cdrag = .25; });
  params<Sgs<ctSgs<2, solvers::smg, solvers::compact, 0>>>(c, "smg", {{"sgs/sgs_scheme", "smg"}, {"sgs/stress_diff", "compact"}, {"sgs/cdrag", "#.1"}, {"sgs/smg_c", "#.165"}, {"sgs/c_m", "#.0856"}});
  params<Sgs<ctSgs<3, solvers::smgani, solvers::compact, 0>>>(c, "smgani", {{"sgs/sgs_scheme", "smgani"}, {"sgs/stress_diff", "compact"}, {"sgs/smg_c", "#.3"}}, [](auto &p) { p.smg_c = .3; });
  params<Sgs<ctSgs<2, solvers::dns, solvers::pade, 0>>>(c, "pade", {{"sgs/stress_diff", "pade"}}); });
#elif PART == 8
namespace
{
  template <class K> void bou(suite::Ctx &c, const char *id, Want w, bool mix)
  {
    w["boussinesq/g"] = "#10"; w["boussinesq/Tht_ref"] = "#300";
    std::vector<std::string> arrs{"tht_e"}; if (mix) arrs.push_back("mix_len");
    params<K>(c, id, w, nullptr, [mix](const H5::H5File &f, const h5::Dims &d) {
      auto why = is<double>(h5::set(f, "boussinesq/tht_e"), d, [](int i, int j, int k) { return plain(40, i, j, k); }); if (!why.empty()) return "tht_e " + why;
      if (mix) why = is<double>(h5::set(f, "boussinesq/mix_len"), d, [](int i, int j, int k) { return plain(41, i, j, k); }); if (!why.empty()) return "mix_len " + why;
      return std::string(); }, arrs);
  }
}
CASE("parameters Boussinesq", 5, [](suite::Ctx &c) {
  bou<Bou<ctBou<2, false, 0>>>(c, "explicit", {{"boussinesq/hflux_const", "#0"}}, false); bou<Bou<ctBou<3, true, 0>>>(c, "implicit", {}, false);
  bou<Bou<ctBou<3, true, 0, solvers::smg, solvers::compact>>>(c, "smg", {{"boussinesq/prandtl_num", "#.42"}, {"sgs/smg_c", "#.165"}, {"sgs/sgs_scheme", "smg"}, {"sgs/cdrag", "#.1"}}, true); });
#endif
