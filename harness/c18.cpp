// C18: what is written when. Every output frequency, start, window and sequence of advance() calls on small grids;
// the files are read back and compared with a run without output, step by step.
#include "../mc/suite.hpp"
#include "../mc/cases.hpp"
#include "../mc/h5.hpp"
#include <libmpdata++/output/hdf5_xdmf.hpp>
#ifndef PART
#define PART 0
#endif
using namespace cases;

namespace
{
  typedef std::vector<int> Hist;
  struct Sel { int freq, start, win; bool on(int k) const { if (k == 0) return true; for (int w = k; w > k - win && w >= start; --w) if (w >= 0 && w % freq == 0) return true; return false; } };
  const std::string out = "out";
  template <int D, int NE> Setup setup(I3 n)
  {
    Setup s; s.D = D; s.n = n; s.iters = 2; s.dt = .5; s.dx[0] = 1.5; s.dx[1] = .75; s.dx[2] = 3;
    Flow f; f.n = n; f.D = D; f.amp = .4; for (auto &w : f.wrap) w = true; if (D == 1) f.base[0] = .375;
    s.psi = [n](int e, int i, int j, int k) { return 1 + u01(e, cy(i, n[0]), n[1] > 1 ? cy(j, n[1]) : 0, n[2] > 1 ? cy(k, n[2]) : 0); };
    s.gc = [f](int d, int i, int j, int k) { return f(d, i, j, k); };
    s.G = [n](int i, int j, int k) { return 1 + .5 * u01(9, cy(i, n[0]), n[1] > 1 ? cy(j, n[1]) : 0, n[2] > 1 ? cy(k, n[2]) : 0); };
    return s;
  }
  template <class R, int NE> std::vector<V> fields(R &r) { std::vector<V> v; for (int e = 0; e < NE; ++e) v.push_back(read(r.advectee(e))); return v; }
  std::string differs(const h5::Set &s, const V &v, I3 n, int D, double tol = 0)
  {
    if (s.dims.size() != (size_t)D) return "has the wrong number of dimensions";
    for (int d = 0; d < D; ++d) if ((int)s.dims[d] != n[d]) return suite::fmt("has %d points along dimension %d instead of %d", (int)s.dims[d], d, n[d]);
    if (!s.is_float || s.bytes != 4) return "is not stored in single precision";
    for (size_t i = 0; i < v.size(); ++i) if (tol ? !(std::fabs(s.val[i] - v[i]) <= tol * (1 + std::fabs(v[i]))) : !(s.val[i] == (float)v[i])) return suite::fmt("holds %.9g at point %zu instead of %.9g", s.val[i], i, v[i]);
    return "";
  }
  // which variables are written, under which names
  template <int NE> std::vector<std::map<int, std::string>> selections()
  {
    if (NE == 1) return {{}, {{0, "rho"}}};
    return {{{0, "a"}, {1, "b"}}, {{1, "b"}}};
  }
  template <int NE> std::map<int, std::string> effective(const std::map<int, std::string> &m) { return m.empty() ? std::map<int, std::string>{{0, "psi"}} : m; }

  struct Rec { double time; std::vector<V> f; };
  // the files in the directory against the records there should be: step -> time and fields
  std::string compare(suite::Ctx &c, const Setup &s, bool xdmf, const std::map<int, Rec> &want, const std::map<int, std::string> &vars, const std::vector<double> &T, double tol, bool chkT = true)
  {
    std::vector<std::string> exp{"const.h5"}, idx;
    for (auto &w : want) { exp.push_back(h5::step(w.first, "h5")); if (xdmf) { exp.push_back(h5::step(w.first, "xmf")); idx.push_back(exp.back()); } }
    if (xdmf) exp.push_back("temp.xmf");
    std::sort(exp.begin(), exp.end()); auto have = h5::ls(out);
    for (auto &x : exp) if (!std::count(have.begin(), have.end(), x)) return x + " is missing";
    for (auto &x : have) if (!std::count(exp.begin(), exp.end(), x)) return x + " should not have been written";
    try
    {
      for (auto &w : want)
      {
        c.step();
        auto nm = h5::step(w.first, "h5"); H5::H5File f(out + "/" + nm, H5F_ACC_RDONLY);
        auto in = h5::names(f); if (in.size() != vars.size()) return nm + " holds " + std::to_string(in.size()) + " variables";
        for (auto &v : vars)
        {
          if (!h5::has(f, v.second)) return nm + " lacks '" + v.second + "', it has '" + in[0] + "'";
          auto why = differs(h5::set(f, v.second), w.second.f[v.first], s.n, s.D, tol); if (!why.empty()) return v.second + " in " + nm + " " + why;
        }
        if (xdmf)
        {
          auto x = h5::xmf(out + "/" + h5::step(w.first, "xmf"));
          if (!(std::fabs(x.time - w.second.time) <= 1.1e-6)) return suite::fmt("%s: time %.17g instead of %.17g", h5::step(w.first, "xmf").c_str(), x.time, w.second.time);
          std::vector<int> top(s.n.begin(), s.n.begin() + s.D); for (int &t : top) ++t;
          if (x.top != top) return h5::step(w.first, "xmf") + ": wrong topology";
          if ((int)x.geo.size() != s.D) return h5::step(w.first, "xmf") + ": wrong number of coordinates";
          for (int d = 0; d < s.D; ++d) if (x.geo[d].data != std::string("const.h5:/") + "XYZ"[d]) return h5::step(w.first, "xmf") + ": wrong coordinate " + x.geo[d].data;
          auto why = h5::resolve(out, x); if (!why.empty()) return h5::step(w.first, "xmf") + ": " + why;
          std::vector<std::string> att, ea; for (auto &a : x.att) { att.push_back(a.name + "=" + a.data); }
          for (auto &v : vars) ea.push_back(v.second + "=" + nm + ":/" + v.second);
          std::sort(att.begin(), att.end()); std::sort(ea.begin(), ea.end());
          if (att != ea) return h5::step(w.first, "xmf") + ": lists other variables than the file holds";
        }
      }
      if (xdmf && h5::index(out + "/temp.xmf") != idx) return "temp.xmf does not list the records in order";
      H5::H5File k(out + "/const.h5", H5F_ACC_RDONLY);
      auto t = h5::set(k, "T"); bool ok = t.dims.size() == 1 && t.val.size() == T.size();
      for (size_t i = 0; ok && i < T.size(); ++i) ok = t.val[i] == (float)T[i];
      if (!ok && chkT) return "time coordinate is " + suite::show(V(t.val.begin(), t.val.end())) + ", records are at " + suite::show(T);
    }
    catch (H5::Exception &e) { return "cannot be read: " + e.getDetailMsg(); }
    return "";
  }
  std::string show(const Hist &h) { std::string s; for (int x : h) s += (s.empty() ? "" : "+") + std::to_string(x); return s; }
  std::vector<Hist> histories(int most)
  { // compositions of 1..most; with empty calls
    std::vector<Hist> v;
    for (int n = 1; n <= most; ++n) for (int m = 0; m < 1 << (n - 1); ++m) { Hist h{1}; for (int i = 0; i + 1 < n; ++i) if (m >> i & 1) h.push_back(1); else h.back()++; v.push_back(h); }
    v.push_back({0}); v.push_back({0, 3}); v.push_back({2, 0, 2}); v.push_back({3, 0});
    return v;
  }
  template <class out_t> typename out_t::rt_params_t params(const Setup &s, const Sel &q, const std::map<int, std::string> &vars)
  {
    auto p = base_params<out_t>(s); p.outdir = out; p.outfreq = q.freq; p.outstart = q.start; p.outwindow = q.win;
    for (auto &v : vars) p.outvars[v.first] = {v.second, "1"};
    return p;
  }

  // ------------------------------------------------------------------ fixed steps
  template <int D, int NE, bool XDMF, template <class, bcond::bcond_e, bcond::bcond_e, bcond::bcond_e, bcond::bcond_e, bcond::bcond_e, bcond::bcond_e> class X = concurr::serial> struct Fixed
  {
    using ct = CT<D, NE, opts::iga | opts::fct>; using K = Mpd<ct>; using base_t = typename K::base_t;
    using out_t = typename std::conditional<XDMF, output::hdf5_xdmf<base_t>, output::hdf5<base_t>>::type;
    Setup s; std::vector<Rec> ref;
    Fixed(I3 n, int most) : s(setup<D, NE>(n))
    {
      typename bind_bc<concurr::serial, base_t, CY<D>>::type r(base_params<base_t>(s)); init<K>(r, s);
      for (int k = 0; k <= most; ++k) { if (k) r.advance(1); ref.push_back({k * s.dt, fields<decltype(r), NE>(r)}); }
    }
    std::string operator()(suite::Ctx &c, const Sel &q, const Hist &h, const std::map<int, std::string> &vars, bool later = false)
    {
      boost::filesystem::remove_all(out);
      std::vector<V> fin; int n = 0; for (int x : h) n += x;
      {
        typename bind_bc<X, out_t, CY<D>>::type r(params<out_t>(s, q, vars)); init<K>(r, s);
        for (int x : h) r.advance(x);
        fin = fields<decltype(r), NE>(r);
      }
      c.traces++; for (auto &f : fin) c.state(f);
      if (fin != ref[n].f) return "the solution differs from that of a run without output";
      std::map<int, Rec> want; V T;
      for (int k = 0; k <= n; ++k) if (q.on(k)) { want[k] = ref[k]; if (k <= h[0] || later) T.push_back(ref[k].time); }
      return compare(c, s, XDMF, want, effective<NE>(vars), T, 0);
    }
    void run(suite::Ctx &c, int most)
    {
      h5::quiet();
      int most_freq = c.thorough ? 5 : 4;
      for (int freq = 1; freq <= most_freq; ++freq) for (int start = 0; start <= 2 * freq; start += freq) for (int win = 1; win <= freq; ++win) for (auto &h : histories(most)) for (auto &v : selections<NE>())
      {
        if (c.enough()) return;
        std::string id = suite::fmt("freq %d start %d window %d steps %s %s", freq, start, win, show(h).c_str(), v.empty() ? "default variables" : v.begin()->second.c_str());
        if (!c.item(id)) continue;
        c.sample(id);
        auto why = (*this)(c, {freq, start, win}, h, v); if (!why.empty()) c.viol(id, id + ": " + why);
      }
      boost::filesystem::remove_all(out);
    }
  };
  // records beyond the first advance() in the time coordinate
  template <int D> void later(suite::Ctx &c)
  {
    h5::quiet(); Fixed<D, 1, false> f(D == 1 ? I3{5, 1, 1} : I3{4, 3, 1}, 6);
    for (auto &h : {Hist{1, 2}, Hist{2, 2, 2}}) { std::string id = "steps " + show(h); if (!c.item(id)) continue; auto why = f(c, {1, 0, 1}, h, {}, true); if (!why.empty()) c.viol(id, id + ": " + why); }
  }

  // ------------------------------------------------------------------ adaptive steps: linear or quadratic interpolation in time
  template <int D, int ORD> struct ctA : CT<D, 2, opts::iga | opts::fct, true> { enum { out_intrp_ord = ORD }; };
  struct Step { double t0, t1; std::vector<V> f0, f1; };
  std::vector<Step> *slog;
  template <class ct> struct prb_t : solvers::mpdata<ct>
  {
    using parent_t = solvers::mpdata<ct>; using parent_t::parent_t;
    std::vector<V> all() { std::vector<V> v; for (int e = 0; e < (int)ct::n_eqns; ++e) v.push_back(read(this->mem->advectee(e))); return v; }
    bool calc_gc() { double f = 1 + .75 * std::sin(3 * this->time); for (int d = 0; d < (int)ct::n_dims; ++d) { this->mem->GC[d] = this->dt * f * (*pat)[d]; } return true; }
    void hook_ante_step() { parent_t::hook_ante_step(); slog->push_back({this->time, 0, all(), {}}); }
    void hook_post_step() { parent_t::hook_post_step(); slog->back().t1 = this->time; slog->back().f1 = all(); }
    static std::vector<blitz::Array<double, ct::n_dims>> *pat;
    void hook_ante_loop(const typename parent_t::advance_arg_t nt)
    {
      parent_t::hook_ante_loop(nt);
      for (int d = 0; d < (int)ct::n_dims; ++d) { pat->push_back(this->mem->GC[d].copy()); pat->back() /= this->dt; }
    }
  };
  template <class ct> std::vector<blitz::Array<double, ct::n_dims>> *prb_t<ct>::pat;
  template <int D, int ORD, bool XDMF> void adaptive(suite::Ctx &c)
  {
    h5::quiet();
    using ct = ctA<D, ORD>; using P = prb_t<ct>; using K = Mpd<ct>;
    using out_t = typename std::conditional<XDMF, output::hdf5_xdmf<P>, output::hdf5<P>>::type;
    Setup s = setup<D, 2>(D == 1 ? I3{6, 1, 1} : D == 2 ? I3{5, 4, 1} : I3{3, 4, 3}); s.dt = 1;
    std::vector<V> spans{{2}, {.5, 1.5}, {1, .25, .25}, {0, 1}, {.0625, 3}, {7.25}};
    for (double maxc : {.02, .05, .1, .4}) for (double f : {.25, .5, 1., 1.75, 3.}) for (auto &sp : spans) for (auto &v : selections<2>())
    {
      if (c.enough()) return;
      std::string id = suite::fmt("Courant bound %g freq %g spans %s %s", maxc, f, suite::show(sp).c_str(), v.begin()->second.c_str());
      if (!c.item(id)) continue;
      boost::filesystem::remove_all(out); s.max_courant = maxc;
      std::vector<blitz::Array<double, D>> pat; std::vector<V> fin[2]; std::vector<Step> log; V ends;
      { // without output
        pat.clear(); P::pat = &pat; log.clear(); slog = &log;
        auto p = base_params<P>(s);
        typename bind_bc<concurr::serial, P, CY<D>>::type r(p); init<K>(r, s);
        for (double x : sp) { r.advance(x); ends.push_back(r.time()); }
        fin[0] = fields<decltype(r), 2>(r);
      }
      std::map<int, Rec> want; V T; double last = 0; bool skip = false, pending = false; int prev = -9;
      want[0] = {0, log.empty() ? fin[0] : log[0].f0};
      for (size_t k = 0; k < log.size(); ++k)
      {
        int a = std::floor(log[k].t0 / f), b = std::floor(log[k].t1 / f);
        if (b - a > 1) skip = true; // more than one record within a step
        if (b > a)
        {
          if ((int)k - prev < ORD) skip = true;
          prev = k; double t = b * f, t0 = log[k].t0, t1 = log[k].t1; last = t;
          if (ORD == 2 && k + 1 == log.size()) { pending = true; continue; }
          Rec r; r.time = t;
          for (int e = 0; e < 2; ++e)
          {
            V y; auto &y0 = log[k].f0[e], &y1 = log[k].f1[e];
            for (size_t i = 0; i < y0.size(); ++i)
              if (ORD == 1) y.push_back(y0[i] + (y1[i] - y0[i]) * ((t - t0) / (t1 - t0)));
              else { double t2 = log[k + 1].t1, y2 = log[k + 1].f1[e][i]; y.push_back(y0[i] * (t - t1) * (t - t2) / ((t0 - t1) * (t0 - t2)) + y1[i] * (t - t0) * (t - t2) / ((t1 - t0) * (t1 - t2)) + y2 * (t - t0) * (t - t1) / ((t2 - t0) * (t2 - t1))); }
            r.f.push_back(y);
          }
          want[k + ORD] = r;
        }
      }
      if (skip) { c.extra["left out: more than one record within a step"]++; continue; }
      for (int m = 0; m * f <= sp[0]; ++m) T.push_back(m * f);
      slog = &log; std::vector<Step> log2; slog = &log2; pat.clear();
      {
        auto p = base_params<out_t>(s); p.outdir = out; p.outfreq = f; for (auto &x : v) p.outvars[x.first] = {x.second, "1"};
        typename bind_bc<concurr::serial, out_t, CY<D>>::type r(p); init<K>(r, s);
        for (double x : sp) r.advance(x);
        fin[1] = fields<decltype(r), 2>(r);
      }
      c.traces++; c.sample(id); for (auto &x : fin[1]) c.state(x); c.extra["records"] += want.size();
      std::string why;
      if (fin[0] != fin[1]) why = "the solution differs from that of a run without output";
      else why = compare(c, s, XDMF, want, v, T, 2e-6, !(pending && last <= sp[0]));
      if (!why.empty()) c.viol(id, id + ": " + why);
    }
    boost::filesystem::remove_all(out);
  }
}

#if PART == 0
CASE("1D hdf5 1 equation", 50, [](suite::Ctx &c) { int m = c.thorough ? 7 : 5; Fixed<1, 1, false>({5, 1, 1}, m).run(c, m); });
CASE("1D time coordinate of later calls", 1, [](suite::Ctx &c) { later<1>(c); });
#elif PART == 1
CASE("2D hdf5 2 equations", 50, [](suite::Ctx &c) { int m = c.thorough ? 7 : 5; Fixed<2, 2, false>({4, 3, 1}, m).run(c, m); });
#elif PART == 2
CASE("2D xdmf 1 equation", 50, [](suite::Ctx &c) { int m = c.thorough ? 6 : 4; Fixed<2, 1, true>({3, 5, 1}, m).run(c, m); });
#elif PART == 3
CASE("3D xdmf 2 equations", 50, [](suite::Ctx &c) { int m = c.thorough ? 6 : 4; Fixed<3, 2, true>({3, 4, 5}, m).run(c, m); });
#elif PART == 4
CASE("1D adaptive linear", 20, [](suite::Ctx &c) { adaptive<1, 1, false>(c); });
CASE("1D adaptive quadratic", 20, [](suite::Ctx &c) { adaptive<1, 2, false>(c); });
#elif PART == 5
CASE("2D adaptive linear xdmf", 20, [](suite::Ctx &c) { adaptive<2, 1, true>(c); });
CASE("2D adaptive quadratic", 20, [](suite::Ctx &c) { adaptive<2, 2, false>(c); });
#elif PART == 6
CASE("3D adaptive linear", 20, [](suite::Ctx &c) { adaptive<3, 1, false>(c); });
CASE("3D adaptive quadratic xdmf", 20, [](suite::Ctx &c) { adaptive<3, 2, true>(c); });
#endif
