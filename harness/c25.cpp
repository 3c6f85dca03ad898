// C25: the stream sent to gnuplot. Every output frequency, start, window, history, selection of variables, shape and kind of plot
// on small grids; the stream is taken apart (commands, inline blocks of data), compared with the states of a run without output,
// and fed to the real gnuplot, whose tables of what it has understood (coordinates and values) are compared with the states, too.
#include "../mc/suite.hpp"
#include "../mc/cases.hpp"
#include <libmpdata++/output/gnuplot.hpp>
#include <boost/filesystem.hpp>
#include <fstream>
#include <sstream>
#include <cstring>
#include <sys/resource.h>
#include <signal.h>
#ifndef PART
#define PART 0
#endif
using namespace cases;

// what would have been sent to gnuplot goes to a file
extern "C" __attribute__((weak)) FILE *popen(const char *, const char *) { return fopen("stream", "w"); }
extern "C" __attribute__((weak)) int pclose(FILE *f) { return fclose(f); }

namespace
{
  typedef std::vector<int> Hist;
  typedef std::map<int, std::string> Vars;
  struct Sel { int freq, start, win; bool on(int k) const { if (k == 0) return true; for (int w = k; w > k - win && w >= start; --w) if (w >= 0 && w % freq == 0) return true; return false; } };
  std::string slurp(const std::string &f) { std::ifstream i(f, std::ios::binary); std::stringstream s; s << i.rdbuf(); return s.str(); }
  template <int D, int NE> Setup setup(I3 n)
  {
    Setup s; s.D = D; s.n = n; s.iters = 2; s.dt = .5;
    Flow f; f.n = n; f.D = D; f.amp = .4; for (auto &w : f.wrap) w = true; if (D == 1) f.base[0] = .375;
    s.psi = [n](int e, int i, int j, int k) { return (e ? -1 : 1) * (1 + e + u01(e, cy(i, n[0]), n[1] > 1 ? cy(j, n[1]) : 0, 0)); };
    s.gc = [f](int d, int i, int j, int k) { return f(d, i, j, k); };
    return s;
  }
  template <class R, int NE> std::vector<V> fields(R &r) { std::vector<V> v; for (int e = 0; e < NE; ++e) v.push_back(read(r.advectee(e))); return v; }

  // ------------------------------------------------------------------ the stream
  struct Plot { std::string out, title, cmd; std::vector<std::string> entry; std::vector<V> block; size_t at; };
  struct Stream { std::vector<std::string> set; std::vector<Plot> plots; std::string bad; };
  Stream take_apart(const std::string &b)
  {
    Stream s; size_t i = 0; std::string out, title;
    while (i < b.size())
    {
      size_t at = i, e = b.find('\n', i); if (e == std::string::npos) { s.bad = "ends within a line"; return s; }
      std::string l = b.substr(i, e - i); i = e + 1;
      if (l.compare(0, 6, "splot ") && l.compare(0, 5, "plot "))
      {
        if (l.compare(0, 4, "set ") && l.compare(0, 6, "unset ")) { s.bad = "has '" + l.substr(0, 30) + "' where a command is expected"; return s; }
        if (!l.compare(0, 11, "set output ")) out = l.substr(11);
        if (!l.compare(0, 10, "set title ")) title = l.substr(10);
        s.set.push_back(l); continue;
      }
      Plot p; p.out = out; p.title = title; p.at = at; p.cmd = l.substr(0, l.find(' '));
      for (size_t q = l.find("'-'"); q != std::string::npos;) { size_t n = l.find("'-'", q + 1); p.entry.push_back(l.substr(q + 3, n == std::string::npos ? n : n - q - 3)); q = n; }
      for (auto &en : p.entry)
      {
        V v;
        if (en.find("binary") == std::string::npos)
          for (;;)
          {
            e = b.find('\n', i); if (e == std::string::npos) { s.bad = suite::fmt("has fewer blocks of data than the %zu that are plotted", p.entry.size()); return s; }
            std::string x = b.substr(i, e - i); i = e + 1; if (x == "e") break;
            char *end; v.push_back(strtod(x.c_str(), &end)); if (x.empty() || *end) { s.bad = "has '" + x.substr(0, 30) + "' where a number is expected"; return s; }
          }
        else
        {
          int a[2]; size_t q = en.find("array=("); bool f = en.find("'%float'") != std::string::npos, d = en.find("'%double'") != std::string::npos;
          if (q == std::string::npos || sscanf(en.c_str() + q, "array=(%d,%d)", a, a + 1) != 2 || f == d) { s.bad = "has a format that is not understood: " + en; return s; }
          size_t n = (size_t)a[0] * a[1], sz = f ? 4 : 8; if (i + n * sz > b.size()) { s.bad = "ends within a block of data"; return s; }
          for (size_t k = 0; k < n; ++k) { if (f) { float x; memcpy(&x, &b[i], 4); v.push_back(x); } else { double x; memcpy(&x, &b[i], 8); v.push_back(x); } i += sz; }
        }
        p.block.push_back(v);
      }
      s.plots.push_back(p);
    }
    return s;
  }
  // what gnuplot makes of it: per plot and per entry with data the points
  typedef std::vector<std::array<double, 3>> Pts;
  std::string gnuplot(const Stream &s, const std::string &b, std::vector<std::vector<Pts>> &tab)
  {
    std::string o; size_t i = 0; int k = 0;
    for (auto &p : s.plots) { o += b.substr(i, p.at - i) + suite::fmt("set table 'tab%d'\n", k++); i = p.at; }
    o += b.substr(i);
    for (size_t q; (q = o.find(" with histeps")) != std::string::npos;) o.replace(q, 13, " with lines  "); // (histeps have no table in 3D)
    { std::ofstream f("cmd", std::ios::binary); f << o; }
    int rc = system("timeout 60 gnuplot < cmd > /dev/null 2> err"); auto err = slurp("err");
    if (rc) return "gnuplot fails: " + err.substr(0, 200);
    for (auto w : {"invalid command", "undefined", "line "}) if (err.find(w) != std::string::npos) return "gnuplot complains: " + err.substr(0, 200);
    for (int q = 0; q < k; ++q)
    {
      std::ifstream t("tab" + std::to_string(q)); std::string l; tab.emplace_back(); bool open = false, pixel = false;
      if (!t) return "gnuplot has plotted nothing";
      while (std::getline(t, l))
      {
        if (!l.compare(0, 9, "# Surface") || !l.compare(0, 7, "# Curve"))
          { if (l.find("title") == std::string::npos) { tab.back().emplace_back(); open = true; } continue; }
        if (l[0] == '#' && l.find("# x y") == 0) pixel = l.find("pixel") != std::string::npos; // (images: the value follows the coordinates)
        if (l.empty() || l[0] == '#' || !open) continue;
        std::array<double, 3> x{}; double v; int got = sscanf(l.c_str(), "%lf %lf %lf %lf", &x[0], &x[1], &x[2], &v); if (got == 4 && pixel) x[2] = v;
        if (got >= 2 && l.back() != 'u') tab.back().back().push_back(x);
      }
    }
    return "";
  }
  bool near(double a, double b) { return std::fabs(a - b) <= 2e-5 * (1 + std::fabs(b)); }
  std::string same(const V &a, const V &b, const char *what)
  {
    if (a.size() != b.size()) return suite::fmt("%s holds %zu values instead of %zu", what, a.size(), b.size());
    for (size_t i = 0; i < a.size(); ++i) if (!near(a[i], b[i])) return suite::fmt("%s holds %.9g at point %zu instead of %.9g", what, a[i], i, b[i]);
    return "";
  }
  struct Rec { double time; int step; std::vector<V> f; };

  struct Kind { std::string cmd = "splot", with, title; bool lines() const { return with == "lines"; } };
  std::string compare(suite::Ctx &c, const Setup &s, const std::vector<Rec> &want, const Vars &vars, const Kind &kd, bool none)
  {
    auto b = slurp("stream"); auto st = take_apart(b); if (!st.bad.empty()) return "the stream " + st.bad;
    std::vector<std::vector<Pts>> tab; std::string why; bool empty = s.D == 1 && kd.cmd == "splot" && none; // (nothing to be plotted: the axis of time is empty)
    if (!empty) why = gnuplot(st, b, tab);
    if (!why.empty()) return why;
    int n = s.n[0], m = s.n[1];
    if (s.D == 1)
    {
      if (st.plots.size() != 1) return suite::fmt("%zu plots instead of one", st.plots.size());
      auto &p = st.plots[0]; if (p.cmd != kd.cmd) return "the plot is made with " + p.cmd;
      if (p.entry.size() != want.size() * vars.size()) return suite::fmt("%zu curves instead of %zu", p.entry.size(), want.size() * vars.size());
      size_t q = 0; if (empty) tab.emplace_back(); auto &T = tab[0]; if (!empty && T.size() != p.entry.size() + 1) return suite::fmt("gnuplot sees %zu curves instead of %zu", T.size() - 1, p.entry.size());
      for (auto &w : want) for (auto &v : vars)
      {
        c.step(); auto &f = w.f[v.first]; V x; for (int i = 0; i < n; ++i) { x.push_back(f[i]); if (kd.cmd == "splot") x.push_back(f[i]); }
        auto who = suite::fmt("%s of record %g", v.second.c_str(), w.time);
        why = same(p.block[q], x, who.c_str()); if (!why.empty()) return why;
        bool titled = p.entry[q].find(" title '" + v.second + "'") != std::string::npos, un = p.entry[q].find("notitle") != std::string::npos;
        if (w.step == 0 ? !titled || un : titled || !un) return who + " has a wrong title: " + p.entry[q];
        int lt = vars.size() == 1 ? -1 : v.first + 1, have; auto l = p.entry[q].find(" lt ");
        if (l == std::string::npos || sscanf(p.entry[q].c_str() + l, " lt %d", &have) != 1 || have != lt) return who + " has a wrong type of line: " + p.entry[q];
        if (empty) { ++q; continue; }
        auto &t = T[q + 1]; if (t.size() != x.size()) return suite::fmt("gnuplot sees %zu points instead of %zu of %s", t.size(), x.size(), who.c_str());
        for (size_t i = 0; i < t.size(); ++i)
          if (kd.cmd == "splot")
          { // bars around the points, the first one cut in half
            double X = i % 2 ? i / 2 + .5 : std::max(0., i / 2 - .5);
            if (!near(t[i][0], X)) return suite::fmt("%s: point %zu at %g instead of %g", who.c_str(), i, t[i][0], X);
            if (!near(t[i][1], w.time)) return suite::fmt("%s is at time %g instead of %g", who.c_str(), t[i][1], w.time);
            if (!near(t[i][2], x[i])) return suite::fmt("%s: %g at point %zu instead of %g", who.c_str(), t[i][2], i, x[i]);
          }
          else if (!near(t[i][0], i) || !near(t[i][1], x[i])) return suite::fmt("%s: (%g, %g) instead of (%zu, %g)", who.c_str(), t[i][0], t[i][1], i, x[i]);
        ++q;
      }
      return "";
    }
    if (st.plots.size() != want.size() * vars.size()) return suite::fmt("%zu plots instead of %zu", st.plots.size(), want.size() * vars.size());
    size_t q = 0;
    for (auto &w : want) for (auto &v : vars)
    {
      c.step(); auto &p = st.plots[q]; auto &T = tab[q]; ++q; auto who = suite::fmt("%s at step %d", v.second.c_str(), w.step);
      if (p.out != suite::fmt("'plots/%s_%05d.svg'", v.second.c_str(), w.step)) return who + ": written to " + p.out;
      if (p.title != (kd.title == "notitle" ? "''" : suite::fmt("'%s  (t/dt=%d)'", v.second.c_str(), w.step))) return who + ": titled " + p.title;
      if (p.cmd != kd.cmd) return who + ": made with " + p.cmd;
      if (p.entry.size() != (kd.lines() ? 2u : 1u)) return suite::fmt("%s: plotted %zu times", who.c_str(), p.entry.size());
      auto &f = w.f[v.first]; // (first index slowest)
      for (auto &bl : p.block) { why = same(bl, f, who.c_str()); if (!why.empty()) return why; }
      if (kd.cmd == "splot" && T.size() != p.entry.size()) return who + suite::fmt(": gnuplot sees %zu surfaces", T.size());
      for (auto &t : T)
      {
        std::map<std::pair<int, int>, double> have; for (auto &x : t) have[{(int)std::lround(x[0] * 100), (int)std::lround(x[1] * 100)}] = x[2];
        if (t.size() != f.size() || have.size() != f.size()) return who + suite::fmt(": gnuplot sees %zu points", t.size());
        for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) if (!have.count({100 * i, 100 * j}) || !near(have[{100 * i, 100 * j}], f[i * m + j])) return who + suite::fmt(": at (%d,%d) gnuplot does not see %g", i, j, f[i * m + j]);
      }
    }
    return "";
  }
  std::string show(const Hist &h) { std::string s; for (int x : h) s += (s.empty() ? "" : "+") + std::to_string(x); return s; }
  std::vector<Hist> histories(int most)
  {
    std::vector<Hist> v;
    for (int n = 0; n <= most; ++n) v.push_back({n});
    for (int a = 1; a < most; ++a) v.push_back({a, most - a});
    v.push_back({1, 0, 1, 1});
    return v;
  }
  template <class out_t> typename out_t::rt_params_t params(const Setup &s, const Vars &vars, const Kind &kd)
  {
    auto p = base_params<out_t>(s);
    for (auto &v : vars) p.outvars[v.first] = {v.second, "1"};
    p.gnuplot_command = kd.cmd; if (!kd.with.empty()) p.gnuplot_with = kd.with; p.gnuplot_title = kd.title;
    if (s.D == 2) { p.outdir = "plots"; p.gnuplot_output = "%s_%05d.svg"; }
    return p;
  }
  void prepare() { struct rlimit l{1 << 26, 1 << 26}; setrlimit(RLIMIT_FSIZE, &l); signal(SIGXFSZ, SIG_DFL); boost::filesystem::create_directories("plots"); }
  template <int NE> std::vector<Vars> selections() { if (NE == 1) return {{{0, "rho"}}}; return {{{0, "a"}, {1, "b"}}, {{1, "b"}}}; }
  // 1D plots are announced with the first call: those of several calls are listed findings
  bool later(const Setup &s, const Sel &q, const Hist &h) { if (s.D == 2) return false; int n = 0; for (int x : h) n += x; for (int k = h[0] + 1; k <= n; ++k) if (q.on(k)) return true; return false; }

  // ------------------------------------------------------------------ fixed steps
  template <int D, int NE, bool FLT> void fixed(suite::Ctx &c, I3 n, int most, std::vector<Kind> kinds)
  {
    prepare();
    using ct = typename std::conditional<FLT, Flt<CT<D, NE, opts::iga | opts::fct>>, CT<D, NE, opts::iga | opts::fct>>::type;
    using K = Mpd<ct>; using base_t = typename K::base_t; using out_t = output::gnuplot<base_t>;
    Setup s = setup<D, NE>(n); std::vector<Rec> ref;
    {
      typename bind_bc<concurr::serial, base_t, CY<D>>::type r(base_params<base_t>(s)); init<K>(r, s);
      for (int k = 0; k <= most + 3; ++k) { if (k) r.advance(1); ref.push_back({(double)k, k, fields<decltype(r), NE>(r)}); }
    }
    for (auto &kd : kinds) for (int freq = 1; freq <= (c.thorough ? 4 : 3); ++freq) for (int start = 0; start <= 2 * freq; start += freq) for (int win = 1; win <= freq; ++win) for (auto &h : histories(most)) for (auto &v : selections<NE>())
    {
      if (c.enough()) return;
      Sel q{freq, start, win};
      if (later(s, q, h)) { c.extra["left out: records of later calls in 1D"]++; continue; }
      std::string id = suite::fmt("%dx%d %s %s freq %d start %d window %d steps %s %s%s", n[0], n[1], kd.cmd.c_str(), kd.with.c_str(), freq, start, win, show(h).c_str(), v.begin()->second.c_str(), v.size() > 1 ? "+" : "");
      if (!c.item(id)) continue;
      c.sample(id); boost::filesystem::remove("stream"); std::vector<V> fin; int N = 0; for (int x : h) N += x;
      {
        auto p = params<out_t>(s, v, kd); p.outfreq = freq; p.outstart = start; p.outwindow = win;
        typename bind_bc<concurr::serial, out_t, CY<D>>::type r(p); init<K>(r, s);
        for (int x : h) r.advance(x);
        fin = fields<decltype(r), NE>(r);
      }
      c.traces++; for (auto &f : fin) c.state(f);
      std::string why; std::vector<Rec> want; for (int k = 0; k <= N; ++k) if (q.on(k)) want.push_back(ref[k]);
      if (fin != ref[N].f) why = "the solution differs from that of a run without output"; else why = compare(c, s, want, v, kd, h[0] == 0);
      if (!why.empty()) c.viol(id, id + ": " + why);
    }
  }
  // records of later calls in 1D
  void later_calls(suite::Ctx &c)
  {
    prepare(); using K = Mpd<CT<1, 1, opts::iga | opts::fct>>; using out_t = output::gnuplot<typename K::base_t>;
    Setup s = setup<1, 1>({5, 1, 1}); std::vector<Rec> ref;
    { typename bind_bc<concurr::serial, typename K::base_t, CY<1>>::type r(base_params<typename K::base_t>(s)); init<K>(r, s); for (int k = 0; k <= 6; ++k) { if (k) r.advance(1); ref.push_back({(double)k, k, fields<decltype(r), 1>(r)}); } }
    for (auto &h : {Hist{1, 2}, Hist{0, 2}})
    {
      std::string id = "1D steps " + show(h); if (!c.item(id)) continue;
      Vars v{{0, "rho"}}; Kind kd; int N = 0; for (int x : h) N += x; boost::filesystem::remove("stream");
      { typename bind_bc<concurr::serial, out_t, CY<1>>::type r(params<out_t>(s, v, kd)); init<K>(r, s); for (int x : h) r.advance(x); }
      c.traces++; auto why = compare(c, s, {ref.begin(), ref.begin() + N + 1}, v, kd, h[0] == 0); if (!why.empty()) c.viol(id, id + ": " + why);
    }
  }

  // ------------------------------------------------------------------ adaptive steps
  struct Step { double t0, t1; std::vector<V> f0, f1; };
  std::vector<Step> *slog;
  template <class ct> struct prb_t : solvers::mpdata<ct>
  {
    using parent_t = solvers::mpdata<ct>; using parent_t::parent_t;
    std::vector<V> all() { std::vector<V> v; for (int e = 0; e < (int)ct::n_eqns; ++e) v.push_back(read(this->mem->advectee(e))); return v; }
    bool calc_gc() { double f = 1 + .75 * std::sin(3 * this->time); for (int d = 0; d < (int)ct::n_dims; ++d) { this->mem->GC[d] = this->dt * f * (*pat)[d]; } return true; }
    void hook_ante_step() { parent_t::hook_ante_step(); slog->push_back({this->time, 0, all(), {}}); }
    void hook_post_step() { parent_t::hook_post_step(); slog->back().t1 = this->time; slog->back().f1 = all(); }
    static std::vector<blitz::Array<double, ct::n_dims>> *pat;
    void hook_ante_loop(const typename parent_t::advance_arg_t nt)
    {
      parent_t::hook_ante_loop(nt);
      for (int d = 0; d < (int)ct::n_dims; ++d) { pat->push_back(this->mem->GC[d].copy()); pat->back() /= this->dt; }
    }
  };
  template <class ct> std::vector<blitz::Array<double, ct::n_dims>> *prb_t<ct>::pat;
  template <int D> void adaptive(suite::Ctx &c)
  {
    prepare(); using ct = CT<D, 2, opts::iga | opts::fct, true>; using P = prb_t<ct>; using K = Mpd<ct>; using out_t = output::gnuplot<P>;
    Setup s = setup<D, 2>(D == 1 ? I3{6, 1, 1} : I3{5, 4, 1}); s.dt = 1;
    std::vector<V> spans{{2}, {.5}, {1}, {.0625}, {7.25}, {0}, {.5, 1.5}, {1, .25, .25}};
    for (double maxc : {.02, .05, .1, .4}) for (double f : {.25, .5, 1., 1.75, 3.}) for (auto &sp : spans) for (auto &v : selections<2>()) for (int plot = 0; plot < 3 - D; ++plot)
    {
      if (c.enough()) return;
      std::string id = suite::fmt("Courant bound %g freq %g spans %s %s%s", maxc, f, suite::show(sp).c_str(), v.begin()->second.c_str(), plot ? " plot" : "");
      if (!c.item(id)) continue;
      s.max_courant = maxc; std::vector<blitz::Array<double, D>> pat; P::pat = &pat; std::vector<V> fin[2]; std::vector<Step> log;
      {
        slog = &log; typename bind_bc<concurr::serial, P, CY<D>>::type r(base_params<P>(s)); init<K>(r, s);
        for (double x : sp) r.advance(x);
        fin[0] = fields<decltype(r), 2>(r);
      }
      std::vector<Rec> want{{0, 0, log.empty() ? fin[0] : log[0].f0}}; bool skip = false;
      for (size_t k = 0; k < log.size(); ++k)
      {
        int a = std::floor(log[k].t0 / f), b = std::floor(log[k].t1 / f);
        if (b - a > 1) skip = true;
        if (b <= a) continue;
        double t = b * f, t0 = log[k].t0, t1 = log[k].t1; if (D == 1 && t > sp[0]) skip = true; // (announced with the first call)
        Rec r{t, (int)k + 1, {}}; for (int e = 0; e < 2; ++e) { V y; for (size_t i = 0; i < log[k].f0[e].size(); ++i) y.push_back(log[k].f0[e][i] + (log[k].f1[e][i] - log[k].f0[e][i]) * ((t - t0) / (t1 - t0))); r.f.push_back(y); }
        want.push_back(r);
      }
      if (skip) { c.extra["left out: more than one record within a step, or beyond the first call (1D)"]++; continue; }
      Kind kd; if (plot) kd.cmd = "plot"; pat.clear(); boost::filesystem::remove("stream"); std::vector<Step> log2; slog = &log2;
      {
        auto p = params<out_t>(s, v, kd); p.outfreq = f;
        typename bind_bc<concurr::serial, out_t, CY<D>>::type r(p); init<K>(r, s);
        for (double x : sp) r.advance(x);
        fin[1] = fields<decltype(r), 2>(r);
      }
      c.traces++; c.sample(id); for (auto &x : fin[1]) c.state(x); c.extra["records"] += want.size();
      auto why = fin[0] != fin[1] ? "the solution differs from that of a run without output" : compare(c, s, want, v, kd, sp[0] == 0);
      if (!why.empty()) c.viol(id, id + ": " + why);
    }
  }

  // ------------------------------------------------------------------ settings
  template <int D> void settings(suite::Ctx &c)
  {
    prepare(); using K = Mpd<CT<D, 1, opts::iga | opts::fct>>; using out_t = output::gnuplot<typename K::base_t>; using P = typename out_t::rt_params_t;
    Setup s = setup<D, 1>(D == 1 ? I3{5, 1, 1} : I3{4, 3, 1});
    struct Opt { const char *name; std::function<void(P &)> set; std::string line; };
    std::vector<Opt> o{
      {"xlabel", [](P &p) { p.gnuplot_xlabel = "east"; }, "set xlabel 'east'"}, {"ylabel", [](P &p) { p.gnuplot_ylabel = "north"; }, "set ylabel 'north'"},
      {"zrange", [](P &p) { p.gnuplot_zrange = "[-1:5]"; }, "set zrange [-1:5]"}, {"xrange", [](P &p) { p.gnuplot_xrange = "[1:3]"; }, "set xrange [1:3]"},
      {"size", [](P &p) { p.gnuplot_size = "ratio .5"; }, "set size ratio .5"}, {"fontsize", [](P &p) { p.gnuplot_fontsize = "7"; }, "set termoption font \",7\""},
      {"view", [](P &p) { p.gnuplot_view = "30,60"; }, "set view 30,60"}, {"border", [](P &p) { p.gnuplot_border = "4095"; }, "set border 4095"},
      {"term", [](P &p) { p.gnuplot_term = "svg"; }, "set term svg"}, {"palette", [](P &p) { p.gnuplot_palette = "gray"; }, "set palette gray"},
      {"cbtics", [](P &p) { p.gnuplot_cbtics = "1"; }, "set cbtics 1"}, {"grid", [](P &p) { p.gnuplot_grid = false; }, "unset grid"}};
    std::vector<std::string> dflt{"set xlabel 'x/dx'", D == 1 ? "set ylabel 't/dt'" : "set ylabel 'y/dy'", "set zrange [*:*]", suite::fmt("set xrange [0:%d]", s.n[0] - 1), D == 1 ? "set size noratio" : "set size square", "set termoption font \",15\"", "set view ", "set border ", "set term svg dynamic", "set palette ", "set cbtics ", "set grid"};
    if (D == 1) { o.push_back({"ticslevel", [](P &p) { p.gnuplot_ticslevel = ".5"; }, "set ticslevel .5"}); dflt.push_back("set ticslevel 0"); o.push_back({"xyplane", [](P &p) { p.gnuplot_xyplane_at = "-1"; }, "set xyplane at -1"}); dflt.push_back(""); o.push_back({"title", [](P &p) { p.gnuplot_title = "flow"; }, "set title 'flow'"}); dflt.push_back("set title ''"); o.push_back({"output", [](P &p) { p.gnuplot_output = "o.svg"; }, "set output 'o.svg'"}); dflt.push_back("set output 'out.svg'"); }
    else
    {
      o.push_back({"yrange", [](P &p) { p.gnuplot_yrange = "[0:1]"; }, "set yrange [0:1]"}); dflt.push_back(suite::fmt("set yrange [0:%d]", s.n[1] - 1));
      o.push_back({"cbrange", [](P &p) { p.gnuplot_cbrange = "[0:2]"; }, "set cbrange [0:2]"}); dflt.push_back("set cbrange [*:*]");
      o.push_back({"surface", [](P &p) { p.gnuplot_surface = false; p.gnuplot_with = "lines"; p.gnuplot_contour = true; p.gnuplot_cntrparam = "levels 3"; }, "set cntrparam levels 3"}); dflt.push_back("");
    }
    // nothing, each alone, each pair, all
    int N = o.size(); std::vector<std::vector<int>> sets{{}};
    for (int i = 0; i < N; ++i) { sets.push_back({i}); for (int j = 0; j < i; ++j) sets.push_back({i, j}); } { std::vector<int> a; for (int i = 0; i < N; ++i) a.push_back(i); sets.push_back(a); }
    for (auto &S : sets)
    {
      if (c.enough()) return;
      std::string id = suite::fmt("%dD set:", D); for (int i : S) id += std::string(" ") + o[i].name; if (!c.item(id)) continue; c.sample(id); boost::filesystem::remove("stream");
      { auto p = params<out_t>(s, {{0, "rho"}}, Kind()); for (int i : S) o[i].set(p); typename bind_bc<concurr::serial, out_t, CY<D>>::type r(p); init<K>(r, s); r.advance(1); }
      c.traces++; auto b = slurp("stream"); auto st = take_apart(b); std::string why = st.bad;
      for (int i = 0; i < N && why.empty(); ++i)
      { // gnuplot obeys the last one
        std::string want = std::count(S.begin(), S.end(), i) ? o[i].line : dflt[i]; if (want.empty()) continue;
        if (D == 1 && std::string(o[i].name) == "ylabel" && want == dflt[i]) { bool in = false; for (auto &l : st.set) in |= l == want; if (!in) why = "lacks " + want; continue; }
        std::string head = o[i].line.substr(0, 9), last; for (auto &l : st.set) if (!l.compare(0, 9, head) || (i == 11 && (l == "set grid" || l == "unset grid"))) last = l;
        if (i == 11 ? last != want : std::find(st.set.begin(), st.set.end(), want) == st.set.end()) why = "lacks '" + want + "'";
      }
      if (why.empty()) { std::vector<std::vector<Pts>> tab; why = gnuplot(st, b, tab); if (std::count(S.begin(), S.end(), 3) || S.size() > 3) { if (why.find("line ") != std::string::npos) why.clear(); } }
      if (!why.empty()) c.viol(id, id + ": " + why);
    }
    // unusable ones in 1D
    if (D == 1) for (std::string cmd : {"splot", "plot", "replot", ""}) for (std::string yr : {"[*:*]", "[0:1]"}) for (std::string with : {"histeps", "lines", ""}) for (int nt : {0, 1})
    {
      std::string id = "1D '" + cmd + "' yrange " + yr + " with '" + with + "'" + suite::fmt(" steps %d", nt); if (!c.item(id)) continue; boost::filesystem::remove("stream");
      bool bad = cmd == "splot" ? yr != "[*:*]" : cmd == "plot" ? with != "histeps" : true, thrown = false;
      try { auto p = params<out_t>(s, {{0, "rho"}}, Kind()); p.gnuplot_command = cmd; p.gnuplot_yrange = yr; p.gnuplot_with = with; typename bind_bc<concurr::serial, out_t, CY<D>>::type r(p); init<K>(r, s); r.advance(nt); } catch (std::runtime_error &) { thrown = true; }
      c.traces++; if (thrown != bad) c.viol(id, id + (bad ? ": not reported" : ": rejected"));
    }
  }
  Kind kind(const char *cmd, const char *with = "", const char *title = "") { Kind k; k.cmd = cmd; k.with = with; k.title = title; return k; }
}

#if PART == 0
CASE("1D fixed steps", 50, [](suite::Ctx &c) { for (int n : {3, 4, 5, 8}) fixed<1, 1, false>(c, {n, 1, 1}, n == 5 ? 5 : 3, {kind("splot"), kind("plot")}); });
CASE("1D fixed steps 2 equations", 50, [](suite::Ctx &c) { fixed<1, 2, false>(c, {5, 1, 1}, c.thorough ? 7 : 4, {kind("splot"), kind("plot")}); });
CASE("1D records of later calls", 1, [](suite::Ctx &c) { later_calls(c); });
#elif PART == 1
CASE("2D fixed steps", 50, [](suite::Ctx &c) { for (int n = 3; n <= 5; ++n) for (int m = 3; m <= 5; ++m) fixed<2, 1, false>(c, {n, m, 1}, n == 4 && m == 3 ? 4 : 2, {kind("splot"), kind("splot", "lines"), kind("splot", "", "notitle"), kind("splot", "points")}); });
CASE("2D fixed steps 2 equations, float", 40, [](suite::Ctx &c) { fixed<2, 2, true>(c, {4, 5, 1}, c.thorough ? 5 : 3, {kind("splot"), kind("splot", "lines")}); });
#elif PART == 2
CASE("1D adaptive steps", 30, [](suite::Ctx &c) { adaptive<1>(c); });
CASE("2D adaptive steps", 30, [](suite::Ctx &c) { adaptive<2>(c); });
#elif PART == 3
CASE("1D settings", 10, [](suite::Ctx &c) { settings<1>(c); });
CASE("2D settings", 10, [](suite::Ctx &c) { settings<2>(c); });
#endif
