// C14: set-ups. Every subset of the faults a set-up can have is built, in a child process, for every solver family:
// it must be reported before any step exactly if the subset is not empty. The same for flows that are non-divergent
// but for one edge, for the access to arrays that are not there, team sizes, MPI launchers, output settings and hooks.
#include "../mc/suite.hpp"
#include "../mc/cases.hpp"
#include <libmpdata++/concurr/cxx11_thread.hpp>
#include <libmpdata++/concurr/boost_thread.hpp>
#include <libmpdata++/concurr/openmp.hpp>
#include <libmpdata++/output/hdf5.hpp>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#ifndef PART
#define PART 0
#endif
using namespace cases;

namespace
{
  struct Shared { long steps, built, returned, thrown, asserted, intact, again; char msg[300]; } *sh;
  void quit(int c) { fflush(nullptr); _exit(c); }
}
#if PART == 0
extern "C" void __assert_fail(const char *e, const char *f, unsigned l, const char *) noexcept
{ // a failed assertion of the library ends the child
  extern void c14_failed(const char *, const char *, unsigned); c14_failed(e, f, l); _exit(78);
}
#endif
void c14_failed(const char *e, const char *f, unsigned l);
#if PART == 0
extern void *c14_shared;
void *c14_shared;
void c14_failed(const char *e, const char *f, unsigned l) { auto *s = (Shared *)c14_shared; if (s) { s->asserted = 1; snprintf(s->msg, sizeof s->msg, "%s:%u %s", strrchr(f, '/') ? strrchr(f, '/') + 1 : f, l, e); } }
#else
extern void *c14_shared;
#endif

namespace
{
  enum End { ACCEPTED, EXCEPTION, ASSERTION, OTHER };
  const char *const end_name[] = {"accepted", "reported by an exception", "reported by an assertion", "neither accepted nor reported"};
  // runs f in a child; tells how it ended
  template <class F> End child(F f)
  {
    if (!sh) sh = (Shared *)mmap(nullptr, sizeof *sh, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    c14_shared = sh; memset(sh, 0, sizeof *sh); fflush(nullptr);
    pid_t p = fork();
    if (p == 0)
    {
      for (int q : {SIGSEGV, SIGBUS, SIGFPE, SIGABRT, SIGILL}) signal(q, SIG_DFL);
      struct rlimit l{0, 0}; setrlimit(RLIMIT_CORE, &l); alarm(30); int nul = ::open("/dev/null", O_WRONLY); dup2(nul, 1); dup2(nul, 2);
      try { f(); sh->returned = 1; }
      catch (std::exception &e) { sh->thrown = 1; snprintf(sh->msg, sizeof sh->msg, "%s", e.what()); }
      catch (H5::Exception &e) { sh->thrown = 1; snprintf(sh->msg, sizeof sh->msg, "%s", e.getDetailMsg().c_str()); }
      quit(0);
    }
    int st = 0; waitpid(p, &st, 0);
    if (WIFSIGNALED(st)) { snprintf(sh->msg, sizeof sh->msg, "signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st))); return OTHER; }
    return sh->asserted ? ASSERTION : sh->thrown ? EXCEPTION : sh->returned ? ACCEPTED : OTHER;
  }
  template <class base_t> struct count_t : base_t
  {
    using base_t::base_t;
    void hook_ante_step() { sh->steps++; base_t::hook_ante_step(); }
  };
  // a flow without divergence, to the last bit
  double q10(double x) { return std::round(x * 1024) / 1024; }
  Flow flow(int D, I3 n, bool wrap = true) { Flow f; f.n = n; f.D = D; f.amp = .5; for (auto &w : f.wrap) w = wrap; if (D == 1) f.base[0] = .25; return f; }
  struct Exact
  {
    Flow f; double operator()(int d, int i, int j, int k) const
    {
      if (f.D == 1) return .25;
      auto A = [&](int c, int a, int b, int e) { return q10(f.pot(c, a, b, e)); };
      if (f.D == 2) return d == 0 ? A(0, i, j, 0) - A(0, i, j - 1, 0) : -(A(0, i, j, 0) - A(0, i - 1, j, 0));
      if (d == 0) return (A(2, i, j, k) - A(2, i, j - 1, k)) - (A(1, i, j, k) - A(1, i, j, k - 1));
      if (d == 1) return (A(0, i, j, k) - A(0, i, j, k - 1)) - (A(2, i, j, k) - A(2, i - 1, j, k));
      return (A(1, i, j, k) - A(1, i - 1, j, k)) - (A(0, i, j, k) - A(0, i, j - 1, k));
    }
  };
  template <class K> struct is_bou : std::false_type {};
  template <class ct> struct is_bou<Bou<ct>> : std::true_type {};
  template <class K> Setup good()
  {
    enum { D = K::ct::n_dims }; Setup s; s.D = D; s.n = D == 1 ? I3{6, 1, 1} : D == 2 ? I3{5, 4, 1} : I3{4, 5, 4}; s.dt = .125;
    auto n = s.n; Exact x{flow(D, n)};
    s.psi = [n](int e, int i, int j, int k) { return 1 + .25 * u01(e, cy(i, n[0]), n[1] > 1 ? cy(j, n[1]) : 0, n[2] > 1 ? cy(k, n[2]) : 0); };
    s.gc = [x](int d, int i, int j, int k) { return x(d, i, j, k); };
    s.G = [n](int i, int j, int k) { return 1 + .2 * u01(77, cy(i, n[0]), n[1] > 1 ? cy(j, n[1]) : 0, n[2] > 1 ? cy(k, n[2]) : 0); };
    if (is_bou<K>::value) { s.arrs = {"tht_e"}; s.arr = [](const std::string &, int, int, int) { return 300.; }; auto q = s.psi; s.psi = [q](int e, int i, int j, int k) { return e == D ? 300 + q(e, i, j, k) : q(e, i, j, k); }; }
    return s;
  }
  template <class K> struct velocity : std::false_type {};
  // ---------------------------------------------------------------- parameters
  template <class P> auto no_eta(P &p, int) -> decltype(p.eta, void()) { p.eta = 0; }
  template <class P> void no_eta(P &, long) {}
  template <class P> auto no_smg(P &p, int) -> decltype(p.smg_c, void()) { p.smg_c = 0; }
  template <class P> void no_smg(P &, long) {}
  template <class P> auto no_tht(P &p, int) -> decltype(p.Tht_ref, void()) { p.Tht_ref = 0; }
  template <class P> void no_tht(P &, long) {}
  template <class P> auto no_pc(P &p, int) -> decltype(p.pc_iters, void()) { p.pc_iters = -999; }
  template <class P> void no_pc(P &, long) {}
  template <class P> auto no_dj(P &p, int) -> decltype(p.dj, void()) { p.dj = 0; }
  template <class P> void no_dj(P &, long) {}
  template <class P> auto no_dk(P &p, int) -> decltype(p.dk, void()) { p.dk = 0; }
  template <class P> void no_dk(P &, long) {}
  enum Fault { F_SIZE0, F_SIZE1, F_SIZE2, F_ITER, F_DIV, F_DT, F_DI, F_DJ, F_DK, F_ETA, F_SMG, F_THT, F_PC, F_ALL };
  const char *const fault_name[] = {"size 0", "size 1", "size 2", "n_iters", "divergent flow", "dt", "di", "dj", "dk", "eta", "smg_c", "Tht_ref", "pc_iters"};
  std::string names(long m) { std::string s; for (int f = 0; f < F_ALL; ++f) if (m >> f & 1) s += (s.empty() ? "" : " + ") + std::string(fault_name[f]); return s.empty() ? "no fault" : s; }

  template <class K> void lattice(suite::Ctx &c, std::vector<Fault> fs)
  {
    enum { D = K::ct::n_dims }; using S = count_t<typename K::base_t>; using R = typename bind_bc<concurr::serial, S, CY<D>>::type;
    for (int d = 0; d < D; ++d) fs.push_back((Fault)(F_SIZE0 + d)); fs.push_back(F_ITER);
    for (double bogus : {0., -1., -3.}) for (long m = 0; m < 1 << fs.size(); ++m)
    {
      long set = 0; for (size_t b = 0; b < fs.size(); ++b) if (m >> b & 1) set |= 1L << fs[b];
      bool sizes = set & 7; if (bogus != 0 && !sizes && !(set >> F_ITER & 1)) continue; // (the same again)
      if (!c.thorough && __builtin_popcountl(set) > 4) continue;
      std::string id = names(set) + suite::fmt(" (%g)", bogus);
      if (!c.item(id)) continue;
      auto s = good<K>();
      for (int d = 0; d < D; ++d) if (set >> (F_SIZE0 + d) & 1) s.n[d] = (int)bogus;
      if (set >> F_ITER & 1) s.iters = (int)bogus; if (set >> F_DT & 1) s.dt = 0;
      if (set >> F_DIV & 1) { auto g = s.gc; s.gc = [g](int d, int i, int j, int k) { return g(d, i, j, k) + (d == 1 && i == 1 && j == 1 ? .0625 : 0); }; }
      auto e = child([&] {
        auto p = make_params<K>(s);
        typename S::rt_params_t q; static_cast<typename K::base_t::rt_params_t &>(q) = p;
        if (set >> F_DI & 1) q.di = 0; if (set >> F_DJ & 1) no_dj(q, 0); if (set >> F_DK & 1) no_dk(q, 0); if (set >> F_ETA & 1) no_eta(q, 0); if (set >> F_SMG & 1) no_smg(q, 0); if (set >> F_THT & 1) no_tht(q, 0); if (set >> F_PC & 1) no_pc(q, 0);
        R r(q); sh->built = 1; init<K>(r, s);
        auto before = observe<K>(r, false);
        try { r.advance(2); }
        catch (...)
        {
          sh->intact = r.time() == 0 && observe<K>(r, false) == before;
          throw;
        }
      });
      c.step(); c.traces++; c.state(std::vector<double>{(double)set, (double)e, (double)sh->built});
      c.extra[suite::fmt("%s", end_name[e])]++;
      if (set == 0 ? e != ACCEPTED : e != EXCEPTION && e != ASSERTION) { c.viol(id, id + ": " + end_name[e] + (sh->msg[0] ? std::string(" (") + sh->msg + ")" : "")); if (c.enough()) return; continue; }
      if (set == 0 && sh->steps != 2) { c.viol(id, id + suite::fmt(": %ld steps instead of 2", sh->steps)); if (c.enough()) return; }
      if (set && sh->steps) { c.viol(id, id + ": reported (" + sh->msg + ") only after a step was begun"); if (c.enough()) return; }
      if (set && sh->built && e == EXCEPTION && !sh->intact) { c.viol(id, id + ": rejected (" + sh->msg + ") with the state changed"); if (c.enough()) return; }
      if ((set & 7) && e != EXCEPTION && __builtin_popcountl(set) == 1) { c.viol(id, id + ": " + end_name[e] + " instead of an exception"); if (c.enough()) return; }
    }
  }
  // ---------------------------------------------------------------- sizes
  template <class K> void sizes(suite::Ctx &c, int lo, int hi)
  {
    enum { D = K::ct::n_dims }; using R = typename bind_bc<concurr::serial, typename K::base_t, CY<D>>::type;
    int w = hi - lo + 1; long all = 1; for (int d = 0; d < D; ++d) all *= w;
    for (long a = 0; a < all; ++a)
    {
      auto s = good<K>(); long q = a; bool ok = true; for (int d = 0; d < D; ++d) { s.n[d] = lo + q % w; q /= w; if (s.n[d] < 1) ok = false; }
      auto id = suite::fmt("grid %dx%dx%d", s.n[0], D > 1 ? s.n[1] : 1, D > 2 ? s.n[2] : 1); if (!c.item(id)) continue;
      auto e = child([&] { R r(make_params<K>(s)); auto x = r.advectee(0); bool right = true; for (int d = 0; d < D; ++d) right = right && x.extent(d) == s.n[d] && x.lbound(d) == 0; sh->intact = right; });
      c.step(); c.traces++; c.state(std::vector<double>{(double)a, (double)e});
      if (ok ? e != ACCEPTED : e != EXCEPTION) { c.viol(id, id + ": " + end_name[e] + " (" + sh->msg + ")"); if (c.enough()) return; }
      else if (ok && !sh->intact) { c.viol(id, id + ": the field has other extents"); if (c.enough()) return; }
    }
  }
  // ---------------------------------------------------------------- teams
  template <class K, template <class, bcond::bcond_e...> class X> struct dummy;
  template <class K, class R> void teams(suite::Ctx &c, const char *name, int most, int decomp)
  {
    enum { D = K::ct::n_dims };
    for (int t = 1; t <= most; ++t) for (int a = 1; a <= 6; ++a) for (int b = (D > 1 ? 1 : 0); b <= (D > 1 ? 6 : 0); ++b)
    {
      auto s = good<K>(); s.n[0] = a; if (D > 1) s.n[1] = b; if (D > 2) s.n[2] = 3;
      auto id = suite::fmt("%s, team of %d, grid %dx%d", name, t, a, b); if (!c.item(id)) continue;
      bool ok = true; // (the team is never larger than the number of points to share)
      auto e = child([&] { setenv("OMP_NUM_THREADS", std::to_string(t).c_str(), 1); omp_set_num_threads(t); R r(make_params<K>(s)); sh->intact = r.advectee(0).extent(0) == a; });
      c.step(); c.traces++; c.state(std::vector<double>{(double)t, (double)a, (double)b, (double)e});
      if (ok ? e != ACCEPTED : e != EXCEPTION) { c.viol(id, id + ": " + end_name[e] + " (" + sh->msg + ")"); if (c.enough()) return; }
    }
  }
  // the memory the team shares, built directly
  template <int D> void shared_memory(suite::Ctx &c)
  {
    using M = concurr::detail::sharedmem<double, D, 2>;
    for (int t = 1; t <= 8; ++t) for (int a = -1; a <= 6; ++a) for (int b = D > 1 ? -1 : 1; b <= (D > 1 ? 6 : 1); ++b) for (int k = D > 2 ? -1 : 1; k <= (D > 2 ? 4 : 1); ++k)
    {
      auto id = suite::fmt("memory for %d, grid %dx%dx%d", t, a, b, k); if (!c.item(id)) continue;
      std::array<int, D> g; int all[] = {a, b, k}; for (int d = 0; d < D; ++d) g[d] = all[d];
      bool ok = a > 0 && b > 0 && k > 0 && t <= (D < 3 ? a : b);
      auto e = child([&] { M m(g, t); bool right = true; for (int d = 0; d < D; ++d) right = right && m.grid_size[d].length() == g[d]; sh->intact = right; });
      c.step(); c.traces++; c.state(std::vector<double>{(double)t, (double)a, (double)b, (double)k, (double)e});
      if (ok ? e != ACCEPTED || !sh->intact : e != EXCEPTION) { c.viol(id, id + ": " + end_name[e] + " (" + sh->msg + ")"); if (c.enough()) return; }
    }
  }
  // ---------------------------------------------------------------- divergence
  template <class B> struct ends; // which directions are cyclic
  template <class K, class B> void divergence(suite::Ctx &c, I3 n, std::array<bool, 3> cyc, bool dfl)
  {
    enum { D = K::ct::n_dims }; using T = typename K::ct::real_t; using S = count_t<typename K::base_t>; using R = typename bind_bc<concurr::serial, S, B>::type;
    constexpr bool nug = opts::isset(K::ct::opts, opts::nug), vd = K::ct::var_dt;
    for (int seed = 1; seed <= (c.thorough ? 3 : 1); ++seed) for (double eps : {0., 1e-6, 1e-3}) for (int d = 0; d < D; ++d)
    for (int i = 0; i < n[0]; ++i) for (int j = 0; j < (D > 1 ? n[1] : 1); ++j) for (int k = 0; k < (D > 2 ? n[2] : 1); ++k)
    for (int sg : {1, -1}) for (double f : {0., .5, 2., 1000.})
    {
      I3 at{i, j, k}; bool skip = false, none = true;
      // a cell next to the edge that is not on an open end (the flow through the ends is adapted to the cells there)
      for (int x = 0; x < D; ++x) if (at[x] > n[x] - 2) skip = true; // (cyclic: the same as 0; else: the end)
      for (int side = 0; side < 2; ++side) { bool in = true; for (int x = 0; x < D; ++x) { int q = at[x] + (x == d ? side : 0); if (!cyc[x] && (q < 1 || q > n[x] - 2)) in = false; } if (in) none = false; }
      if (skip || none || (f == 0 && (i || j || k || d || sg < 0))) continue;
      double tol = eps == 0 ? std::numeric_limits<T>::epsilon() : eps; if (vd && (f == .5 || f == 2)) continue;
      if (vd && f == 1000 && eps == 1e-3) continue; // (the Courant number would be scaled)
      auto id = suite::fmt("flow %d, tolerance %g, edge %d of (%d,%d,%d) %+g tolerances", seed, tol, d, i, j, k, sg * f); if (!c.item(id)) continue;
      Setup s = good<K>(); s.n = n; auto m = n; Exact x{flow(D, n)}; x.f.seed = seed; for (int q = 0; q < D; ++q) x.f.wrap[q] = cyc[q];
      auto cyci = [m, cyc](int q, int v) { return cyc[q] ? cy(v, m[q]) : v; };
      s.psi = [m](int e, int a, int b, int e2) { return 1 + u01(e, cy(a, m[0]), m[1] > 1 ? cy(b, m[1]) : 0, m[2] > 1 ? cy(e2, m[2]) : 0); };
      s.G = [m](int a, int b, int e) { return 1 + .2 * u01(77, cy(a, m[0]), m[1] > 1 ? cy(b, m[1]) : 0, m[2] > 1 ? cy(e, m[2]) : 0); };
      auto delta = [&](double amount) { s.gc = [=](int q, int a, int b, int e) { return x(q, a, b, e) + (q == d && cyci(0, a) == i && (D < 2 || cyci(1, b) == j) && (D < 3 || cyci(2, e) == k) ? amount : 0.); }; };
      // the density of the cells whose divergence is affected
      double g = 1; if (nug) { g = 1e9; for (int side = 0; side < 2; ++side) { I3 q = at; q[d] += side; bool in = true; for (int z = 0; z < D; ++z) if (!cyc[z] && (q[z] < 1 || q[z] > n[z] - 2)) in = false; if (in) g = std::min(g, s.G(q[0], q[1], q[2])); } if (f < 1) g = 1; }
      delta(sg * f * tol * g);
      auto e = child([&] {
        typename S::rt_params_t p; static_cast<typename K::base_t::rt_params_t &>(p) = make_params<K>(s); if (eps) p.max_abs_div_eps = eps;
        R r(p); init<K>(r, s); auto before = observe<K>(r, false);
        try { r.advance(1); }
        catch (...) { sh->intact = r.time() == 0 && observe<K>(r, false) == before; throw; }
      });
      bool bad = f > 1 && !dfl; c.step(); c.traces++; c.state(std::vector<double>{(double)d, (double)i, (double)j, (double)k, f * sg, eps, (double)e});
      c.extra[bad ? "divergent" : "not divergent"]++;
      if (bad ? e != EXCEPTION : e != ACCEPTED) { c.viol(id, id + ": " + end_name[e] + " (" + sh->msg + ")"); if (c.enough()) return; }
      else if (bad && (sh->steps || !sh->intact)) { c.viol(id, id + ": rejected after a step or with the state changed"); if (c.enough()) return; }
    }
  }
  // ---------------------------------------------------------------- arrays that are there, or not
  template <class K> void arrays(suite::Ctx &c, bool vab, std::vector<std::string> there)
  {
    enum { D = K::ct::n_dims }; using R = typename bind_bc<concurr::serial, typename K::base_t, CY<D>>::type;
    auto s = good<K>(); constexpr bool nug = opts::isset(K::ct::opts, opts::nug);
    if (vab) { s.arrs = {"vab_coeff"}; for (int d = 0; d < D; ++d) s.arrs.push_back(suite::fmt("vab_relax%d", d)); s.arr = [](const std::string &, int, int, int) { return .125; }; }
    auto one = [&](const std::string &what, bool ok, auto f) {
      for (int after = 0; after < 2; ++after)
      {
        auto id = what + (after ? " after a step" : ""); if (!c.item(id)) continue;
        auto e = child([&] {
          R r(make_params<K>(s)); init<K>(r, s); if (after) r.advance(1);
          auto a = f(r); bool right = true; for (int d = 0; d < D; ++d) right = right && a.extent(d) == s.n[d] && a.lbound(d) == 0; sh->intact = right; });
        c.step(); c.traces++; c.state(std::vector<double>{(double)hsh(what.size(), what[0], what.back(), 0), (double)after, (double)e});
        if (ok ? e != ACCEPTED : e != EXCEPTION) c.viol(id, id + ": " + end_name[e] + " (" + sh->msg + ")");
        else if (ok && !sh->intact) c.viol(id, id + ": an array of other extents");
      }
    };
    one("g_factor()", nug, [](R &r) { return r.g_factor(); });
    one("vab_coefficient()", vab, [](R &r) { return r.vab_coefficient(); });
    for (int d = 0; d < D; ++d) one(suite::fmt("vab_relaxed_state(%d)", d), vab, [d](R &r) { return r.vab_relaxed_state(d); });
    for (int e = 0; e < (int)K::ct::n_eqns; ++e) one(suite::fmt("advectee(%d)", e), true, [e](R &r) { return r.advectee(e); });
    std::vector<std::string> all{"tht_e", "tht_abs", "hflux_frc", "mix_len", "nothing", ""};
    if constexpr (D > 1) for (auto &n : all) one("sclr_array(\"" + n + "\")", std::count(there.begin(), there.end(), n) > 0, [n](R &r) { return r.sclr_array(n); });
  }
  // ---------------------------------------------------------------- MPI launchers
  inline void launchers(suite::Ctx &c)
  {
    using K = Mpd<CT<2, 1, opts::iga | opts::fct>>; using R = typename bind_bc<concurr::serial, K::base_t, CY<2>>::type; auto s = good<K>();
    const char *rank[] = {"MV2_COMM_WORLD_RANK", "PMI_RANK", "OMPI_COMM_WORLD_RANK", "LAMRANK"}, *size[] = {"MV2_COMM_WORLD_SIZE", "PMI_SIZE", "OMPI_COMM_WORLD_SIZE", "LAMSIZE"};
    for (int m = 0; m < 256; ++m) for (int rk = 0; rk < 2; ++rk)
    {
      bool many = false; std::string id = suite::fmt("rank %d", rk); for (int q = 0; q < 4; ++q) { int v = m >> 2 * q & 3; id += suite::fmt(" %s=%s", size[q], v == 0 ? "-" : v == 1 ? "1" : v == 2 ? "2" : "64"); if (v > 1) many = true; }
      if (!c.item(id)) continue;
      auto e = child([&] {
        for (int q = 0; q < 4; ++q) { unsetenv(rank[q]); unsetenv(size[q]); int v = m >> 2 * q & 3; if (v) { setenv(rank[q], rk ? "1" : "0", 1); setenv(size[q], v == 1 ? "1" : v == 2 ? "2" : "64", 1); } }
        R r(make_params<K>(s)); init<K>(r, s); r.advance(1); });
      c.step(); c.traces++; c.state(std::vector<double>{(double)m, (double)rk, (double)e});
      if (many ? e != EXCEPTION : e != ACCEPTED) { c.viol(id, id + ": " + end_name[e] + " (" + sh->msg + ")"); if (c.enough()) return; }
    }
  }
  // ---------------------------------------------------------------- output settings
  template <bool VD> void output_settings(suite::Ctx &c)
  {
    using K = Mpd<CT<1, 1, opts::iga | opts::fct, VD>>; using S = count_t<output::hdf5<typename K::base_t>>; using R = typename bind_bc<concurr::serial, S, CY<1>>::type; auto s = good<K>();
    for (int f = 1; f <= 4; ++f) for (int st = 0; st <= 6; ++st) for (int dir = 0; dir < 4; ++dir)
    {
      const char *dn[] = {"new directory", "directory there already", "its parent missing", "a file"};
      auto id = suite::fmt("outfreq %d outstart %d, %s", f, st, dn[dir]); if (!c.item(id)) continue;
      boost::filesystem::remove_all("o"); boost::filesystem::remove("o.file"); if (dir == 1) boost::filesystem::create_directory("o"); if (dir == 3) { FILE *q = fopen("o.file", "w"); fclose(q); }
      auto e = child([&] {
        auto p = base_params<S>(s); p.outfreq = f; p.outstart = st; p.outdir = dir == 2 ? "o/missing/o" : dir == 3 ? "o.file" : "o"; p.outvars = {{0, {"psi", ""}}};
        H5::Exception::dontPrint(); R r(p); init<K>(r, s); r.advance(VD ? .25 : 2); });
      bool ok = dir < 2 && (VD ? st == 0 : st % f == 0); c.step(); c.traces++; c.state(std::vector<double>{(double)f, (double)st, (double)dir, (double)e});
      if (ok ? e != ACCEPTED : e != EXCEPTION && e != ASSERTION) { c.viol(id, id + ": " + end_name[e] + " (" + sh->msg + ")"); if (c.enough()) return; }
      else if (!ok && sh->steps) { c.viol(id, id + ": reported only after a step was begun"); if (c.enough()) return; }
    }
  }
  // ---------------------------------------------------------------- hooks that do not call the inherited ones
  long omitted; // a bit per hook
  template <class base_t> struct omit_t : base_t
  {
    using base_t::base_t;
    void hook_ante_loop(const typename base_t::advance_arg_t nt) { if (!(omitted & 1)) base_t::hook_ante_loop(nt); }
    void hook_ante_step() { if (!(omitted & 2)) base_t::hook_ante_step(); }
    void hook_post_step() { if (!(omitted & 4)) base_t::hook_post_step(); }
    void hook_ante_delayed_step() { if (!(omitted & 8)) base_t::hook_ante_delayed_step(); }
  };
  template <class base_t> struct omit_rhs : omit_t<base_t>
  {
    using omit_t<base_t>::omit_t;
    void update_rhs(libmpdataxx::arrvec_t<typename base_t::arr_t> &rhs, const typename base_t::real_t &dt, const int &at) { if (!(omitted & 16)) base_t::update_rhs(rhs, dt, at); }
  };
  template <class K, class S> void hooks(suite::Ctx &c, int n)
  {
    enum { D = K::ct::n_dims }; using R = typename bind_bc<concurr::serial, S, CY<D>>::type; auto s = good<K>();
    for (long m = 0; m < 1 << n; ++m) for (int hist = 0; hist < 3; ++hist)
    {
      auto id = suite::fmt("omitted %ld, %s", m, hist == 0 ? "1 step" : hist == 1 ? "3 steps" : "1 + 2 steps"); if (!c.item(id)) continue;
      auto e = child([&] {
        omitted = m; typename S::rt_params_t q; static_cast<typename K::base_t::rt_params_t &>(q) = make_params<K>(s);
        std::unique_ptr<R> r(new R(q)); init<K>(*r, s); if (hist == 1) r->advance(3); else r->advance(1); if (hist == 2) r->advance(2); r.reset(); });
      c.step(); c.traces++; c.state(std::vector<double>{(double)m, (double)hist, (double)e});
      if (m ? e != ASSERTION && e != EXCEPTION : e != ACCEPTED) { c.viol(id, id + ": " + end_name[e] + " (" + sh->msg + ")"); if (c.enough()) return; }
    }
  }
}
#define IF opts::iga | opts::fct
#if PART == 0
CASE("faults advection 1D", 10, [](suite::Ctx &c) { lattice<Mpd<CT<1, 2, IF>>>(c, {}); });
CASE("faults source terms 1D", 10, [](suite::Ctx &c) { lattice<Rhs<ctRhs<1, (int)solvers::euler_b, IF>>>(c, {F_DT}); });
CASE("faults velocities 1D", 10, [](suite::Ctx &c) { lattice<Vip<ctVip<1, (int)solvers::euler_b, IF>>>(c, {F_DT, F_DI}); });
CASE("faults water 1D", 10, [](suite::Ctx &c) { lattice<Shw<ctShw<1, IF>>>(c, {F_DT, F_DI}); });
CASE("sizes 1D", 1, [](suite::Ctx &c) { sizes<Mpd<CT<1, 2, IF>>>(c, -40, 40); });
CASE("launchers", 10, launchers);
#elif PART == 1
CASE("faults advection 2D", 10, [](suite::Ctx &c) { lattice<Mpd<CT<2, 2, IF>>>(c, {F_DIV}); });
CASE("faults source terms 2D", 10, [](suite::Ctx &c) { lattice<Rhs<ctRhs<2, (int)solvers::trapez, IF>>>(c, {F_DIV, F_DT}); });
CASE("faults velocities 2D", 10, [](suite::Ctx &c) { lattice<Vip<ctVip<2, (int)solvers::trapez, IF>>>(c, {F_DT, F_DI, F_DJ}); });
CASE("faults water 2D", 10, [](suite::Ctx &c) { lattice<Shw<ctShw<2, IF>>>(c, {F_DT, F_DI, F_DJ}); });
CASE("sizes 2D", 5, [](suite::Ctx &c) { sizes<Mpd<CT<2, 2, IF>>>(c, -5, 7); });
CASE("hooks advection", 5, [](suite::Ctx &c) { using K = Mpd<CT<2, 2, IF>>; hooks<K, omit_t<K::base_t>>(c, 4); });
CASE("hooks source terms", 5, [](suite::Ctx &c) { using K = Rhs<ctRhs<1, (int)solvers::euler_b, IF>>; hooks<K, omit_rhs<solvers::mpdata_rhs<K::ct>>>(c, 5); });
#elif PART == 2
CASE("faults advection 3D", 10, [](suite::Ctx &c) { lattice<Mpd<CT<3, 2, IF>>>(c, {F_DIV}); });
CASE("faults velocities 3D", 10, [](suite::Ctx &c) { lattice<Vip<ctVip<3, (int)solvers::euler_a, IF>>>(c, {F_DT, F_DI, F_DJ, F_DK}); });
CASE("sizes 3D", 5, [](suite::Ctx &c) { sizes<Mpd<CT<3, 2, IF>>>(c, -2, 5); });
#elif PART == 3
CASE("faults pressure 2D", 10, [](suite::Ctx &c) { lattice<Prs<ctPrs<2, (int)solvers::cr, IF>>>(c, {F_DT, F_DI, F_DJ}); });
CASE("faults pressure pc 2D", 10, [](suite::Ctx &c) { lattice<Prs<ctPrs<2, (int)solvers::pc, IF>>>(c, {F_DT, F_DI, F_DJ, F_PC}); });
CASE("faults viscosity 2D", 10, [](suite::Ctx &c) { lattice<Sgs<ctSgs<2, (int)solvers::dns, (int)solvers::compact, IF>>>(c, {F_DT, F_DI, F_DJ, F_ETA}); });
CASE("faults Smagorinsky 2D", 10, [](suite::Ctx &c) { lattice<Sgs<ctSgs<2, (int)solvers::smg, (int)solvers::compact, IF>>>(c, {F_DT, F_DI, F_DJ, F_SMG}); });
#elif PART == 4
CASE("faults anisotropic Smagorinsky 3D", 10, [](suite::Ctx &c) { lattice<Sgs<ctSgs<3, (int)solvers::smgani, (int)solvers::compact, IF>>>(c, {F_DI, F_DK, F_SMG}); });
CASE("faults Boussinesq 2D", 10, [](suite::Ctx &c) { lattice<Bou<ctBou<2, false, IF>>>(c, {F_DT, F_DI, F_DJ, F_THT}); });
CASE("arrays Boussinesq 2D", 5, [](suite::Ctx &c) { arrays<Bou<ctBou<2, false, IF>>>(c, false, {"tht_e", "tht_abs", "hflux_frc"}); });
#elif PART == 5
CASE("divergence 2D cyclic", 20, [](suite::Ctx &c) { divergence<Mpd<CT<2, 1, IF>>, CY<2>>(c, {5, 4, 1}, {true, true, true}, false); });
CASE("divergence 2D open", 20, [](suite::Ctx &c) { divergence<Mpd<CT<2, 1, IF>>, BC<bcond::open, bcond::open, bcond::open, bcond::open>>(c, {5, 6, 1}, {false, false, false}, false); });
CASE("divergence 2D cyclic, open density", 20, [](suite::Ctx &c) { divergence<Mpd<CT<2, 1, IF | opts::nug>>, BC<bcond::cyclic, bcond::cyclic, bcond::open, bcond::open>>(c, {4, 5, 1}, {true, false, false}, false); });
CASE("divergence 2D divergent-flow option", 20, [](suite::Ctx &c) { divergence<Mpd<CT<2, 1, IF | opts::dfl>>, CY<2>>(c, {5, 4, 1}, {true, true, true}, true); });
CASE("divergence 2D adaptive", 20, [](suite::Ctx &c) { divergence<Mpd<CT<2, 1, IF, true>>, CY<2>>(c, {5, 4, 1}, {true, true, true}, false); });
CASE("output settings", 10, output_settings<false>);
CASE("output settings adaptive", 10, output_settings<true>);
#elif PART == 6
CASE("divergence 3D cyclic", 20, [](suite::Ctx &c) { divergence<Mpd<CT<3, 1, IF>>, CY<3>>(c, {3, 4, 4}, {true, true, true}, false); });
CASE("divergence 3D open density", 20, [](suite::Ctx &c) { divergence<Mpd<CT<3, 1, IF | opts::nug>>, BC<bcond::open, bcond::open, bcond::open, bcond::open, bcond::open, bcond::open>>(c, {4, 4, 5}, {false, false, false}, false); });
CASE("divergence 3D float", 20, [](suite::Ctx &c) { divergence<Mpd<Flt<CT<3, 1, IF>>>, CY<3>>(c, {4, 3, 4}, {true, true, true}, false); });
#elif PART == 7
template <class K, class R> static void tm(suite::Ctx &c, const char *n) { teams<K, R>(c, n, 8, K::ct::n_dims < 3 ? 0 : 1); }
CASE("shared memory", 10, [](suite::Ctx &c) { shared_memory<1>(c); shared_memory<2>(c); shared_memory<3>(c); });
CASE("teams 1D", 10, [](suite::Ctx &c) { using K = Mpd<CT<1, 1, IF>>; tm<K, bind_bc<concurr::openmp, K::base_t, CY<1>>::type>(c, "openmp"); tm<K, bind_bc<concurr::cxx11_thread, K::base_t, CY<1>>::type>(c, "cxx11_thread"); tm<K, bind_bc<concurr::boost_thread, K::base_t, CY<1>>::type>(c, "boost_thread"); });
CASE("teams 2D", 10, [](suite::Ctx &c) { using K = Mpd<CT<2, 1, IF>>; tm<K, bind_bc<concurr::openmp, K::base_t, CY<2>>::type>(c, "openmp"); tm<K, bind_bc<concurr::cxx11_thread, K::base_t, CY<2>>::type>(c, "cxx11_thread"); });
CASE("teams 3D", 10, [](suite::Ctx &c) { using K = Mpd<CT<3, 1, IF>>; tm<K, bind_bc<concurr::openmp, K::base_t, CY<3>>::type>(c, "openmp"); tm<K, bind_bc<concurr::boost_thread, K::base_t, CY<3>>::type>(c, "boost_thread"); });
CASE("arrays advection 1D", 2, [](suite::Ctx &c) { arrays<Mpd<CT<1, 2, IF>>>(c, false, {}); });
CASE("arrays advection 2D density", 2, [](suite::Ctx &c) { arrays<Mpd<CT<2, 2, IF | opts::nug>>>(c, false, {}); });
CASE("arrays velocities 2D", 2, [](suite::Ctx &c) { arrays<Vip<ctVip<2, (int)solvers::trapez, IF>>>(c, false, {}); });
CASE("arrays absorber 2D", 2, [](suite::Ctx &c) { auto f = arrays<Vip<ctVip<2, (int)solvers::trapez, IF, (int)solvers::expl>>>; f(c, true, {}); });
CASE("arrays absorber 3D density", 2, [](suite::Ctx &c) { arrays<Vip<ctVip<3, (int)solvers::trapez, IF | opts::nug, (int)solvers::impl>>>(c, true, {}); });
#endif
