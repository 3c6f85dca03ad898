// C20: crashes and failing writes. A run with output is repeated in a child process, once per file-system call it
// makes and per kind of fault: killed before the call, killed with the write half done, the call failing once
// (ENOSPC, EIO), every write failing from there on. What is in the directory afterwards is read back.
#include "../mc/suite.hpp"
#include "../mc/cases.hpp"
#include "../mc/h5.hpp"
#include <libmpdata++/output/hdf5_xdmf.hpp>
#include <dlfcn.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <unistd.h>
#ifndef PART
#define PART 0
#endif
using namespace cases;

// ---------------------------------------------------------------- stand-ins for the calls that change files
namespace fault
{
  enum Kind { NONE, KILL, TORN, NOSPC, EIO1, FULL, KINDS };
  static const char *const kind_name[] = {"no fault", "killed before it", "killed half way", "it fails with ENOSPC", "it fails with EIO", "it and all later writes fail with ENOSPC"};
  struct Shared { long calls, done, surfaced, finished; char what[400][96]; char msg[256]; };
  extern Shared *sh; extern bool armed; extern long at, at2; extern Kind kind, kind2; extern bool mine[4096];
  Kind point(const char *call, const char *detail); // what is to happen to this call
}
#if PART == 0
namespace fault
{
  Shared *sh; bool armed; long at = -1, at2 = -1; Kind kind, kind2; bool mine[4096]; bool full;
  Kind point(const char *call, const char *detail)
  {
    long n = sh->calls++;
    if (n < 400) snprintf(sh->what[n], sizeof sh->what[n], "%s %s", call, detail);
    bool w = !strcmp(call, "write") || !strcmp(call, "create") || !strcmp(call, "mkdir") || !strcmp(call, "truncate");
    if (full && w) return NOSPC;
    Kind k = n == at ? kind : n == at2 ? kind2 : NONE;
    if (k == KILL) _exit(77);
    if (k == FULL) { full = true; return w ? NOSPC : NONE; }
    return k;
  }
  static char paths[4096][64];
  static bool under(const char *p) { return armed && p && (!strncmp(p, "out/", 4) || !strcmp(p, "out") || strstr(p, "/out/")); }
  template <class F> F real(F, const char *n) { return (F)dlsym(RTLD_NEXT, n); }
  static void track(int fd, const char *p) { if (fd >= 0 && fd < 4096) { mine[fd] = true; const char *b = strrchr(p, '/'); snprintf(paths[fd], 64, "%s", b ? b + 1 : p); } }
  static bool ours(int fd) { return armed && fd >= 0 && fd < 4096 && mine[fd]; }
  template <class R> R failed(Kind k) { errno = k == EIO1 ? EIO : ENOSPC; return (R)-1; }
}
using namespace fault;
extern "C"
{
  static int do_open(const char *name, const char *p, int fl, mode_t m)
  {
    auto r = (int (*)(const char *, int, ...))dlsym(RTLD_NEXT, name);
    if (!under(p) || !(fl & (O_WRONLY | O_RDWR | O_CREAT))) return r(p, fl, m);
    Kind k = fault::point(fl & (O_CREAT | O_TRUNC) ? "create" : "open", p);
    if (k == TORN) { r(p, fl, m); _exit(77); }
    if (k) return failed<int>(k);
    int fd = r(p, fl, m); track(fd, p); return fd;
  }
  int open(const char *p, int fl, ...) { va_list a; va_start(a, fl); mode_t m = fl & O_CREAT ? va_arg(a, mode_t) : 0; va_end(a); return do_open("open", p, fl, m); }
  int open64(const char *p, int fl, ...) { va_list a; va_start(a, fl); mode_t m = fl & O_CREAT ? va_arg(a, mode_t) : 0; va_end(a); return do_open("open64", p, fl, m); }
  static FILE *do_fopen(const char *name, const char *p, const char *md)
  {
    auto r = (FILE * (*)(const char *, const char *)) dlsym(RTLD_NEXT, name);
    if (!under(p) || md[0] == 'r') return r(p, md);
    Kind k = fault::point("create", p);
    if (k == TORN) { r(p, md); _exit(77); }
    if (k) { errno = k == EIO1 ? EIO : ENOSPC; return nullptr; }
    FILE *f = r(p, md); if (f) track(fileno(f), p); return f;
  }
  FILE *fopen(const char *p, const char *m) { return do_fopen("fopen", p, m); }
  FILE *fopen64(const char *p, const char *m) { return do_fopen("fopen64", p, m); }
  int fclose(FILE *f)
  {
    static auto r = real(&fclose, "fclose"); int fd = f ? fileno(f) : -1;
    if (!ours(fd)) return r(f);
    Kind k = fault::point("close", paths[fd]); mine[fd] = false; int x = r(f);
    if (k == TORN) _exit(77);
    return k ? (errno = k == EIO1 ? EIO : ENOSPC, EOF) : x;
  }
  int close(int fd)
  {
    static auto r = real(&close, "close");
    if (!ours(fd)) return r(fd);
    Kind k = fault::point("close", paths[fd]); mine[fd] = false; int x = r(fd);
    if (k == TORN) _exit(77);
    return k ? failed<int>(k) : x;
  }
  ssize_t write(int fd, const void *b, size_t n)
  {
    static auto r = real(&write, "write"); if (!ours(fd)) return r(fd, b, n);
    Kind k = fault::point("write", paths[fd]); if (k == TORN) { r(fd, b, n / 2); _exit(77); } return k ? failed<ssize_t>(k) : r(fd, b, n);
  }
  ssize_t writev(int fd, const struct iovec *v, int c)
  {
    static auto r = real(&writev, "writev"); if (!ours(fd)) return r(fd, v, c);
    Kind k = fault::point("write", paths[fd]); if (k == TORN) { if (c) ::write(-2, 0, 0), r(fd, v, c / 2 ? c / 2 : 1); _exit(77); } return k ? failed<ssize_t>(k) : r(fd, v, c);
  }
  ssize_t pwrite(int fd, const void *b, size_t n, off_t o)
  {
    static auto r = real(&pwrite, "pwrite"); if (!ours(fd)) return r(fd, b, n, o);
    Kind k = fault::point("write", paths[fd]); if (k == TORN) { r(fd, b, n / 2, o); _exit(77); } return k ? failed<ssize_t>(k) : r(fd, b, n, o);
  }
  ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o)
  {
    static auto r = real(&pwrite64, "pwrite64"); if (!ours(fd)) return r(fd, b, n, o);
    Kind k = fault::point("write", paths[fd]); if (k == TORN) { r(fd, b, n / 2, o); _exit(77); } return k ? failed<ssize_t>(k) : r(fd, b, n, o);
  }
  int ftruncate(int fd, off_t o)
  {
    static auto r = real(&ftruncate, "ftruncate"); if (!ours(fd)) return r(fd, o);
    Kind k = fault::point("truncate", paths[fd]); if (k == TORN) { r(fd, o); _exit(77); } return k ? failed<int>(k) : r(fd, o);
  }
  int ftruncate64(int fd, off64_t o)
  {
    static auto r = real(&ftruncate64, "ftruncate64"); if (!ours(fd)) return r(fd, o);
    Kind k = fault::point("truncate", paths[fd]); if (k == TORN) { r(fd, o); _exit(77); } return k ? failed<int>(k) : r(fd, o);
  }
  int mkdir(const char *p, mode_t m)
  {
    static auto r = real(&mkdir, "mkdir"); if (!under(p)) return r(p, m);
    Kind k = fault::point("mkdir", p); if (k == TORN) { r(p, m); _exit(77); } return k ? failed<int>(k) : r(p, m);
  }
  int rename(const char *a, const char *b)
  {
    static auto r = real(&rename, "rename"); if (!under(b)) return r(a, b);
    Kind k = fault::point("rename", b); if (k == TORN) { r(a, b); _exit(77); } return k ? failed<int>(k) : r(a, b);
  }
}
#endif

namespace
{
  using fault::sh;
  const std::string out = "out";
  template <int D, class T, bool VD> struct ctT : CT<D, 2, opts::iga | opts::fct, VD> { using real_t = T; };
  // marks a record as completed once the step (or the start) that writes it is over
  template <class base_t, bool AUX> struct mark_t : base_t
  {
    using base_t::base_t; using T = typename base_t::real_t;
    void start(const typename base_t::advance_arg_t nt)
    {
      base_t::start(nt);
      if (AUX) { std::vector<T> v(5, (T)2.5); this->record_aux_const("more", v.data(), 5); this->record_aux_const("number", "grp", (T)7); this->record_aux_dsc_const("field", this->mem->advectee(1)); }
    }
    void record_all()
    {
      base_t::record_all();
      if (AUX) { this->record_aux_dsc("aux", this->mem->advectee(1)); this->record_aux_scalar("number", (T)(this->timestep + 1)); }
    }
    void hook_ante_loop(const typename base_t::advance_arg_t nt) { base_t::hook_ante_loop(nt); sh->done = 1; }
    void hook_post_step() { base_t::hook_post_step(); sh->done = this->timestep + 1; }
  };
  struct Rec { std::vector<V> f; };
  struct Job { int freq, start, win; std::vector<double> hist; };
  template <int D, class T, bool XDMF, bool AUX> struct Faults
  {
    using ct = ctT<D, T, false>; using K = Mpd<ct>; using S0 = typename K::base_t;
    using S = mark_t<typename std::conditional<XDMF, output::hdf5_xdmf<S0>, output::hdf5<S0>>::type, AUX>;
    Setup s; std::vector<Rec> ref; Job j; int n = 0;
    bool on(int k) const { if (k == 0) return true; for (int w = k; w > k - j.win && w >= j.start; --w) if (w >= 0 && w % j.freq == 0) return true; return false; }
    Faults(I3 g, Job j) : j(j)
    {
      s.D = D; s.n = g; s.dt = .5; Flow f; f.n = g; f.D = D; f.amp = .4; for (auto &w : f.wrap) w = true; if (D == 1) f.base[0] = .375;
      s.psi = [g](int e, int i, int j, int k) { return 1 + u01(e, cy(i, g[0]), g[1] > 1 ? cy(j, g[1]) : 0, g[2] > 1 ? cy(k, g[2]) : 0); };
      s.gc = [f](int d, int i, int j, int k) { return f(d, i, j, k); };
      for (double h : j.hist) n += h;
      typename bind_bc<concurr::serial, S0, CY<D>>::type r(base_params<S0>(s)); init<K>(r, s);
      for (int k = 0; k <= n; ++k) { if (k) r.advance(1); Rec q; for (int e = 0; e < 2; ++e) q.f.push_back(read(r.advectee(e))); ref.push_back(q); }
    }
    // the run with output, in a child; returns how it ended
    int child(long at, fault::Kind kind, long at2 = -1, fault::Kind kind2 = fault::NONE)
    {
      boost::filesystem::remove_all(out);
      memset(sh, 0, sizeof *sh); fflush(nullptr);
      pid_t p = fork();
      if (p == 0)
      {
        for (int q : {SIGSEGV, SIGBUS, SIGFPE, SIGABRT, SIGILL}) signal(q, SIG_DFL); struct rlimit l{0, 0}; setrlimit(RLIMIT_CORE, &l); alarm(60); int nul = ::open("/dev/null", O_WRONLY); dup2(nul, 1); dup2(nul, 2);
        fault::at = at; fault::kind = kind; fault::at2 = at2; fault::kind2 = kind2;
        try
        {
          auto q = base_params<S>(s); q.outdir = out; q.outfreq = j.freq; q.outstart = j.start; q.outwindow = j.win; q.outvars = {{0, {"a", ""}}, {1, {"b", ""}}};
          typename bind_bc<concurr::serial, S, CY<D>>::type r(q); init<K>(r, s);
          fault::armed = true;
          for (double h : j.hist) r.advance(h);
        }
        catch (H5::Exception &e) { sh->surfaced = 1; snprintf(sh->msg, sizeof sh->msg, "%s", e.getDetailMsg().c_str()); }
        catch (std::exception &e) { sh->surfaced = 1; snprintf(sh->msg, sizeof sh->msg, "%s", e.what()); }
        fault::armed = false; sh->finished = 1; _exit(0);
      }
      int st = 0; waitpid(p, &st, 0); return st;
    }
    std::string complete_const()
    {
      try
      {
        H5::H5File f(out + "/const.h5", H5F_ACC_RDONLY);
        const char *nm[] = {"X", "Y", "Z"};
        for (int d = 0; d < D; ++d)
        {
          auto x = h5::set(f, nm[d]); size_t t = 1; if (x.dims.size() != (size_t)D) return "const.h5 is wrong"; for (int q = 0; q < D; ++q) { if ((int)x.dims[q] != s.n[q] + 1) return "const.h5 is wrong"; t *= x.dims[q]; }
          size_t stride = 1; for (int q = d + 1; q < D; ++q) stride *= x.dims[q]; for (size_t i = 0; i < t; ++i) if (x.val[i] != (float)((i / stride) % x.dims[d])) return std::string("const.h5 holds the wrong ") + nm[d];
        }
        auto t = h5::set(f, "T"); size_t a = 0; for (int k = 0; k <= j.hist[0]; ++k) if (on(k)) { if (a >= t.val.size() || t.val[a] != (float)(.5 * k)) return "const.h5 holds the wrong T"; ++a; }
        if (h5::integer(f.openGroup("advection"), "n_iters") != s.iters) return "const.h5 holds the wrong n_iters";
        if (AUX) { auto x = h5::set(f, "more"); if (x.val != std::vector<float>(5, 2.5f)) return "const.h5 holds the wrong array"; if (h5::num(f.openGroup("grp"), "number") != 7) return "const.h5 holds the wrong number"; auto y = h5::set(f, "field"); for (size_t i = 0; i < ref[0].f[1].size(); ++i) if (y.val[i] != (float)(T)ref[0].f[1][i]) return "const.h5 holds the wrong field"; }
      }
      catch (H5::Exception &e) { return "const.h5 cannot be read (" + e.getDetailMsg() + ")"; }
      return "";
    }
    std::string complete(int k)
    {
      auto nm = h5::step(k, "h5");
      try
      {
        H5::H5File f(out + "/" + nm, H5F_ACC_RDONLY);
        for (int e = 0; e < 2; ++e) { auto x = h5::set(f, e ? "b" : "a"); if (x.val.size() != ref[k].f[e].size()) return nm + " has the wrong size"; for (size_t i = 0; i < x.val.size(); ++i) if (x.val[i] != (float)ref[k].f[e][i]) return nm + suite::fmt(" holds %.9g at point %zu instead of %.9g", x.val[i], i, (float)ref[k].f[e][i]); }
        if (AUX) { auto x = h5::set(f, "aux"); for (size_t i = 0; i < x.val.size(); ++i) if (x.val[i] != (float)ref[k].f[1][i]) return nm + " holds the wrong auxiliary field"; if (h5::num(f.openGroup("/"), "number") != k + 1) return nm + " holds the wrong number"; }
      }
      catch (H5::Exception &e) { return nm + " cannot be read (" + e.getDetailMsg() + ")"; }
      return "";
    }
    std::string complete_xmf(int k)
    {
      try { auto x = h5::xmf(out + "/" + h5::step(k, "xmf")); std::string known; auto w = h5::resolve(out, x, &known); /* C19 judges the extents of auxiliary fields */ return w.empty() ? "" : h5::step(k, "xmf") + ": " + w; } catch (std::exception &) { return h5::step(k, "xmf") + " cannot be read"; }
    }
    std::string judge(suite::Ctx &c, int st)
    {
      long done = sh->done; // steps (+1) whose records are completed
      bool dead = WIFEXITED(st) && WEXITSTATUS(st) == 77; c.extra[dead ? "crashes" : sh->surfaced ? "errors reported" : "survived"]++;
      if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) return "the run hangs";
      if (WIFSIGNALED(st) && WTERMSIG(st) != SIGABRT) return suite::fmt("the run ends with signal %d", WTERMSIG(st));
      auto files = h5::ls(out); std::vector<double> dg; for (auto &f : files) { dg.push_back(boost::filesystem::file_size(out + "/" + f)); dg.push_back(std::hash<std::string>()(f) % 1000003); } c.state(dg);
      c.step();
      std::string why;
      if (done > 0 && !(why = complete_const()).empty()) return "after completion: " + why;
      for (int k = 0; k < done; ++k) if (on(k)) { if (!(why = complete(k)).empty()) return "completed record damaged: " + why; if (XDMF && !(why = complete_xmf(k)).empty()) return "completed record damaged: " + why; }
      // at most one file of data is incomplete, the one after those completed
      int bad = 0; for (int k = 0; k <= n; ++k) if (on(k) && boost::filesystem::exists(out + "/" + h5::step(k, "h5")) && !complete(k).empty()) ++bad;
      if (boost::filesystem::exists(out + "/const.h5") && !complete_const().empty()) ++bad;
      if (bad > 1) return suite::fmt("%d files are incomplete", bad);
      if (!dead && !(WIFSIGNALED(st)) && !sh->surfaced)
      { // nobody has been told: everything must be there
        if (!sh->finished) return "the run has disappeared";
        if (!(why = complete_const()).empty()) return "no error reported, but " + why;
        std::vector<std::string> idx;
        for (int k = 0; k <= n; ++k) if (on(k)) { if (!(why = complete(k)).empty()) return "no error reported, but " + why; if (XDMF) { if (!(why = complete_xmf(k)).empty()) return "no error reported, but " + why; idx.push_back(h5::step(k, "xmf")); } }
        if (XDMF) try { if (h5::index(out + "/temp.xmf") != idx) return "no error reported, but temp.xmf does not list the records"; } catch (std::exception &) { return "no error reported, but temp.xmf cannot be read"; }
      }
      return "";
    }
    void run(suite::Ctx &c)
    {
      h5::quiet();
      if (!sh) sh = (fault::Shared *)mmap(nullptr, sizeof *sh, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
      int st = child(-1, fault::NONE); long calls = sh->calls; std::string w0 = judge(c, st); c.extra["max_calls"] = std::max<uint64_t>(c.extra["max_calls"], calls);
      std::vector<std::string> what; for (long i = 0; i < calls && i < 400; ++i) what.push_back(sh->what[i]);
      if (c.item("no fault") && !w0.empty()) { c.viol("no fault", w0); return; }
      if (calls < 10) { c.viol("calls", "the run makes hardly any file-system call: the stand-ins are not in use"); return; }
      c.sample(suite::fmt("%ld calls, e.g. %s; %s; %s", calls, what[0].c_str(), what[calls / 2 < 400 ? calls / 2 : 399].c_str(), what.back().c_str()));
      for (long a = 0; a < calls; ++a) for (int k = fault::KILL; k < fault::KINDS; ++k)
      {
        if (c.enough()) return;
        std::string w = a < 400 ? what[a] : "", id = suite::fmt("call %ld (%s): %s", a, w.c_str(), fault::kind_name[k]);
        if (!c.item(id)) continue;
        st = child(a, (fault::Kind)k); c.traces++;
        auto why = judge(c, st); if (!why.empty()) { c.viol(id, id + ": " + why); continue; }
        if (!c.thorough || (k != fault::NOSPC && k != fault::EIO1)) continue;
        // a failing call, then the end at any later one
        long all = sh->calls;
        for (long b = a + 1; b < all; ++b) for (auto k2 : {fault::KILL, fault::TORN})
        { st = child(a, (fault::Kind)k, b, k2); c.traces++; why = judge(c, st); std::string i2 = id + suite::fmt(", then %s at call %ld", fault::kind_name[k2], b); if (!why.empty()) { c.viol(i2, i2 + ": " + why); if (c.enough()) return; } }
      }
      boost::filesystem::remove_all(out);
    }
  };
}
#if PART == 0
CASE("1D hdf5", 10, [](suite::Ctx &c) { Faults<1, double, false, false>({5, 1, 1}, {1, 0, 1, {2, 1}}).run(c); });
CASE("1D hdf5 extras", 10, [](suite::Ctx &c) { Faults<1, double, false, true>({5, 1, 1}, {2, 2, 1, {5}}).run(c); });
#elif PART == 1
CASE("2D hdf5 float extras", 10, [](suite::Ctx &c) { Faults<2, float, false, true>({4, 3, 1}, {1, 0, 1, {3}}).run(c); });
CASE("2D hdf5 larger", 10, [](suite::Ctx &c) { Faults<2, double, false, false>({40, 30, 1}, {2, 0, 1, {2, 1, 1}}).run(c); });
#elif PART == 2
CASE("2D xdmf", 10, [](suite::Ctx &c) { Faults<2, double, true, false>({4, 3, 1}, {1, 0, 1, {2}}).run(c); });
CASE("2D xdmf extras", 10, [](suite::Ctx &c) { Faults<2, double, true, true>({3, 4, 1}, {2, 0, 2, {3}}).run(c); });
#elif PART == 3
CASE("3D hdf5 extras", 10, [](suite::Ctx &c) { Faults<3, double, false, true>({3, 4, 3}, {1, 0, 1, {2}}).run(c); });
CASE("3D xdmf", 10, [](suite::Ctx &c) { Faults<3, float, true, false>({4, 3, 3}, {2, 2, 1, {4}}).run(c); });
#endif
