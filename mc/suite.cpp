#include "suite.hpp"
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <exception>
#include <signal.h>
#include <sys/time.h>
#include <unistd.h>
#include <fcntl.h>

namespace suite
{
  struct Entry { std::string name; int cost; Fn f; };
  static std::vector<Entry> &all() { static std::vector<Entry> v; return v; }
  Reg::Reg(const std::string &n, int c, Fn f) { all().push_back({n, c, f}); }
  std::string fmt(const char *f, ...) { char b[4096]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b; }
  std::string show(const std::vector<double> &v, size_t mx) { std::string s = "["; for (size_t i = 0; i < v.size() && i < mx; ++i) s += fmt(i ? " %.6g" : "%.6g", v[i]); if (v.size() > mx) s += " ..."; return s + "]"; }

  static int g_out = 1;
  static Ctx *g_ctx = nullptr;
  static std::string esc(const std::string &s) { std::string r; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r; }
  static void put(const std::string &s) { std::string l = "@@" + s + "\n"; const char *p = l.data(); size_t n = l.size(); while (n) { ssize_t k = write(g_out, p, n); if (k <= 0) _exit(3); p += k; n -= k; } }
  void Ctx::viol(const std::string &key, const std::string &what)
  {
    static const std::set<std::string> known = [] { std::set<std::string> k; if (const char *e = getenv("SUITE_KNOWN")) { std::string t = e, x; for (char ch : t + "\x1f") if (ch == '\x1f') { if (!x.empty()) k.insert(x); x.clear(); } else x += ch; } return k; }();
    if (known.count(key)) { if (!known_hit.insert(key).second) return; }
    else if (nviol++ >= 200) return;
    put("{\"viol\":1,\"case\":\"" + esc(name) + "\",\"key\":\"" + esc(key) + "\",\"item\":\"" + esc(cur) + "\",\"what\":\"" + esc(what.substr(0, 3000)) + "\"}");
  }
  void Ctx::state(const void *p, size_t n)
  {
    const unsigned char *b = (const unsigned char *)p; uint64_t h = 1469598103934665603ull;
    for (size_t i = 0; i < n; ++i) { h ^= b[i]; h *= 1099511628211ull; }
    if (seen.insert(h).second) ++states;
  }
  static void arm() { struct itimerval t; memset(&t, 0, sizeof t); t.it_value.tv_sec = 60; setitimer(ITIMER_PROF, &t, nullptr); }
  bool Ctx::item(const std::string &what)
  {
    if (!only.empty() && only != what) return false;
    cur = what;
    arm();
    return true;
  }
  static void on_sig(int s)
  {
    if (!g_ctx) _exit(3);
    // (the process ends right here; the allocations below are best effort)
    signal(s, SIG_DFL);
    g_ctx->viol(std::string(s == SIGPROF ? "hang" : "crash") + ":" + g_ctx->name, s == SIGPROF ? "does not come to an end (60 s of processor time)" : fmt("crash: signal %d (%s)", s, strsignal(s)));
    put("{\"done\":1,\"case\":\"" + esc(g_ctx->name) + "\",\"ended\":\"signal\"}");
    _exit(0);
  }
  static void on_term()
  {
    std::string m = "std::terminate";
    if (auto e = std::current_exception()) { try { std::rethrow_exception(e); } catch (std::exception &x) { m += std::string(": ") + x.what(); } catch (...) {} }
    if (g_ctx) g_ctx->viol("terminate:" + g_ctx->name, m);
    put("{\"done\":1,\"case\":\"" + esc(g_ctx ? g_ctx->name : "") + "\",\"ended\":\"terminate\"}");
    _exit(0);
  }
}
using namespace suite;

int main(int argc, char **argv)
{
  Ctx c; std::string want;
  for (int i = 1; i < argc; ++i)
  {
    std::string a = argv[i];
    if (a == "--list") { for (auto &e : all()) printf("%d %s\n", e.cost, e.name.c_str()); return 0; }
    else if (a == "--thorough") c.thorough = true;
    else if (a == "--case") want = argv[++i];
    else if (a == "--item") c.only = argv[++i];
  }
  unsetenv("OMP_NUM_THREADS");
  fflush(stdout);
  g_out = dup(1);
  int nul = open("/dev/null", O_WRONLY); dup2(nul, 1); // what the library prints is not of interest
  for (auto &e : all()) if (e.name == want)
  {
    c.name = want; g_ctx = &c;
    static char alt[1 << 16]; stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, nullptr);
    for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGABRT, SIGILL, SIGPROF}) { struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_sig; sa.sa_flags = SA_ONSTACK | SA_NODEFER; sigaction(s, &sa, nullptr); }
    std::set_terminate(on_term);
    arm();
    try { e.f(c); }
    catch (std::exception &x) { c.viol("exception:" + c.name, std::string("unexpected exception: ") + x.what()); }
    std::string s = fmt("{\"done\":1,\"case\":\"%s\",\"states\":%llu,\"transitions\":%llu,\"traces\":%llu,\"viols\":%llu,\"extra\":{", esc(c.name).c_str(), (unsigned long long)c.states, (unsigned long long)c.transitions, (unsigned long long)c.traces, (unsigned long long)c.nviol);
    bool f = true; for (auto &k : c.extra) { s += fmt("%s\"%s\":%llu", f ? "" : ",", k.first.c_str(), (unsigned long long)k.second); f = false; }
    s += "},\"samples\":["; f = true; for (auto &k : c.samples) { s += (f ? "\"" : ",\"") + esc(k) + "\""; f = false; }
    put(s + "]}");
    _exit(0);
  }
  fprintf(stderr, "no such case: %s\n", want.c_str());
  return 3;
}
