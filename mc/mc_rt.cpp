#ifndef _GNU_SOURCE
#define _GNU_SOURCE 1
#endif
#include "mc.hpp"
#include <pthread.h>
#include <semaphore.h>
#include <dlfcn.h>
#include <unistd.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/prctl.h>
#include <string.h>
#include <stdio.h>
#include <stdlib.h>
#include <errno.h>
#include <time.h>
#include <atomic>
#include <map>
#include <set>
#include <unordered_set>
#include <deque>
#include <exception>
#include <stdexcept>
#include <cxxabi.h>
#include <malloc.h>

#define NOTSAN __attribute__((no_sanitize("thread")))
typedef uint8_t u8; typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64;

namespace mc
{
  const char *status_name(int s)
  {
    static const char *n[] = {"ok", "deadlock", "crash", "step-limit", "exception", "timeout", "check-failed"};
    return s >= 0 && s < 7 ? n[s] : "?";
  }

  u64 fnv(const void *p, size_t n, u64 h)
  {
    const u8 *b = (const u8 *)p;
    for (size_t i = 0; i < n; ++i) { h ^= b[i]; h *= 1099511628211ull; }
    return h;
  }

  // ------------------------------------------------------------------ shared output area
  static const size_t OUT_BYTES = 48u << 20;
  struct OutHdr { int status; size_t len; char msg[2048]; };
  static u8 *g_out = nullptr;

  // ------------------------------------------------------------------ real functions
  template <class F> static F real(const char *n) { F f = (F)dlsym(RTLD_NEXT, n); if (!f) { fprintf(stderr, "no %s\n", n); abort(); } return f; }
  typedef int (*pc_t)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
  typedef int (*pj_t)(pthread_t, void **);
  typedef int (*pm_t)(pthread_mutex_t *);
  typedef int (*pcw_t)(pthread_cond_t *, pthread_mutex_t *);
  typedef int (*pctw_t)(pthread_cond_t *, pthread_mutex_t *, const struct timespec *);
  typedef int (*pccw_t)(pthread_cond_t *, pthread_mutex_t *, clockid_t, const struct timespec *);
  typedef int (*pcs_t)(pthread_cond_t *);

  // ------------------------------------------------------------------ controlled threads
  static const int MAXT = 48;
  enum TS { T_NONE, T_RUN, T_BLOCK, T_DONE };
  struct Thr
  {
    TS st = T_NONE;
    sem_t sem;
    pthread_t real;
    std::function<bool()> cond; // enabled when true (if T_BLOCK)
    const char *what = "";
    const void *obj = nullptr;
    bool held = false;
    bool spur_ok = false;      // blocked in a condition wait that may wake spuriously
    bool spur = false;
    void *(*fn)(void *) = nullptr; void *arg = nullptr; void *ret = nullptr;
    std::function<void()> body;
    int team = -1, tnum = 0, parent = -1;
    u32 acc = 0;               // accesses in the current phase
    u64 lhash = 0;
    u64 steps = 0, ops = 0;    // times scheduled; scheduling points passed
    uintptr_t stk_lo = 0, stk_hi = 0;
    bool detached = false;
  };
  struct Team { int n = 0, arrived = 0; u64 gen = 0; int ended = 0; std::vector<int> members; };

  static bool g_active = false;
  static Thr g_t[MAXT];
  static int g_nt = 0;
  static int g_cur = 0;
  static Plan *g_plan = nullptr;
  static Outcome *g_oc = nullptr;
  static std::deque<Team> *g_teams = nullptr;
  static u64 g_phase = 0, g_turns = 0, g_steps = 0, g_points = 0, g_syncs = 0, g_accesses = 0;
  static int g_spur_left = 0;
  static int g_omp_threads = 1;
  static thread_local int t_self = -1;
  static const u8 *g_watch_lo = nullptr, *g_watch_hi = nullptr;
  static std::function<void()> *g_inject = nullptr;
  static std::function<u64()> *g_statefn = nullptr;
  static std::vector<std::pair<const void *, size_t>> *g_regions = nullptr;
  static bool g_in_rt = false; // inside the runtime (single running thread, so a plain flag is enough)
  static std::set<uintptr_t> *g_written_words = nullptr;
  u64 mutex_fingerprint();
  static std::unordered_set<u64> *g_visited_in = nullptr; // states seen by earlier executions (inherited through fork)
  static std::vector<u64> *g_choice_states = nullptr;

  struct Rt { bool o; Rt() : o(g_in_rt) { g_in_rt = true; } ~Rt() { g_in_rt = o; } };

  static void write_out()
  {
    OutHdr *h = (OutHdr *)g_out;
    u8 *p = g_out + sizeof(OutHdr), *e = g_out + OUT_BYTES;
    auto put = [&](const void *d, size_t n) { if (p + n > e) { h->status = ST_FAIL; snprintf(h->msg, sizeof h->msg, "output area full"); return; } memcpy(p, d, n); p += n; };
    auto putv = [&](const auto &v) { u64 n = v.size(); put(&n, 8); if (n) put(v.data(), n * sizeof(v[0])); };
    h->status = g_oc->status;
    snprintf(h->msg, sizeof h->msg, "%s", g_oc->msg.c_str());
    g_oc->phases = g_phase; g_oc->turns = g_turns; g_oc->accesses = g_accesses; g_oc->points = g_points; g_oc->syncs = g_syncs;
    u64 s[] = {g_oc->phases, g_oc->turns, g_oc->accesses, g_oc->cells_shared, g_oc->same_value_races, g_oc->points, g_oc->syncs};
    put(s, sizeof s);
    putv(g_oc->obs); putv(g_oc->choices); putv(g_oc->conflicts); putv(g_oc->state_hashes); putv(*g_choice_states);
    h->len = p - (g_out + sizeof(OutHdr));
  }
  static void die(int status, const std::string &msg)
  {
    g_active = false;
    g_oc->status = status; g_oc->msg = msg;
    write_out();
    _exit(0);
  }

  // ------------------------------------------------------------------ access log
  struct Cell
  {
    u64 key; u64 stamp;
    u32 oldv;
    u8 rm[8], wm[8], rbw[8], nw[8], varied[8];
    u32 first[8], val[8];
    u32 ai_w[8], ai_r[8];
    u64 pc_w[8], pc_r[8];
  };
  static const u32 TBL = 1u << 17;
  static Cell *g_tbl = nullptr;
  static u64 g_stamp = 1;
  static std::vector<Cell *> *g_touched = nullptr, *g_written = nullptr;
  static bool g_log = false;
  static u64 g_dropped = 0;

  static NOTSAN Cell *cell(u64 key, bool create = true)
  {
    u32 i = (u32)((key * 0x9E3779B97F4A7C15ull) >> 40) & (TBL - 1);
    for (u32 k = 0; k < 4096; ++k, i = (i + 1) & (TBL - 1))
    {
      Cell &c = g_tbl[i];
      if (c.stamp == g_stamp) { if (c.key == key) return &c; continue; }
      if (!create) return nullptr;
      memset(&c, 0, sizeof c);
      c.stamp = g_stamp; c.key = key; c.oldv = *(volatile u32 *)(key << 2);
      g_touched->push_back(&c);
      return &c;
    }
    ++g_dropped;
    return nullptr;
  }

  // may the running thread continue past this access?
  static void switch_from(int me, const char *what);
  static void point(const char *what);

  static NOTSAN void log_access(uintptr_t a, size_t n, bool w, u64 pc)
  {
    if (!g_active || g_in_rt || t_self < 0) return;
    Thr &me = g_t[t_self];
    if (g_watch_lo && a < (uintptr_t)g_watch_hi && a + n > (uintptr_t)g_watch_lo) { point("flag"); if (g_plan->access_points && g_nt > 1) { Rt r; switch_from(t_self, w ? "write" : "read"); } }
    if (a >= me.stk_lo && a < me.stk_hi) return;
    if (g_plan->cache)
    {
      Rt r;
      if (w) for (uintptr_t b = a & ~3ull; b < a + n; b += 4) g_written_words->insert(b);
      else { u64 x[2] = {pc, 0}; memcpy(&x[1], (void *)a, n < 8 ? n : 8); me.lhash = fnv(x, sizeof x, me.lhash); }
    }
    if (me.team < 0 || (*g_teams)[me.team].n < 2) return;
    Rt r;
    u32 ai = me.acc++;
    ++g_accesses;
    if (!g_plan->preempts.empty())
      for (auto &p : g_plan->preempts)
        if (p.phase == g_phase && p.thread == t_self && p.access == ai)
        {
          me.held = true;
          switch_from(t_self, "preempted at access");
          me.held = false;
        }
    if (!g_log) return;
    int t = me.tnum & 7;
    for (uintptr_t b = a & ~3ull; b < a + n; b += 4)
    {
      Cell *c = cell(b >> 2);
      if (!c) continue;
      u8 m = 0;
      for (int k = 0; k < 4; ++k) if (b + k >= a && b + k < a + n) m |= 1 << k;
      if (w)
      {
        u32 cur = *(volatile u32 *)b;
        if (c->nw[t] == 0) { g_written->push_back(c); }
        else if (c->nw[t] == 1) c->first[t] = cur;
        else if (cur != c->first[t]) c->varied[t] = 1;
        if (c->nw[t] < 255) ++c->nw[t];
        if (!c->wm[t]) { c->pc_w[t] = pc; c->ai_w[t] = ai; }
        c->wm[t] |= m;
      }
      else
      {
        if (!c->rm[t]) { c->pc_r[t] = pc; c->ai_r[t] = ai; }
        c->rm[t] |= m;
        c->rbw[t] |= m & ~c->wm[t];
      }
    }
  }

  static NOTSAN void end_turn(int tid) // thread tid stops running: note the values it leaves behind
  {
    ++g_turns;
    if (!g_log || !g_written) return;
    int t = g_t[tid].tnum & 7;
    for (Cell *c : *g_written)
    {
      c->val[t] = *(volatile u32 *)(c->key << 2);
      if (c->nw[t] > 1 && c->val[t] != c->first[t]) c->varied[t] = 1;
    }
    g_written->clear();
  }

  static NOTSAN void end_phase()
  {
    if (g_log)
    {
      for (Cell *c : *g_touched)
      {
        int writers = 0, users = 0;
        for (int t = 0; t < 8; ++t) { writers += c->wm[t] != 0; users += (c->wm[t] | c->rm[t]) != 0; }
        if (users > 1) ++g_oc->cells_shared;
        if (!writers || users < 2) continue;
        bool race = false, bad = false; Conflict k{}; k.phase = g_phase; k.addr = c->key << 2;
        for (int w = 0; w < 8; ++w) if (c->wm[w])
          for (int o = 0; o < 8; ++o) if (o != w)
          {
            auto mask32 = [](u8 m) { u32 r = 0; for (int k = 0; k < 4; ++k) if (m >> k & 1) r |= 0xffu << (8 * k); return r; };
            if (c->wm[o] & c->wm[w])
            {
              race = true;
              u32 mm = mask32(c->wm[o] & c->wm[w]);
              if (((c->val[w] ^ c->val[o]) & mm) || c->varied[w] || c->varied[o])
              { if (!bad) { bad = true; k.kind = c->varied[w] || c->varied[o] ? 3 : 2; k.tw = w; k.tr = o; k.pc_w = c->pc_w[w]; k.pc_r = c->pc_w[o]; k.idx_w = c->ai_w[w]; k.idx_r = c->ai_w[o]; } }
            }
            if (c->rbw[o] & c->wm[w])
            {
              race = true;
              u32 mm = mask32(c->rbw[o] & c->wm[w]);
              if (((c->val[w] ^ c->oldv) & mm) || c->varied[w])
              { if (!bad || k.kind != 1) { bad = true; k.kind = 1; k.tw = w; k.tr = o; k.pc_w = c->pc_w[w]; k.pc_r = c->pc_r[o]; k.idx_w = c->ai_w[w]; k.idx_r = c->ai_r[o]; } }
            }
            if ((c->rm[o] & c->wm[w]) && c->varied[w] && !bad)
            { race = bad = true; k.kind = 3; k.tw = w; k.tr = o; k.pc_w = c->pc_w[w]; k.pc_r = c->pc_r[o]; k.idx_w = c->ai_w[w]; k.idx_r = c->ai_r[o]; }
          }
        if (bad) { if (g_oc->conflicts.size() < 4000) g_oc->conflicts.push_back(k); }
        else if (race) ++g_oc->same_value_races;
      }
      g_touched->clear(); g_written->clear();
      ++g_stamp;
    }
    if (g_plan->hash_states)
    {
      u64 h = fnv(&g_phase, 0);
      for (auto &r : *g_regions) h = fnv(r.first, r.second, h);
      g_oc->state_hashes.push_back(h);
    }
    ++g_phase;
    for (int i = 0; i < g_nt; ++i) g_t[i].acc = 0;
  }

  // ------------------------------------------------------------------ scheduling
  static bool enabled(int i)
  {
    Thr &t = g_t[i];
    if (t.held) return false;
    if (t.st == T_RUN) return true;
    if (t.st == T_BLOCK) return t.cond() || (t.spur_ok && g_spur_left > 0);
    return false;
  }

  static int choose(int me, bool me_can_run, const char *what)
  {
    std::vector<int> en;
    bool me_enabled = false;
    for (int i = 0; i < g_nt; ++i) if (enabled(i)) { if (i == me) me_enabled = true; en.push_back(i); }
    if (en.empty())
      for (int i = 0; i < g_nt; ++i) if (g_t[i].held) { g_t[i].held = false; if (enabled(i)) { if (i == me) me_enabled = true; en.push_back(i); } }
    if (en.empty())
    {
      std::string m = "no thread can run:";
      bool any = false;
      for (int i = 0; i < g_nt; ++i) if (g_t[i].st != T_DONE && g_t[i].st != T_NONE) { any = true; m += " T" + std::to_string(i) + " waits at " + g_t[i].what + ";"; }
      if (!any) return -1;
      die(ST_DEADLOCK, m);
    }
    if (++g_steps > g_plan->max_steps) die(ST_STEPS, "step limit reached");
    int pick = -1;
    if (g_plan->dfs)
    {
      // candidate list: the running thread first (non-preemptive default), then the others ascending
      std::vector<int> c;
      if (me_enabled) c.push_back(me);
      for (int i : en) if (i != me) c.push_back(i);
      // spurious wake-ups come last
      std::vector<int> normal, spur;
      for (int i : c) (g_t[i].st == T_BLOCK && !g_t[i].cond() ? spur : normal).push_back(i);
      c = normal; c.insert(c.end(), spur.begin(), spur.end());
      if (normal.empty() && !spur.empty()) { // only a spurious wake-up could help: that is a deadlock
        std::string m = "no thread can run (but for spurious wake-ups):";
        for (int i = 0; i < g_nt; ++i) if (g_t[i].st != T_DONE && g_t[i].st != T_NONE) m += " T" + std::to_string(i) + " waits at " + g_t[i].what + ";";
        die(ST_DEADLOCK, m);
      }
      size_t k = 0;
      if (c.size() > 1)
      {
        size_t at = g_oc->choices.size();
        if (g_statefn || g_plan->cache)
        {
          u64 h = g_statefn ? (*g_statefn)() : 0;
          if (g_plan->cache)
          {
            for (uintptr_t b : *g_written_words) { u64 x[2] = {b, *(volatile u32 *)b}; h = fnv(x, sizeof x, h); }
            u64 m = mutex_fingerprint(); h = fnv(&m, 8, h);
          }
          for (int i = 0; i < g_nt; ++i) { u64 x[4] = {(u64)g_t[i].st, g_t[i].lhash, g_plan->cache ? g_t[i].ops : g_t[i].steps, (u64)(uintptr_t)g_t[i].what}; if (g_t[i].st == T_DONE) x[1] = x[2] = x[3] = 0; h = fnv(x, sizeof x, h); }
          u64 x[2] = {(u64)(me_enabled ? me + 1 : 0), (u64)g_spur_left}; h = fnv(x, sizeof x, h);
          if (at >= g_plan->prefix.size() && g_visited_in && g_visited_in->count(h)) { die(ST_OK, "pruned"); }
          g_choice_states->push_back(h);
        }
        if (at < g_plan->prefix.size()) { k = g_plan->prefix[at]; if (k >= c.size()) die(ST_FAIL, "replay divergence: choice " + std::to_string(at) + " has " + std::to_string(c.size()) + " alternatives"); }
        g_oc->choices.push_back(Choice{(u16)c.size(), (u16)k, 0, (u8)me_enabled});
      }
      pick = c[k];
    }
    else
    {
      if (me_enabled && me_can_run) pick = me;
      else
      {
        std::vector<int> ord;
        for (int i = 0; i < g_nt; ++i) ord.push_back(i);
        auto &o = g_plan->order;
        if (!o.empty())
        {
          std::vector<int> o2;
          size_t sh = g_plan->rotate ? g_phase % o.size() : 0;
          for (size_t i = 0; i < o.size(); ++i) o2.push_back(o[(i + sh) % o.size()]);
          for (int i : ord) { bool in = false; for (int j : o2) in |= i == j; if (!in) o2.push_back(i); }
          ord = o2;
        }
        for (int i : ord) { bool e = false; for (int j : en) e |= i == j; if (e && !(g_t[i].st == T_BLOCK && !g_t[i].cond())) { pick = i; break; } }
        if (pick < 0)
        {
          std::string m = "no thread can run:";
          for (int i = 0; i < g_nt; ++i) if (g_t[i].st != T_DONE && g_t[i].st != T_NONE) m += " T" + std::to_string(i) + " waits at " + g_t[i].what + ";";
          die(ST_DEADLOCK, m);
        }
      }
    }
    Thr &p = g_t[pick];
    if (p.st == T_BLOCK) { if (!p.cond()) { p.spur = true; --g_spur_left; } p.st = T_RUN; }
    p.steps++;
    return pick;
  }

  // the calling thread offers the processor; returns when it is scheduled again
  static void switch_from(int me, const char *what)
  {
    g_t[me].what = what; ++g_t[me].ops;
    int nx = choose(me, !g_t[me].held, what);
    if (nx == me || nx < 0) return;
    end_turn(me);
    g_cur = nx;
    bool rt = g_in_rt;
    sem_post(&g_t[nx].sem);
    while (sem_wait(&g_t[me].sem)) ;
    g_in_rt = rt;
  }

  static void point(const char *what) // injection point
  {
    Rt r;
    if (g_plan->inject_at >= 0 && (u64)g_plan->inject_at == g_points && g_inject && *g_inject) (*g_inject)();
    if (what[0] == 'f' && what[1] == 'l' || what[0] == 'a') g_oc->state_hashes.push_back(g_points); // accesses to the flag and atomic operations
    ++g_points;
  }

  static void block(const std::function<bool()> &c, const char *what, bool spur = false)
  {
    Thr &me = g_t[t_self];
    me.cond = c; me.st = T_BLOCK; me.what = what; me.spur_ok = spur; me.spur = false;
    switch_from(t_self, what);
    if (me.st == T_BLOCK) me.st = T_RUN;
    me.spur_ok = false;
  }

  // the calling thread could go on, but the plan decides who does
  static void offer(const char *what)
  {
    Thr &me = g_t[t_self];
    if (g_plan->dfs) { switch_from(t_self, what); return; }
    me.cond = [] { return true; }; me.st = T_BLOCK; me.what = what;
    int id = t_self, nx = choose(id, false, what);
    if (nx != id)
    {
      end_turn(id);
      bool rt = g_in_rt;
      g_cur = nx; sem_post(&g_t[nx].sem);
      while (sem_wait(&me.sem)) ;
      g_in_rt = rt;
    }
    me.st = T_RUN;
  }

  void yield_point(const char *what) { if (!g_active || t_self < 0) return; Rt r; ++g_syncs; switch_from(t_self, what); }
  void block_until(const std::function<bool()> &c, const char *what) { Rt r; ++g_syncs; if (c() && !g_plan->dfs) return; block(c, what); }
  void local_hash(u64 h) { g_t[t_self].lhash = h; g_t[t_self].ops = 0; }
  void set_state_fn(std::function<u64()> f) { g_statefn = new std::function<u64()>(f); }

  static void thread_done()
  {
    int me = t_self;
    Thr &t = g_t[me];
    g_in_rt = true;
    end_turn(me);
    t.st = T_DONE; t.what = "done";
    int nx = choose(me, false, "exit");
    t_self = -1; // what follows (thread-exit code) is not part of the controlled execution
    if (nx >= 0) { g_cur = nx; sem_post(&g_t[nx].sem); }
  }

  static void get_stack(Thr &t)
  {
    pthread_attr_t a; void *lo; size_t sz;
    pthread_getattr_np(pthread_self(), &a);
    pthread_attr_getstack(&a, &lo, &sz);
    pthread_attr_destroy(&a);
    t.stk_lo = (uintptr_t)lo; t.stk_hi = t.stk_lo + sz;
  }

  static void *trampoline(void *p)
  {
    int id = (int)(intptr_t)p;
    t_self = id;
    Thr &t = g_t[id];
    while (sem_wait(&t.sem)) ;
    { Rt r; get_stack(t); }
    g_in_rt = false;
    try
    {
      if (t.fn) t.ret = t.fn(t.arg); else t.body();
    }
    catch (abi::__forced_unwind &) { throw; }
    catch (std::exception &e) { die(ST_CRASH, std::string("uncaught exception in a thread (std::terminate): ") + e.what()); }
    catch (...) { die(ST_CRASH, "uncaught exception in a thread (std::terminate)"); }
    thread_done();
    return nullptr;
  }

  static int new_thread(void *(*fn)(void *), void *arg, const std::function<void()> *body)
  {
    if (g_nt >= MAXT) die(ST_FAIL, "too many threads");
    int id = g_nt++;
    Thr &t = g_t[id];
    t.fn = fn; t.arg = arg; if (body) t.body = *body;
    sem_init(&t.sem, 0, 0);
    t.st = T_RUN; t.what = "start"; t.team = -1; t.tnum = id; t.parent = t_self;
    static pc_t rc = real<pc_t>("pthread_create");
    int e = rc(&t.real, nullptr, trampoline, (void *)(intptr_t)id);
    if (e) die(ST_FAIL, "pthread_create failed");
    return id;
  }
  int parent(int id) { return g_t[id].parent; }
  int spawn(const std::function<void()> &f) { Rt r; return new_thread(nullptr, nullptr, &f); }
  void join(int id) { Rt r; block([id] { return g_t[id].st == T_DONE; }, "join"); }

  // ------------------------------------------------------------------ user functions
  void obs_bytes(const void *p, size_t n) { Rt r; const u8 *b = (const u8 *)p; if (g_oc) g_oc->obs.insert(g_oc->obs.end(), b, b + n); }
  void set_inject(std::function<void()> f) { Rt r; g_inject = new std::function<void()>(f); }
  void watch(const void *a, size_t n) { g_watch_lo = (const u8 *)a; g_watch_hi = g_watch_lo + n; }
  void fail(const std::string &m) { die(ST_FAIL, m); }
  bool active() { return g_active; }
  u64 points_so_far() { return g_points; }
  int self() { return t_self; }
  void hash_region(const void *p, size_t n) { Rt r; g_regions->push_back({p, n}); }
  void set_omp_threads(int n) { g_omp_threads = n; }

  static void on_term() { g_in_rt = true;
    std::string m = "std::terminate";
    if (auto e = std::current_exception()) { try { std::rethrow_exception(e); } catch (std::exception &x) { m += std::string(": ") + x.what(); } catch (...) {} }
    if (g_oc) die(ST_CRASH, m); _exit(99); }
  static void on_sig(int s) { OutHdr *h = (OutHdr *)g_out; h->status = s == SIGALRM ? ST_TIMEOUT : ST_CRASH; h->len = 0; snprintf(h->msg, sizeof h->msg, "signal %d", s); _exit(0); }

  static int g_fill = -1;

  Outcome run(const Plan &plan, const std::function<void()> &body)
  {
    if (!g_out) g_out = (u8 *)mmap(nullptr, OUT_BYTES, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    OutHdr *h = (OutHdr *)g_out;
    h->status = -1; h->len = 0; h->msg[0] = 0;
    fflush(stdout); fflush(stderr);
    pid_t pid = fork();
    if (pid == 0)
    {
      prctl(PR_SET_PDEATHSIG, SIGKILL);
      for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGABRT, SIGILL, SIGALRM}) signal(s, on_sig);
      std::set_terminate(on_term);
      alarm(plan.timeout_s);
      static Outcome oc; g_oc = &oc;
      static Plan pl; pl = plan; g_plan = &pl;
      g_choice_states = new std::vector<u64>;
      g_teams = new std::deque<Team>;
      g_regions = new std::vector<std::pair<const void *, size_t>>;
      g_written_words = new std::set<uintptr_t>;
      g_touched = new std::vector<Cell *>; g_written = new std::vector<Cell *>;
      g_log = plan.log_accesses;
      if (g_log) g_tbl = (Cell *)mmap(nullptr, sizeof(Cell) * TBL, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
      if (plan.inject) g_inject = new std::function<void()>(plan.inject);
      g_spur_left = plan.spurious;
      g_nt = 1; t_self = 0; g_cur = 0;
      Thr &t = g_t[0]; t.st = T_RUN; t.what = "main"; sem_init(&t.sem, 0, 0); get_stack(t);
      g_fill = plan.fill;
      g_in_rt = false;
      g_active = true;
      try { body(); oc.status = ST_OK; }
      catch (std::exception &e) { oc.status = ST_THROW; oc.msg = e.what(); }
      catch (...) { oc.status = ST_THROW; oc.msg = "unknown exception"; }
      g_active = false; g_in_rt = true;
      write_out();
      fflush(stdout);
      _exit(0);
    }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) ;
    Outcome o;
    if (h->status < 0)
    {
      o.status = ST_CRASH;
      o.msg = WIFSIGNALED(st) ? "killed by signal " + std::to_string(WTERMSIG(st)) : "exit status " + std::to_string(WEXITSTATUS(st));
      return o;
    }
    o.status = h->status; o.msg = h->msg;
    if (h->len)
    {
      u8 *p = g_out + sizeof(OutHdr);
      auto get = [&](void *d, size_t n) { memcpy(d, p, n); p += n; };
      auto getv = [&](auto &v) { u64 n; get(&n, 8); v.resize(n); if (n) get(v.data(), n * sizeof(v[0])); };
      u64 s[7]; get(s, sizeof s);
      o.phases = s[0]; o.turns = s[1]; o.accesses = s[2]; o.cells_shared = s[3]; o.same_value_races = s[4]; o.points = s[5]; o.syncs = s[6];
      getv(o.obs); getv(o.choices); getv(o.conflicts); getv(o.state_hashes);
      std::vector<u64> cs; getv(cs);
      if (g_choice_states == nullptr) g_choice_states = new std::vector<u64>;
      *g_choice_states = cs;
    }
    return o;
  }

  SearchStats search(Plan base, int bound, u64 max_exec, const std::function<void()> &body,
                     const std::function<bool(const Outcome &, const std::vector<u16> &)> &check, double max_s)
  {
    SearchStats st;
    base.dfs = true;
    struct timespec t0; clock_gettime(CLOCK_MONOTONIC, &t0);
    std::unordered_set<u64> visited;
    g_visited_in = &visited;
    std::vector<std::vector<u16>> stack{{}};
    while (!stack.empty())
    {
      if (st.executions >= max_exec) { st.complete = false; break; }
      struct timespec t1; clock_gettime(CLOCK_MONOTONIC, &t1);
      if ((t1.tv_sec - t0.tv_sec) + 1e-9 * (t1.tv_nsec - t0.tv_nsec) > max_s) { st.complete = false; break; }
      auto pre = stack.back(); stack.pop_back();
      base.prefix = pre;
      Outcome o = run(base, body);
      ++st.executions;
      st.transitions += o.choices.size() >= pre.size() ? o.choices.size() - (pre.empty() ? 0 : pre.size() - 1) : 0;
      bool pruned = o.status == ST_OK && o.msg == "pruned";
      if (pruned) ++st.pruned;
      auto cs = *g_choice_states;
      for (size_t i = pre.size(); i < cs.size(); ++i) visited.insert(cs[i]);
      if (!pruned && !check(o, pre)) { st.complete = false; break; }
      // branch on every choice after the prefix
      for (size_t i = o.choices.size(); i-- > pre.size();)
      {
        int used = 0;
        for (size_t j = 0; j < i; ++j) if ((base.count_all || o.choices[j].cur_enabled) && o.choices[j].chosen != 0) ++used;
        for (u16 k = 1; k < o.choices[i].n; ++k)
        {
          if (bound >= 0 && (base.count_all || o.choices[i].cur_enabled) && used + 1 > bound) break;
          std::vector<u16> nx;
          for (size_t j = 0; j < i; ++j) nx.push_back(o.choices[j].chosen);
          nx.push_back(k);
          stack.push_back(nx);
        }
      }
      st.choice_points += o.choices.size() - pre.size();
    }
    st.states = visited.size();
    g_visited_in = nullptr;
    return st;
  }
} // namespace mc

using namespace mc;

// ====================================================================== malloc pre-fill and deferred free
// memory freed by one thread is not handed to another within the same phase
extern "C" void *__libc_malloc(size_t);
extern "C" void *__libc_calloc(size_t, size_t);
extern "C" void *__libc_realloc(void *, size_t);
extern "C" void *__libc_memalign(size_t, size_t);
extern "C" void __libc_free(void *);
// (in caching searches the program's memory comes from an arena of its own, at the same addresses in every execution)
static char *g_ar = nullptr, *g_ar_at = nullptr; static const size_t AR_BYTES = 1ull << 30;
static bool in_arena(const void *p) { return g_ar && (const char *)p >= g_ar && (const char *)p < g_ar + AR_BYTES; }
static NOTSAN void *arena(size_t n, size_t al = 16)
{
  if (!g_ar) g_ar = g_ar_at = (char *)mmap((void *)0x200000000000ull, AR_BYTES, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (g_ar == MAP_FAILED || g_ar_at + n + al + 16 > g_ar + AR_BYTES) abort();
  char *p = (char *)(((uintptr_t)g_ar_at + 16 + al - 1) / al * al);
  *(size_t *)(p - 8) = n; g_ar_at = p + n;
  return p;
}
#define ARENA (g_active && !g_in_rt && g_plan->cache)
extern "C" NOTSAN void *malloc(size_t n) { void *p = ARENA ? arena(n) : __libc_malloc(n); if (p && g_fill >= 0 && !g_in_rt) memset(p, g_fill, n); return p; }
extern "C" NOTSAN void *calloc(size_t n, size_t m) { return ARENA ? arena(n * m) : __libc_calloc(n, m); }
extern "C" NOTSAN void *memalign(size_t a, size_t n) { return ARENA ? arena(n, a < 16 ? 16 : a) : __libc_memalign(a, n); }
extern "C" NOTSAN void *aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
extern "C" NOTSAN int posix_memalign(void **r, size_t a, size_t n) { *r = memalign(a, n); return *r ? 0 : ENOMEM; }
extern "C" NOTSAN void free(void *p)
{
  if (in_arena(p))
  {
    if (g_active && g_written_words) { bool o = g_in_rt; g_in_rt = true; auto &w = *g_written_words; w.erase(w.lower_bound((uintptr_t)p), w.lower_bound((uintptr_t)p + *(size_t *)((char *)p - 8))); g_in_rt = o; }
    return;
  }
  if (g_log && g_active && !g_in_rt) return; // leak: addresses stay unique within a logged execution
  __libc_free(p);
}
namespace mc { void watch_object(const void *p) { if (in_arena(p)) watch(p, *(const size_t *)((const char *)p - 8)); } }
extern "C" NOTSAN void *realloc(void *p, size_t n)
{
  if (!ARENA && !in_arena(p)) return __libc_realloc(p, n);
  void *q = malloc(n);
  if (p) { size_t o = in_arena(p) ? *(size_t *)((char *)p - 8) : malloc_usable_size(p); memcpy(q, p, o < n ? o : n); free(p); }
  return q;
}

// ====================================================================== pthreads
#define CTL (g_active && !g_in_rt && t_self >= 0)
namespace
{
  struct Mx { int owner = -1, count = 0; };
  struct Cv { std::vector<int> waiting; };
  std::map<const void *, Mx> *g_mx; std::map<const void *, Cv> *g_cv;
  Mx &mx(const void *m) { if (!g_mx) g_mx = new std::map<const void *, Mx>; return (*g_mx)[m]; }
  Cv &cv(const void *c) { if (!g_cv) g_cv = new std::map<const void *, Cv>; return (*g_cv)[c]; }
  void sync_point(const char *w) { ++g_syncs; point(w); if (g_plan->mutex_points) switch_from(t_self, w); }
  void acquire(const void *m)
  {
    Mx &x = mx(m);
    if (x.owner == t_self) { ++x.count; return; }
    if (x.owner >= 0) block([m] { return mx(m).owner < 0; }, "mutex");
    Mx &y = mx(m); y.owner = t_self; y.count = 1;
  }
}
namespace mc { u64 mutex_fingerprint() { u64 h = 7; if (g_mx) for (auto &k : *g_mx) { u64 x[3] = {(u64)(uintptr_t)k.first, (u64)(k.second.owner + 1), (u64)k.second.count}; h = fnv(x, sizeof x, h); } if (g_cv) for (auto &k : *g_cv) for (int w : k.second.waiting) h = fnv(&w, sizeof w, h); return h; } }

extern "C" int pthread_create(pthread_t *th, const pthread_attr_t *at, void *(*fn)(void *), void *arg)
{
  if (!CTL) { static pc_t f = real<pc_t>("pthread_create"); return f(th, at, fn, arg); }
  Rt r;
  int id = new_thread(fn, arg, nullptr);
  *th = g_t[id].real;
  sync_point("thread creation");
  return 0;
}
extern "C" int pthread_join(pthread_t th, void **ret)
{
  static pj_t f = real<pj_t>("pthread_join");
  if (!CTL) return f(th, ret);
  Rt r;
  int id = -1;
  for (int i = 0; i < g_nt; ++i) if (g_t[i].st != T_NONE && i && pthread_equal(g_t[i].real, th) && !g_t[i].detached) id = i;
  if (id < 0) return f(th, ret);
  ++g_syncs; point("join");
  if (g_t[id].st != T_DONE) block([id] { return g_t[id].st == T_DONE; }, "thread join");
  if (ret) *ret = g_t[id].ret;
  g_t[id].detached = true;
  return f(th, nullptr);
}
extern "C" int pthread_detach(pthread_t th)
{
  typedef int (*pd_t)(pthread_t); static pd_t f = real<pd_t>("pthread_detach");
  if (CTL) for (int i = 0; i < g_nt; ++i) if (i && pthread_equal(g_t[i].real, th)) g_t[i].detached = true;
  return f(th);
}
extern "C" int pthread_mutex_lock(pthread_mutex_t *m)
{
  if (!CTL) { static pm_t f = real<pm_t>("pthread_mutex_lock"); return f(m); }
  Rt r; sync_point("mutex"); acquire(m); return 0;
}
extern "C" int pthread_mutex_trylock(pthread_mutex_t *m)
{
  if (!CTL) { static pm_t f = real<pm_t>("pthread_mutex_trylock"); return f(m); }
  Rt r; sync_point("mutex"); Mx &x = mx(m); if (x.owner >= 0 && x.owner != t_self) return EBUSY; x.owner = t_self; ++x.count; return 0;
}
extern "C" int pthread_mutex_unlock(pthread_mutex_t *m)
{
  if (!CTL) { static pm_t f = real<pm_t>("pthread_mutex_unlock"); return f(m); }
  Rt r; Mx &x = mx(m);
  if (x.owner == t_self && --x.count == 0) x.owner = -1;
  sync_point("mutex unlock");
  return 0;
}
static int cwait(pthread_cond_t *c, pthread_mutex_t *m)
{
  Rt r; ++g_syncs; point("condition");
  cv(c).waiting.push_back(t_self);
  Mx &x = mx(m); int cnt = x.count; x.owner = -1; x.count = 0;
  int me = t_self;
  block([c, me] { for (int w : cv(c).waiting) if (w == me) return false; return true; }, "condition variable", true);
  auto &w = cv(c).waiting;
  for (size_t i = 0; i < w.size(); ++i) if (w[i] == me) { w.erase(w.begin() + i); break; }
  if (mx(m).owner >= 0) block([m] { return mx(m).owner < 0; }, "mutex");
  mx(m).owner = t_self; mx(m).count = cnt;
  return 0;
}
extern "C" int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m)
{
  if (!CTL) { static pcw_t f = real<pcw_t>("pthread_cond_wait"); return f(c, m); }
  return cwait(c, m);
}
extern "C" int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *t)
{
  if (!CTL) { static pctw_t f = real<pctw_t>("pthread_cond_timedwait"); return f(c, m, t); }
  return cwait(c, m);
}
extern "C" int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t k, const struct timespec *t)
{
  if (!CTL) { static pccw_t f = real<pccw_t>("pthread_cond_clockwait"); return f(c, m, k, t); }
  return cwait(c, m);
}
extern "C" int pthread_cond_signal(pthread_cond_t *c)
{
  if (!CTL) { static pcs_t f = real<pcs_t>("pthread_cond_signal"); return f(c); }
  Rt r; auto &w = cv(c).waiting;
  if (!w.empty()) w.erase(w.begin());
  sync_point("notify");
  return 0;
}
extern "C" int pthread_cond_broadcast(pthread_cond_t *c)
{
  if (!CTL) { static pcs_t f = real<pcs_t>("pthread_cond_broadcast"); return f(c); }
  Rt r; cv(c).waiting.clear();
  sync_point("notify");
  return 0;
}
extern "C" int sched_yield() { if (!CTL) { typedef int (*f_t)(); static f_t f = real<f_t>("sched_yield"); return f(); } Rt r; ++g_syncs; switch_from(t_self, "yield"); return 0; }

// ====================================================================== function-local statics
extern "C" int __cxa_guard_acquire(long long *g)
{
  u8 *b = (u8 *)g;
  for (;;)
  {
    if (__atomic_load_n(b, __ATOMIC_ACQUIRE)) return 0;
    u8 z = 0;
    if (__atomic_compare_exchange_n(b + 1, &z, 1, false, __ATOMIC_ACQ_REL, __ATOMIC_ACQUIRE)) return 1;
    if (CTL) { Rt r; block([b] { return b[1] == 0 || b[0] != 0; }, "initialisation of a static"); }
  }
}
extern "C" void __cxa_guard_release(long long *g) { u8 *b = (u8 *)g; __atomic_store_n(b, 1, __ATOMIC_RELEASE); __atomic_store_n(b + 1, 0, __ATOMIC_RELEASE); }
extern "C" void __cxa_guard_abort(long long *g) { u8 *b = (u8 *)g; __atomic_store_n(b + 1, 0, __ATOMIC_RELEASE); }

// ====================================================================== OpenMP
static void team_barrier(bool fin)
{
  Thr &me = g_t[t_self];
  if (me.team < 0) return;
  Rt r;
  ++g_syncs;
  point("barrier");
  Team &tm = (*g_teams)[me.team];
  int ti = me.team;
  if (fin) ++tm.ended;
  u64 gen = tm.gen;
  if (tm.ended && !fin) {} // a member that has left cannot arrive any more: the others will be found waiting
  if (!fin)
  {
    if (++tm.arrived == tm.n)
    {
      tm.arrived = 0; ++tm.gen;
      if (tm.n > 1) { end_turn(t_self); end_phase(); }
      // the releasing thread goes on only in its turn
      if (tm.n > 1) offer("barrier");
    }
    else
      block([ti, gen] { return (*g_teams)[ti].gen != gen; }, "barrier");
  }
  else
  {
    if (tm.ended == tm.n) { end_turn(t_self); if (tm.n > 1) end_phase(); ++tm.gen; }
    else if (me.tnum == 0) block([ti] { return (*g_teams)[ti].ended == (*g_teams)[ti].n; }, "end of parallel region");
  }
}
extern "C"
{
  void GOMP_barrier() { if (!CTL) return; team_barrier(false); }
  void GOMP_parallel(void (*fn)(void *), void *data, unsigned n, unsigned flags)
  {
    if (!CTL) { fn(data); return; }
    int nn = n ? (int)n : g_omp_threads;
    if (nn > 12) die(ST_FAIL, "team too large");
    int ti, old;
    std::vector<int> kids;
    {
      Rt r;
      g_teams->emplace_back();
      ti = (int)g_teams->size() - 1;
      (*g_teams)[ti].n = nn;
      old = g_t[t_self].team;
      int oldnum = g_t[t_self].tnum; (void)oldnum;
      ++g_syncs; point("fork");
      for (int k = 1; k < nn; ++k)
      {
        std::function<void()> b = [fn, data] { fn(data); team_barrier(true); };
        int id = new_thread(nullptr, nullptr, &b);
        g_t[id].team = ti; g_t[id].tnum = k;
        kids.push_back(id);
      }
      g_t[t_self].team = ti; g_t[t_self].tnum = 0;
      if (nn > 1) offer("fork"); // the order of the plan decides who starts
    }
    fn(data);
    team_barrier(true);
    {
      Rt r;
      for (int k : kids) if (g_t[k].st != T_DONE) block([k] { return g_t[k].st == T_DONE; }, "end of parallel region");
      static pj_t f = real<pj_t>("pthread_join");
      for (int k : kids) { f(g_t[k].real, nullptr); }
      // recycle the slots (the kids are the most recent ones)
      while (g_nt > 1 && g_t[g_nt - 1].st == T_DONE && !kids.empty() && kids.back() == g_nt - 1) { g_t[g_nt - 1] = Thr(); --g_nt; kids.pop_back(); }
      g_t[t_self].team = old; g_t[t_self].tnum = 0;
    }
  }
  int omp_get_thread_num() { return t_self >= 0 && g_t[t_self].team >= 0 ? g_t[t_self].tnum : 0; }
  int omp_get_num_threads() { return t_self >= 0 && g_t[t_self].team >= 0 ? (*g_teams)[g_t[t_self].team].n : 1; }
  int omp_get_max_threads() { return g_omp_threads; }
  void omp_set_num_threads(int n) { g_omp_threads = n > 0 ? n : 1; }
  int omp_in_parallel() { return t_self >= 0 && g_t[t_self].team >= 0 && (*g_teams)[g_t[t_self].team].n > 1; }
  int omp_get_num_procs() { return 8; }
  int omp_get_thread_limit() { return 64; }
  int omp_get_dynamic() { return 0; }
  void omp_set_dynamic(int) {}
  int omp_get_level() { return t_self >= 0 && g_t[t_self].team >= 0; }
  double omp_get_wtime() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }
  static int crit_obj;
  void GOMP_critical_start() { if (!CTL) return; Rt r; sync_point("critical"); acquire(&crit_obj); }
  void GOMP_critical_end() { if (!CTL) return; Rt r; Mx &x = mx(&crit_obj); x.owner = -1; x.count = 0; sync_point("critical end"); }
  void GOMP_critical_name_start(void **p) { if (!CTL) return; Rt r; sync_point("critical"); acquire(p); }
  void GOMP_critical_name_end(void **p) { if (!CTL) return; Rt r; Mx &x = mx(p); x.owner = -1; x.count = 0; sync_point("critical end"); }
  bool GOMP_single_start()
  { // first to arrive takes it
    if (!CTL || g_t[t_self].team < 0) return true;
    static std::map<std::pair<int, u64>, int> cnt; static std::map<int, u64> mine;
    Rt r; u64 k = ++mine[t_self * 1000 + g_t[t_self].team]; return cnt[{g_t[t_self].team, k}]++ == 0;
  }
}

// ====================================================================== compiler instrumentation
#define PC ((u64)(uintptr_t)__builtin_return_address(0))
extern "C"
{
  void __tsan_init() {}
  void __tsan_func_entry(void *) {}
  void __tsan_func_exit() {}
#define RW(n) \
  NOTSAN void __tsan_read##n(void *a) { log_access((uintptr_t)a, n, false, PC); } \
  NOTSAN void __tsan_write##n(void *a) { log_access((uintptr_t)a, n, true, PC); } \
  NOTSAN void __tsan_unaligned_read##n(void *a) { log_access((uintptr_t)a, n, false, PC); } \
  NOTSAN void __tsan_unaligned_write##n(void *a) { log_access((uintptr_t)a, n, true, PC); } \
  NOTSAN void __tsan_volatile_read##n(void *a) { log_access((uintptr_t)a, n, false, PC); } \
  NOTSAN void __tsan_volatile_write##n(void *a) { log_access((uintptr_t)a, n, true, PC); } \
  NOTSAN void __tsan_read_write##n(void *a) { log_access((uintptr_t)a, n, false, PC); log_access((uintptr_t)a, n, true, PC); } \
  NOTSAN void __tsan_unaligned_read_write##n(void *a) { log_access((uintptr_t)a, n, false, PC); log_access((uintptr_t)a, n, true, PC); }
  RW(1) RW(2) RW(4) RW(8) RW(16)
  NOTSAN void __tsan_read_range(void *a, unsigned long n) { log_access((uintptr_t)a, n, false, PC); }
  NOTSAN void __tsan_write_range(void *a, unsigned long n) { log_access((uintptr_t)a, n, true, PC); }
  NOTSAN void __tsan_vptr_update(void **a, void *) { log_access((uintptr_t)a, 8, true, PC); }
  NOTSAN void __tsan_vptr_read(void **a) { log_access((uintptr_t)a, 8, false, PC); }
  NOTSAN static void atomic_point() { if (CTL && g_nt > 1) { Rt r; ++g_syncs; point("atomic"); if (g_plan->mutex_points) switch_from(t_self, "atomic"); } }
  static int spin_guard;
#define ATO(N, T) \
  NOTSAN T __tsan_atomic##N##_load(const volatile T *a, int) { atomic_point(); if (CTL && g_nt > 1 && (++spin_guard % 64) == 0) { Rt r; g_t[t_self].held = true; switch_from(t_self, "spin"); g_t[t_self].held = false; } return *a; } \
  NOTSAN void __tsan_atomic##N##_store(volatile T *a, T v, int) { atomic_point(); *a = v; } \
  NOTSAN T __tsan_atomic##N##_exchange(volatile T *a, T v, int) { atomic_point(); T o = *a; *a = v; return o; } \
  NOTSAN T __tsan_atomic##N##_fetch_add(volatile T *a, T v, int) { atomic_point(); T o = *a; *a = o + v; return o; } \
  NOTSAN T __tsan_atomic##N##_fetch_sub(volatile T *a, T v, int) { atomic_point(); T o = *a; *a = o - v; return o; } \
  NOTSAN T __tsan_atomic##N##_fetch_and(volatile T *a, T v, int) { atomic_point(); T o = *a; *a = o & v; return o; } \
  NOTSAN T __tsan_atomic##N##_fetch_or(volatile T *a, T v, int) { atomic_point(); T o = *a; *a = o | v; return o; } \
  NOTSAN T __tsan_atomic##N##_fetch_xor(volatile T *a, T v, int) { atomic_point(); T o = *a; *a = o ^ v; return o; } \
  NOTSAN T __tsan_atomic##N##_fetch_nand(volatile T *a, T v, int) { atomic_point(); T o = *a; *a = ~(o & v); return o; } \
  NOTSAN int __tsan_atomic##N##_compare_exchange_strong(volatile T *a, T *e, T v, int, int) { atomic_point(); if (*a == *e) { *a = v; return 1; } *e = *a; return 0; } \
  NOTSAN int __tsan_atomic##N##_compare_exchange_weak(volatile T *a, T *e, T v, int, int) { atomic_point(); if (*a == *e) { *a = v; return 1; } *e = *a; return 0; } \
  NOTSAN T __tsan_atomic##N##_compare_exchange_val(volatile T *a, T e, T v, int, int) { atomic_point(); T o = *a; if (o == e) *a = v; return o; }
  ATO(8, u8) ATO(16, u16) ATO(32, u32) ATO(64, u64)
  void __tsan_atomic_thread_fence(int) {}
  void __tsan_atomic_signal_fence(int) {}
  void *__real_memcpy(void *, const void *, size_t);
  void *__real_memmove(void *, const void *, size_t);
  void *__real_memset(void *, int, size_t);
  NOTSAN void *__wrap_memcpy(void *d, const void *s, size_t n) { if (CTL && n) { log_access((uintptr_t)s, n, false, PC); log_access((uintptr_t)d, n, true, PC); } return __real_memcpy(d, s, n); }
  NOTSAN void *__wrap_memmove(void *d, const void *s, size_t n) { if (CTL && n) { log_access((uintptr_t)s, n, false, PC); log_access((uintptr_t)d, n, true, PC); } return __real_memmove(d, s, n); }
  NOTSAN void *__wrap_memset(void *d, int c, size_t n) { if (CTL && n) log_access((uintptr_t)d, n, true, PC); return __real_memset(d, c, n); }
}
