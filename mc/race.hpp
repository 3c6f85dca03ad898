// Exploration of the interleavings of a team: the base schedule is recorded access by access; phases without
// value-changing conflicts are insensitive to the interleaving (every other one gives the same state), every
// conflict is reversed by explicit schedules. Observables (doubles) must equal those of a team of one.
#pragma once
#include "mc.hpp"
#include "suite.hpp"
#include <algorithm>
#include <set>
#include <map>
#include <cstring>
#include <dlfcn.h>

namespace race
{
  inline std::string where(uint64_t pc)
  {
    Dl_info d; if (dladdr((void *)pc, &d) && d.dli_sname) return std::string(d.dli_sname).substr(0, 160);
    return "?";
  }
  typedef std::function<void(int)> Body; // (team size): constructs, runs, observes

  inline void explore(suite::Ctx &c, int most, const Body &body, size_t cap_quick = 40)
  {
    mc::Plan p; p.timeout_s = 240;
    auto go = [&](const mc::Plan &pl, int team) { auto o = mc::run(pl, [&] { mc::set_omp_threads(team); body(team); }); ++c.extra["schedules"]; if (o.status == mc::ST_TIMEOUT) { mc::Plan q = pl; q.timeout_s = 400; o = mc::run(q, [&] { mc::set_omp_threads(team); body(team); }); } return o; };
    if (c.enough()) return;
    auto ref = go(p, 1);
    if (ref.status != mc::ST_OK) { c.item("serial"); c.viol("serial-fails:" + c.name, std::string("single-threaded run ends with ") + mc::status_name(ref.status) + ": " + ref.msg); return; }
    std::vector<double> rv((double *)ref.obs.data(), (double *)ref.obs.data() + ref.obs.size() / 8);
    c.sample("observables of the serial run: " + suite::show(rv, 8));
    for (int team = 2; team <= most; ++team)
    {
      auto check = [&](const mc::Outcome &o, const std::string &sched) {
        c.step(o.turns); c.extra["accesses"] += o.accesses; c.extra["phases"] += o.phases;
        if (o.status == mc::ST_OK && o.obs == ref.obs) { c.state(o.obs.data(), o.obs.size()); ++c.traces; return true; }
        std::string m = suite::fmt("team of %d, %s: ", team, sched.c_str());
        if (o.status != mc::ST_OK) m += std::string(mc::status_name(o.status)) + ": " + o.msg;
        else
        {
          const double *a = (const double *)o.obs.data(); size_t n = o.obs.size() / 8, bad = 0, first = n;
          if (o.obs.size() != ref.obs.size()) m += suite::fmt("%zu observables instead of %zu", n, rv.size());
          else { for (size_t i = 0; i < n; ++i) if (memcmp(a + i, &rv[i], 8)) { if (first == n) first = i; ++bad; } m += suite::fmt("%zu of %zu observables differ from the serial run, the first is no. %zu: %.17g instead of %.17g", bad, n, first, a[first], rv[first]); }
        }
        c.viol(suite::fmt("differs:%s:team%d", c.name.c_str(), team), m);
        return false;
      };
      std::string it = suite::fmt("team %d", team);
      if (!c.item(it)) continue;
      mc::Plan b = p; b.log_accesses = true; b.hash_states = false;
      auto o = go(b, team);
      if (!check(o, "ascending order")) { if (c.enough()) return; continue; }
      c.extra["shared_words"] += o.cells_shared; c.extra["same_value_races"] += o.same_value_races;
      // other orders of the team within the phases (also recorded: the first one may hide conflicts through control flow)
      std::vector<std::vector<int>> orders;
      std::vector<int> d; for (int i = team; i-- > 0;) d.push_back(i); orders.push_back(d);
      std::vector<int> a; for (int i = 0; i < team; ++i) a.push_back(i);
      if (c.thorough) { std::vector<int> q = a; while (std::next_permutation(q.begin(), q.end())) if (q != d) orders.push_back(q); }
      bool ok = true; size_t conflicts = o.conflicts.size(); auto confl = o.conflicts;
      for (auto &od : orders)
      {
        mc::Plan q = p; q.order = od; q.log_accesses = true;
        std::string s = "order"; for (int x : od) s += suite::fmt(" %d", x);
        auto o2 = go(q, team);
        if (!(ok = check(o2, s))) break;
        for (auto &k : o2.conflicts) confl.push_back(k);
        conflicts += o2.conflicts.size();
      }
      if (!ok) continue;
      { mc::Plan q = p; q.order = a; q.rotate = true; if (!check(go(q, team), "rotating order")) continue; }
      // race reversal
      c.extra["conflicting_accesses"] += conflicts;
      // (one representative per code location pair, phase and threads; locations taken in turn)
      std::map<std::pair<uint64_t, uint64_t>, std::vector<mc::Conflict>> groups; std::set<std::string> done;
      for (auto &k : confl)
        if (done.insert(suite::fmt("%llu:%llx:%llx:%d:%d", (unsigned long long)k.phase, (unsigned long long)k.pc_w, (unsigned long long)k.pc_r, k.tw, k.tr)).second) groups[{k.pc_w, k.pc_r}].push_back(k);
      size_t cap = c.thorough ? 1500 : cap_quick, runs = 0;
      std::vector<mc::Conflict> todo;
      for (size_t i = 0; todo.size() < done.size(); ++i)
        for (auto &g : groups)
          if (i < g.second.size())
          { // spread over the phases: bit-reversed order would do as well
            size_t n = g.second.size(), st = n < 4 ? 1 : n / 3 + 1; while (std::__gcd(st, n) != 1) ++st;
            todo.push_back(g.second[(i * st) % n]);
          }
      for (auto &k : todo)
      {
        if (runs >= cap) { ++c.extra["conflicts_beyond_cap"]; continue; }
        if (runs == 0) c.sample(suite::fmt("conflict kind %d phase %llu threads %d/%d in %s / %s", k.kind, (unsigned long long)k.phase, k.tw, k.tr, where(k.pc_w).c_str(), where(k.pc_r).c_str()));
        for (int which = 0; which < 2 && ok; ++which)
        {
          mc::Plan q = p;
          q.preempts.push_back({k.phase, which ? k.tr : k.tw, which ? k.idx_r : k.idx_w});
          ok = check(go(q, team), suite::fmt("thread %d held before access %u of phase %llu (conflict of %s and %s)", which ? k.tr : k.tw, which ? k.idx_r : k.idx_w, (unsigned long long)k.phase, where(k.pc_w).c_str(), where(k.pc_r).c_str()));
          ++runs;
        }
        if (!ok) break;
      }
      c.extra["reversals"] += runs;
    }
  }
}
