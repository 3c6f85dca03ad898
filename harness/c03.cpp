// C03: the barrier of the C++11 (and Boost) thread backend separates generations under every interleaving.
// The real barrier of a real solver object is entered by controlled threads; every mutex and condition-variable
// operation is a scheduling point. The search has no preemption bound where it caches states: a state is the
// memory written, the owners of the mutexes, the waiters of the condition variables and, for each thread, the
// sequence of values it has read (which determines where it is and what its locals hold).
#include "../mc/mc.hpp"
#include "../mc/suite.hpp"
#include "../mc/cases.hpp"
#include <libmpdata++/concurr/boost_thread.hpp>
#include <libmpdata++/concurr/cxx11_thread.hpp>
#include <memory>
using namespace cases;

namespace
{
  typedef Mpd<CT<1, 1, 0>> K;
  template <template <class, bcond::bcond_e, bcond::bcond_e, bcond::bcond_e, bcond::bcond_e, bcond::bcond_e, bcond::bcond_e> class C>
  struct Open : bind_bc<C, typename K::base_t, C1>::type
  {
    using parent_t = typename bind_bc<C, typename K::base_t, C1>::type;
    using parent_t::parent_t;
    void sync() { this->mem->barrier(); }
    void *object() { return dynamic_cast<void *>(this->mem.get()); }
    size_t subdomains() { return this->algos.size(); }
  };
  static int arrived[16], left_[16];
  template <template <class, bcond::bcond_e, bcond::bcond_e, bcond::bcond_e, bcond::bcond_e, bcond::bcond_e, bcond::bcond_e> class C>
  void explore(suite::Ctx &c, const char *bk, int team, int gens, int spurious, int bound, bool cache, bool fine)
  {
    std::string it = suite::fmt("team %d, %d generations, %d spurious wake-ups, %s", team, gens, spurious, bound < 0 ? "all interleavings" : suite::fmt("up to %d preemptions", bound).c_str()) + (fine ? ", every access to the barrier a scheduling point" : "");
    if (!c.item(it)) return;
    Setup s; s.D = 1; s.n = {{8, 1, 1}};
    auto body = [&] {
      setenv("OMP_NUM_THREADS", suite::fmt("%d", team).c_str(), 1);
      Open<C> o(make_params<K>(s));
      if ((int)o.subdomains() != team) mc::fail("another number of subdomains than asked for");
      std::vector<int> th;
      if (fine) mc::watch_object(o.object());
      auto work = [&] {
        for (int g = 0; g < gens; ++g)
        {
          mc::local_hash(g + 1); // (here all that is left of the past in this thread is g)
          ++arrived[g];
          o.sync();
          if (arrived[g] != team) mc::fail(suite::fmt("a thread has left synchronisation %d when only %d of %d had arrived", g + 1, arrived[g], team));
          ++left_[g];
        }
      };
      for (int i = 1; i < team; ++i) th.push_back(mc::spawn(work));
      work();
      for (int i : th) mc::join(i);
      for (int g = 0; g < gens; ++g) if (left_[g] != team) mc::fail("a thread has been lost");
    };
    mc::Plan p; p.mutex_points = true; p.spurious = spurious; p.cache = cache; p.access_points = fine; p.max_steps = 20000;
    auto st = mc::search(p, bound, c.thorough ? 20000000 : 400000, body, [&](const mc::Outcome &o, const std::vector<uint16_t> &pre) {
      c.item(it);
      if (o.status == mc::ST_OK) { ++c.traces; return true; }
      std::string m; for (auto x : o.choices) m += suite::fmt(" %d", x.chosen);
      c.viol(suite::fmt("barrier:%s:%s", bk, mc::status_name(o.status)), it + ": " + mc::status_name(o.status) + ": " + o.msg + "; schedule (" + std::to_string(pre.size()) + " choices forced):" + m);
      return false;
    }, c.thorough ? 3000 : 100);
    c.states += cache ? st.states : st.executions; c.transitions += st.choice_points; c.extra["schedules"] += st.executions; c.extra["pruned"] += st.pruned;
    c.extra[st.complete ? "searches_completed" : "searches_beyond_cap"]++;
    c.sample(suite::fmt("%s: %s%llu executions, %llu states", it.c_str(), st.complete ? "complete, " : "CUT OFF, ", (unsigned long long)st.executions, (unsigned long long)st.states));
  }
  template <template <class, bcond::bcond_e, bcond::bcond_e, bcond::bcond_e, bcond::bcond_e, bcond::bcond_e, bcond::bcond_e> class C> struct All
  {
    All(const char *bk)
    {
      bool cxx = bk[0] == 'c';
      auto add = [=](int t, int g, int s, int b, bool cache, int quick, bool fine = false) {
        new suite::Reg(suite::fmt("%s team %d generations %d spurious %d %s%s", bk, t, g, s, b < 0 ? "unbounded" : suite::fmt("bound %d", b).c_str(), fine ? " fine" : ""), t * g + s + b, [=](suite::Ctx &c) { if (quick || c.thorough) explore<C>(c, bk, t, g, s, b, cache, fine); });
      };
      add(1, 3, 0, -1, false, 1);
      for (int g = 1; g <= 4; ++g) for (int s = 0; s <= 2; ++s) add(2, g, s, -1, true, cxx || (g <= 3 && s <= 1));
      for (int g = 1; g <= 3; ++g) for (int s = 0; s <= 1; ++s) add(3, g, s, -1, true, cxx && g <= 2);
      for (int g = 1; g <= 3; ++g) for (int s = 0; s <= 1; ++s) add(2, g, s, -1, true, cxx, true);
      add(3, 1, 0, -1, true, 0, true); add(3, 1, 1, -1, true, 0, true); add(3, 2, 0, 2, false, cxx, true);
      add(3, 2, 1, 2, false, cxx); add(3, 3, 0, 1, false, 1); add(4, 1, 0, -1, true, 0); add(4, 2, 0, -1, true, 0); add(4, 2, 0, 1, false, cxx);
      add(4, 2, 1, 1, false, 0); add(3, 3, 1, 1, false, 0);
      add(2, 3, 1, 3, false, 1); // (without state caching: cross-check)
    }
  };
  static All<concurr::cxx11_thread> a1("cxx11_thread");
  static All<concurr::boost_thread> a2("boost_thread");
}
