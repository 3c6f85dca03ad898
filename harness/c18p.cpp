// C18, steps beyond the requested time: those made for the interpolation of records must neither fail nor corrupt anything,
// whatever part of the requested time they are; the progress shown in the name of the thread stays within the name.
// (built with checks of the sizes of buffers: a write beyond the end ends the program)
#include "../mc/suite.hpp"
#include "../mc/cases.hpp"
#include <sys/prctl.h>
#include <sys/wait.h>
#include <unistd.h>
#include <cstring>
using namespace cases;
namespace
{
  template <int D, bool VD, int ORD> struct ctP : CT<D, 1, opts::iga | opts::fct, VD> { enum { out_intrp_ord = ORD }; };
  template <int D, bool VD, int ORD, class T> void progress(suite::Ctx &c, const std::vector<std::vector<T>> &spans)
  {
    using K = Mpd<ctP<D, VD, ORD>>;
    for (double dt : {1., .5, 1e-3, 1e4, 1e8}) for (double maxc : {.4, 1e-3}) for (auto &sp : spans) for (int len = 1; len <= 15; ++len)
    {
      if (c.enough()) return;
      V shown(sp.begin(), sp.end());
      std::string id = suite::fmt("dt %g bound %g calls %s name of %d", dt, maxc, suite::show(shown).c_str(), len);
      if (!c.item(id)) continue;
      if (VD && *std::max_element(sp.begin(), sp.end()) / maxc > 2000) continue; // (too many steps)
      c.sample(id);
      std::string name(len, 'x');
      int fd[2]; if (pipe(fd)) { c.viol(id, "pipe"); return; }
      pid_t pid = fork();
      if (!pid)
      {
        close(2); alarm(60);
        Setup s; s.D = D; s.n = I3{4, D > 1 ? 4 : 1, 1}; s.iters = 1; s.dt = dt; s.max_courant = maxc; s.psi = [](int, int i, int j, int) { return 1 + (i == 1) + (j == 1); };
        bool zero = VD && dt > 1; s.gc = [=](int d, int, int, int) { return zero ? 0. : d ? 0. : .25; }; // (without flow the step stays as given)
        prctl(PR_SET_NAME, name.c_str(), 0, 0, 0);
        { typename bind_bc<concurr::serial, typename K::base_t, CY<D>>::type r(base_params<typename K::base_t>(s)); init<K>(r, s); for (auto x : sp) r.advance(x); }
        char b[17] = {}; prctl(PR_GET_NAME, b, 0, 0, 0); ssize_t w = write(fd[1], b, 17); _exit(w == 17 ? 0 : 9);
      }
      close(fd[1]); char b[17] = {}; ssize_t got = read(fd[0], b, 17); close(fd[0]); int rc; waitpid(pid, &rc, 0);
      c.traces++; c.step(); c.state(b, 17);
      std::string why;
      if (rc || got != 17) why = WIFSIGNALED(rc) ? suite::fmt("killed by signal %d", WTERMSIG(rc)) : suite::fmt("exit status %d", rc);
      else
      {
        std::string n(b), head = name.substr(0, 10), tail = n.substr(std::min(n.size(), head.size()));
        int pct = -1; char sign = 0;
        if (n.compare(0, head.size(), head)) why = "the thread is called '" + n + "'";
        else if (n == name) ; // (no step made)
        else if (sscanf(tail.c_str(), " %d%c", &pct, &sign) != 2 || sign != '%' || pct < 0 || pct > 100) why = "the thread is called '" + n + "'";
      }
      if (!why.empty()) c.viol(id, id + ": " + why);
    }
  }
}
CASE("progress, fixed steps", 5, [](suite::Ctx &c) { progress<1, false, 1, int>(c, {{0}, {1}, {3}, {0, 1}, {1, 1, 1}, std::vector<int>(120, 1)}); });
CASE("progress, linear", 10, [](suite::Ctx &c) { progress<1, true, 1, double>(c, {{0}, {1}, {1e-3}, {1e-7}, {0, 1}, {1, 1e-3}, {2, 0, 0}}); });
CASE("progress, quadratic", 10, [](suite::Ctx &c) { progress<1, true, 2, double>(c, {{0}, {1}, {1e-3}, {1e-7}, {0, 1}, {1, 1e-3}, {2, 0, 0}}); });
