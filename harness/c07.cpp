// C07: solver objects are independent of one another and of what memory held before.
// All interleavings of the life cycles of two objects, and every memory fill pattern, on the real code.
#include "c07_kinds.hpp"
#ifndef PART
#define PART 0
#endif
#if PART == 0
#include "../mc/fill.hpp"
#include <algorithm>
#include <unistd.h>
#include <sys/wait.h>
namespace
{
  const Kind &kind(const std::string &n) { for (auto &k : kinds()) if (k.name == n) return k; throw std::runtime_error("no kind " + n); }
  V alone(const Kind &k, std::vector<V> *steps = nullptr)
  {
    auto o = k.make(); o->construct(); o->init(); o->advance(1); if (steps) steps->push_back(o->read()); o->advance(2); V v = o->read(); o->destroy();
    return v;
  }
  // the same in a process in which nothing of the library has run before (a child of this one, forked before anything runs)
  std::map<std::string, V> fresh;
  void run_fresh()
  {
    for (auto &k : kinds())
    {
      int p[2]; if (pipe(p)) throw std::runtime_error("pipe");
      fflush(0); pid_t pid = fork();
      if (!pid) { close(p[0]); V v = alone(k); uint64_t n = v.size(); bool ok = write(p[1], &n, 8) == 8; const char *b = (const char *)v.data(); for (size_t q = 0; ok && q < n * 8;) { ssize_t w = write(p[1], b + q, n * 8 - q); ok = w > 0; q += w; } _exit(ok ? 0 : 1); }
      close(p[1]); uint64_t n = 0; auto get = [&](char *b, size_t m) { for (size_t q = 0; q < m;) { ssize_t r = read(p[0], b + q, m - q); if (r <= 0) throw std::runtime_error("no result of " + k.name + " alone"); q += r; } };
      get((char *)&n, 8); V v(n); get((char *)v.data(), n * 8); close(p[0]); int st; waitpid(pid, &st, 0);
      fresh[k.name] = v;
    }
  }
  bool same(const V &a, const V &b) { return a.size() == b.size() && !memcmp(a.data(), b.data(), a.size() * 8); }
  // operations of one life cycle
  const char *life = "CIa2RD";
  struct Life
  {
    std::unique_ptr<Obj> o; size_t pos = 0; bool bad = false; V got;
    void step(const V &want)
    {
      switch (life[pos++])
      {
        case 'C': o->construct(); break; case 'I': o->init(); break; case 'a': o->advance(1); break; case '2': o->advance(2); break;
        case 'R': got = o->read(); bad |= !same(got, want); break; case 'D': o->destroy(); break;
      }
    }
  };
  void pairs(suite::Ctx &c, const Kind &a, const Kind &b)
  {
    const V &wa = fresh.at(a.name), &wb = fresh.at(b.name);
    c.state(wa); c.state(wb);
    std::string m = "xxxxxxyyyyyy", who = a.name + " with " + b.name;
    do
    {
      if (!c.item(who + ": " + m)) continue;
      Life x, y; x.o = a.make(); y.o = b.make();
      for (char ch : m) { (ch == 'x' ? x : y).step(ch == 'x' ? wa : wb); c.step(); }
      c.traces += 2;
      for (auto *l : {&x, &y}) if (l->bad)
      {
        const V &w = l == &x ? wa : wb; size_t k = 0; while (k < w.size() && l->got[k] == w[k]) ++k;
        c.viol("pair:" + who, suite::fmt("object %s, run together with %s in the order %s of %s, reads %.17g at %zu; alone it reads %.17g", (l == &x ? a : b).name.c_str(), (l == &x ? b : a).name.c_str(), m.c_str(), life, l->got[k], k, w[k]));
      }
      if (c.enough()) return;
    }
    while (std::next_permutation(m.begin(), m.end()));
    c.sample("orders of the operations of two objects: 924, last " + m);
  }
  void fills(suite::Ctx &c)
  {
    run_fresh();
    for (auto &k : kinds())
    {
      const V &want = fresh.at(k.name);
      if (k.of == "") for (int f : {0x00, 0xff, 0x7f, 0x3f, 0xbf, 0x01, 0x80, 0xfe}) for (int d : {-1, 0xff, 0x00})
      {
        if (!c.item(suite::fmt("%s, memory filled with %02x, freed memory with %02x", k.name.c_str(), f, d & 255))) continue;
        fill_::on_new = f; fill_::on_delete = d;
        V v = alone(k);
        fill_::on_new = fill_::on_delete = -1;
        c.step(5); c.state(v);
                ++c.traces;
        if (!same(v, want)) { size_t q = 0; while (q < v.size() && !memcmp(&v[q], &want[q], 8)) ++q; c.viol("fill:" + k.name, suite::fmt("%s reads %.17g at %zu; in a fresh process it reads %.17g", k.name.c_str(), v[q], q, want[q])); }
      }
      // a second life in memory an earlier life has used
      if (k.of == "") for (auto &k2 : kinds())
      {
        if (!c.item(k.name + " after " + k2.name)) continue;
        alone(k2); V v = alone(k); ++c.traces;
        if (!same(v, want)) c.viol("after:" + k.name, k.name + " depends on " + k2.name + " having run before");
      }
    }
  }
  struct All
  {
    All()
    {
      new suite::Reg("memory contents", 10, fills);
      static bool done = false; (void)done;
    }
  } all_;
  void by_index(suite::Ctx &c, size_t i, size_t step)
  {
    run_fresh(); auto &ks = kinds();
    std::vector<std::pair<std::string, size_t>> s; for (size_t q = 0; q < ks.size(); ++q) s.push_back({ks[q].name, q});
    std::sort(s.begin(), s.end());
    for (size_t q = i; q < s.size(); q += step)
      for (size_t r = q; r < s.size(); ++r)
      {
        // another set-up of a kind: together with that kind (and itself)
        const Kind &a = ks[s[q].second], &b = ks[s[r].second];
        if ((a.of != "" || b.of != "") && a.of != b.name && b.of != a.name) continue;
        pairs(c, a, b);
      }
  }
}
#define SHARE(i) CASE("pairs, share " #i " of 40", 5, [](suite::Ctx &c) { by_index(c, i, 40); })
#define SHARES(d) SHARE(d##0); SHARE(d##1); SHARE(d##2); SHARE(d##3); SHARE(d##4); SHARE(d##5); SHARE(d##6); SHARE(d##7); SHARE(d##8); SHARE(d##9)
SHARES(); SHARES(1); SHARES(2); SHARES(3);
KIND("1D mpdata iga|fct", P(Mpd<CT<1, 2, iga | fct>>), C1, base(1, 6, 1, 1), 1)
KIND("1D mpdata iga|fct other size", P(Mpd<CT<1, 2, iga | fct>>), C1, iters(base(1, 7, 1, 1, 3), 1), 1)
KIND("1D mpdata abs", P(Mpd<CT<1, 2, ABS>>), C1, base(1, 6, 1, 1), 1)
KIND("1D mpdata abs more iterations", P(Mpd<CT<1, 2, ABS>>), C1, iters(base(1, 6, 1, 1, 3), 4), 1)
KIND("1D mpdata abs|tot|dfl open", P(Mpd<CT<1, 1, ABS | tot | dfl>>), O1, base(1, 6, 1, 1), 1)
KIND("1D rhs trapez", P(Rhs<ctRhs<1, (int)solvers::trapez, iga>>), C1, base(1, 6, 1, 1), 1)
KIND("1D mpdata adaptive", P(Mpd<CT<1, 1, iga, true>>), C1, base(1, 6, 1, 1), 2)
KIND("1D shallow water", P(Shw<ctShw<1, fct | ABS>>), C1, vel(base(1, 6, 1, 1), 1, 1), 1)
#elif PART == 1
KIND("2D mpdata nug|iga|fct", P(Mpd<CT<2, 2, nug | iga | fct>>), C2, base(2, 5, 4, 1), 1)
KIND("2D mpdata nug|iga|fct other size", P(Mpd<CT<2, 2, nug | iga | fct>>), C2, iters(base(2, 4, 6, 1, 3), 1), 1)
KIND("2D mpdata div_2nd|div_3rd", P(Mpd<CT<2, 1, ABS | div_2nd | div_3rd>>), C2, base(2, 5, 5, 1), 1)
KIND("2D mpdata open rigid", P(Mpd<CT<2, 1, iga | fct | dfl>>), P(BC<opn, opn, rgd, rgd>), along_x(base(2, 5, 5, 1)), 1)
KIND("2D mpdata khn", P(Mpd<CT<2, 1, khn | fct>>), C2, base(2, 5, 5, 1), 1)
KIND("2D mpdata polar", P(Mpd<CT<2, 1, nug | fct | dfl>>), P(BC<cyc, cyc, pol, pol>), along_x(base(2, 5, 4, 1)), 1)
KIND("2D rhs euler_b", P(Rhs<ctRhs<2, (int)solvers::euler_b, iga>>), C2, base(2, 5, 4, 1), 1)
#elif PART == 2
KIND("2D vip", P(Vip<ctVip<2, (int)solvers::trapez, iga>>), C2, vel(base(2, 5, 5, 1), 2), 1)
KIND("2D vip adaptive", P(Vip<ctVip<2, (int)solvers::trapez, iga, 0, true>>), C2, vel(base(2, 5, 5, 1), 2), 2)
KIND("2D vip div_3rd", P(Vip<ctVip<2, (int)solvers::euler_b, ABS | div_2nd | div_3rd>>), C2, vel(base(2, 5, 5, 1), 2), 1)
KIND("2D vip impl absorber", P(Vip<ctVip<2, (int)solvers::trapez, iga, (int)solvers::impl>>), C2, vel(base(2, 5, 5, 1), 2, 0, {"vab_coeff", "vab_relax0", "vab_relax1"}), 1)
KIND("2D shallow water", P(Shw<ctShw<2, fct | ABS>>), C2, vel(base(2, 5, 5, 1), 2, 1), 1)
KIND("3D mpdata iga|fct|tot", P(Mpd<CT<3, 1, iga | fct | tot>>), C3, base(3, 4, 4, 4), 1)
KIND("3D vip", P(Vip<ctVip<3, (int)solvers::trapez, iga>>), C3, vel(base(3, 4, 4, 4), 3), 1)
#elif PART == 3
KIND("2D prs mr", P(Prs<ctPrs<2, (int)solvers::mr, iga>>), C2, vel(base(2, 5, 5, 1), 2), 1)
KIND("2D prs cr", P(Prs<ctPrs<2, (int)solvers::cr, iga>>), C2, vel(base(2, 5, 5, 1), 2), 1)
KIND("2D prs gcrk rigid", P(Prs<ctPrs<2, (int)solvers::gcrk, iga>>), P(BC<cyc, cyc, rgd, rgd>), vel(base(2, 5, 5, 1), 2), 1)
KIND("3D prs cr", P(Prs<ctPrs<3, (int)solvers::cr, iga>>), C3, vel(base(3, 4, 4, 4), 3), 1)
KIND("2D boussinesq expl", P(Bou<ctBou<2, false, iga>>), P(BC<cyc, cyc, rgd, rgd>), vel(base(2, 5, 5, 1), 2, 300, {"tht_e", "tht_abs", "hflux_frc"}), 1)
#elif PART == 4
KIND("2D sgs dns", P(Sgs<ctSgs<2, (int)solvers::dns, (int)solvers::compact, iga>>), P(BC<cyc, cyc, rgd, rgd>), vel(base(2, 5, 5, 1), 2), 1)
KIND("2D sgs smg", P(Sgs<ctSgs<2, (int)solvers::smg, (int)solvers::normal, iga>>), C2, vel(base(2, 5, 5, 1), 2), 1)
KIND("3D boussinesq smg", P(Bou<ctBou<3, true, iga | fct, (int)solvers::smg, (int)solvers::compact>>), P(BC<cyc, cyc, cyc, cyc, gsk, gsk>), ([] { auto s = vel(base(3, 4, 4, 4), 3, 0, {"tht_e", "tht_abs", "mix_len"}); s.dt = .1; return s; })(), 1)
#endif
