// C18, teams: what the first thread writes while the others wait must be what the team has computed, under every interleaving.
#include "../mc/race.hpp"
#include "../mc/cases.hpp"
#include "../mc/h5.hpp"
#include <libmpdata++/concurr/openmp.hpp>
#include <libmpdata++/output/hdf5_xdmf.hpp>
#ifndef PART
#define PART 0
#endif
using namespace cases;

namespace
{
  template <int D, bool VD, int ORD> struct ctO : CT<D, 2, opts::iga | opts::fct, VD> { enum { out_intrp_ord = ORD }; };
  template <class K, template <class> class O, class H> void team(suite::Ctx &c, const Setup &s, const H &hist, double freq, int start = 0, int win = 1)
  {
    h5::quiet();
    race::explore(c, c.thorough ? 4 : 3, [&](int) {
      boost::filesystem::remove_all("out");
      using S = O<typename K::base_t>; typename S::rt_params_t p = base_params<S>(s);
      p.outdir = "out"; p.outfreq = freq; p.outstart = start; p.outwindow = win; p.outvars = {{0, {"a", ""}}, {1, {"b", ""}}};
      {
        typename bind_bc<concurr::openmp, S, CY<K::ct::n_dims>>::type run(p); init<K>(run, s);
        for (auto h : hist) { run.advance(h); V v = observe<K>(run); mc::obs_bytes(v.data(), v.size() * 8); }
      }
      for (auto &f : h5::ls("out"))
      {
        double m = 0; for (char x : f) m = m * 7 + x; mc::obs_bytes(&m, 8);
        if (f.size() < 3 || f.substr(f.size() - 3) != ".h5") continue;
        H5::H5File h("out/" + f, H5F_ACC_RDONLY);
        for (auto &n : h5::names(h)) if (h.childObjType(n) == H5O_TYPE_DATASET) { V v; for (float x : h5::set(h, n).val) v.push_back(x); mc::obs_bytes(v.data(), v.size() * 8); }
      }
    });
    boost::filesystem::remove_all("out");
  }
  Setup some(int D, I3 n)
  {
    Setup s; s.D = D; s.n = n; s.dt = .5; s.max_courant = .4;
    Flow f; f.n = n; f.D = D; f.amp = .4; for (auto &w : f.wrap) w = true; if (D == 1) f.base[0] = .375;
    s.psi = [n](int e, int i, int j, int k) { return 1 + u01(e, cy(i, n[0]), n[1] > 1 ? cy(j, n[1]) : 0, n[2] > 1 ? cy(k, n[2]) : 0); };
    s.gc = [f](int d, int i, int j, int k) { return f(d, i, j, k); };
    return s;
  }
}
#if PART == 0
CASE("team 1D fixed steps", 5, [](suite::Ctx &c) { team<Mpd<ctO<1, false, 1>>, output::hdf5>(c, some(1, {5, 1, 1}), std::vector<int>{2, 1}, 1); });
CASE("team 2D fixed steps xdmf", 10, [](suite::Ctx &c) { team<Mpd<ctO<2, false, 1>>, output::hdf5_xdmf>(c, some(2, {4, 3, 1}), std::vector<int>{4}, 2, 0, 2); });
CASE("team 3D fixed steps xdmf", 10, [](suite::Ctx &c) { team<Mpd<ctO<3, false, 1>>, output::hdf5_xdmf>(c, some(3, {3, 4, 3}), std::vector<int>{2}, 1); });
#elif PART == 1
CASE("team 1D adaptive linear", 10, [](suite::Ctx &c) { team<Mpd<ctO<1, true, 1>>, output::hdf5>(c, some(1, {5, 1, 1}), V{2., 1.}, .75); });
CASE("team 2D adaptive quadratic xdmf", 10, [](suite::Ctx &c) { team<Mpd<ctO<2, true, 2>>, output::hdf5_xdmf>(c, some(2, {4, 4, 1}), V{4.}, 1.5); });
CASE("team 3D adaptive linear", 10, [](suite::Ctx &c) { team<Mpd<ctO<3, true, 1>>, output::hdf5>(c, some(3, {3, 4, 3}), V{2.}, 1.); });
#endif
