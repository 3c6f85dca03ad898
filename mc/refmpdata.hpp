// Cell-by-cell evaluation of the documented MPDATA scheme on a periodic grid: one code for any number of dimensions,
// plain loops over all cells, options tested at run time. Written from the papers (Smolarkiewicz & Margolin 1998,
// Smolarkiewicz & Grabowski 1990, Smolarkiewicz 2006, Waruszewski et al. 2018, Jaruga et al. 2015); shares no code
// with the library. An edge of direction d is denoted by the cell on its left: edge I lies between I and I+e_d.
#pragma once
#include <array>
#include <vector>
#include <cmath>
#include <algorithm>
#include <limits>
#include <cstdint>

namespace ref
{
  typedef std::array<int, 3> I3;
  typedef std::vector<double> V;
  struct Opt
  {
    bool fct = 0, abs = 0, tot = 0, iga = 0, nug = 0, dfl = 0, div2 = 0, div3 = 0, div3dt = 0, fot = 0;
    int intrp = 0; // spatial interpolation of velocities: 0 exact, 1 two-point, 2 four-point
    bool lin2 = false; // linear extrapolation of velocities in time
    int iters = 2, filter = 0;
  };
  struct Grid
  {
    int D; I3 P; // period in each direction
    int size() const { return P[0] * P[1] * P[2]; }
    int at(I3 i) const { int r = 0; for (int d = 0; d < 3; ++d) { int k = i[d] % P[d]; if (k < 0) k += P[d]; r = r * P[d] + k; } return r; }
    template <class F> void each(F f) const { I3 i; for (i[0] = 0; i[0] < P[0]; ++i[0]) for (i[1] = 0; i[1] < P[1]; ++i[1]) for (i[2] = 0; i[2] < P[2]; ++i[2]) f(i); }
  };
  struct Flow { V c[3], dt[3], dtt[3]; }; // Courant numbers times G, and their (nondimensional) time derivatives

  struct Scheme
  {
    Grid g; Opt o; V G;
    double noise = 0; uint32_t seed = 1; // to find out how sensitive the result is to rounding
    Scheme(const Grid &g_, const Opt &o_, const V &G_ = V()) : g(g_), o(o_), G(o_.nug ? G_ : V(g_.size(), 1.)) {}

    static I3 sh(I3 i, int d, int k = 1) { i[d] += k; return i; }
    double jig() { seed = seed * 1664525u + 1013904223u; return noise ? noise * ((int(seed >> 16) % 2001) - 1000) / 1000. : 0; }
    void jiggle(V &v) { if (!noise) return; double m = 0; for (double x : v) m = std::max(m, std::fabs(x)); for (double &x : v) x += jig() * m; }

    struct At // one field under the conventions for signs
    {
      const Scheme &s; const V &v;
      double operator()(I3 i) const { double x = v[s.g.at(i)]; return s.o.abs && !s.o.iga ? std::fabs(x) : x; }
      double bar(I3 i, int d) const { return ((*this)(i) + (*this)(sh(i, d))) / 2; }
      double bar(I3 i, int d, int m) const { return (bar(i, d) + bar(sh(i, m), d)) / 2; }
      double bar(I3 i, int d, int m, int q) const { return (bar(i, d, m) + bar(sh(i, q), d, m)) / 2; }
    };
    double raw(const V &v, I3 i) const { return v[g.at(i)]; }
    double Gbar(I3 i, int d) const { return (raw(G, i) + raw(G, sh(i, d))) / 2; }
    double Gbar(I3 i, int d, int m) const { return (Gbar(i, d) + Gbar(sh(i, m), d)) / 2; }
    // a ratio as used with a scalar of one sign; 'n' terms in the denominator. infinite gauge: the sum is replaced by their number
    mutable bool degenerate = false; // a denominator vanished: the scheme is not defined there
    double frac(double nom, double den, int n) const { if (!o.iga && std::fabs(nom) > 1e6 * std::fabs(den)) degenerate = true; return o.iga ? nom / n : den != 0 ? nom / den : 0; }

    // flow averages; all take the flow component c of direction m
    double at_cell(const V &c, I3 i, int m) const { return (raw(c, i) + raw(c, sh(i, m, -1))) / 2; }              // to the centre of cell i
    double at_edge(const V &c, I3 i, int m, int d) const { return (at_cell(c, i, m) + at_cell(c, sh(i, d), m)) / 2; } // to the edge of direction d
    double at_corner(const V &c, I3 i, int m, int d) const { return (raw(c, i) + raw(c, sh(i, d))) / 2; }       // to the corner between d and m

    // flux divergence over G at the centre of a cell
    double fdiv_c(const At &p, const Flow &f, I3 i) const
    {
      double s = 0;
      for (int d = 0; d < g.D; ++d) s += raw(f.c[d], i) * p.bar(i, d) - raw(f.c[d], sh(i, d, -1)) * p.bar(sh(i, d, -1), d);
      return s / raw(G, i);
    }
    // ditto at the corner i + d/2 + m/2
    double fdiv_k(const At &p, const Flow &f, I3 i, int d, int m) const
    {
      auto bar = [&](int a, int b, I3 x) { return at_edge(f.c[a], x, a, b); }; // component a at the edge of direction b
      double s = bar(d, m, sh(i, d)) * p.bar(sh(i, d), m) - bar(d, m, i) * p.bar(i, m)
               + bar(m, d, sh(i, m)) * p.bar(sh(i, m), d) - bar(m, d, i) * p.bar(i, d);
      for (int q = 0; q < g.D; ++q) if (q != d && q != m)
      {
        auto c4 = [&](I3 x) { const V &c = f.c[q]; return (raw(c, x) + raw(c, sh(x, d)) + raw(c, sh(x, m)) + raw(c, sh(sh(x, d), m))) / 4; };
        s += c4(i) * p.bar(i, d, m, q) - c4(sh(i, q, -1)) * p.bar(sh(i, q, -1), d, m, q);
      }
      return s / Gbar(i, d, m);
    }
    // divergence of flow times a quantity given at cell centres and at corners, at the edge i of direction d
    template <class C, class K> double div_e(const V (&c)[3], I3 i, int d, C centre, K corner) const
    {
      double s = at_cell(c[d], sh(i, d), d) * centre(sh(i, d)) - at_cell(c[d], i, d) * centre(i);
      for (int m = 0; m < g.D; ++m) if (m != d) s += at_corner(c[m], i, m, d) * corner(i, m) - at_corner(c[m], sh(i, m, -1), m, d) * corner(sh(i, m, -1), m);
      return s;
    }
    double sum_cross(const At &p, I3 i, int d) const { double s = p(i) + p(sh(i, d)); for (int m = 0; m < g.D; ++m) if (m != d) for (int k : {-1, 1}) s += p(sh(i, m, k)) + p(sh(sh(i, d), m, k)); return s; }
    double sum_wide(const At &p, I3 i, int d) const { return sum_cross(p, i, d) + p(sh(i, d, 2)) + p(sh(i, d, -1)); }
    double nfdiv(const At &p, const V (&c)[3], I3 i, int d) const
    {
      int n = 2 + 4 * (g.D - 1);
      double s = div_e(c, i, d, [&](I3 x) { return p(x); }, [&](I3 x, int m) { return p.bar(x, d, m); });
      return o.iga ? s / Gbar(i, d) : n * frac(s, Gbar(i, d) * sum_cross(p, i, d), 1);
    }
    double nfdiv_fdiv(const At &p, const Flow &f, I3 i, int d) const
    {
      int n = 4 + 4 * (g.D - 1);
      double s = div_e(f.c, i, d, [&](I3 x) { return fdiv_c(p, f, x); }, [&](I3 x, int m) { return fdiv_k(p, f, x, d, m); });
      return o.iga ? s / Gbar(i, d) : n * frac(s, Gbar(i, d) * sum_wide(p, i, d), 1);
    }
    double ndx_fdiv(const At &p, const Flow &f, I3 i, int d) const
    {
      int n = 4 + 4 * (g.D - 1);
      double s = fdiv_c(p, f, sh(i, d)) - fdiv_c(p, f, i);
      return o.iga ? s : n * frac(s, sum_wide(p, i, d), 1);
    }
    double nfdiv_dt(const At &p, const At &q, const V (&c)[3], I3 i, int d) const
    {
      int n = 2 * (2 + 4 * (g.D - 1));
      double s = div_e(c, i, d, [&](I3 x) { return p(x) - q(x); }, [&](I3 x, int m) { return p.bar(x, d, m) - q.bar(x, d, m); });
      return o.iga ? s / Gbar(i, d) : n * frac(s, Gbar(i, d) * (sum_cross(p, i, d) + sum_cross(q, i, d)), 1);
    }

    // antidiffusive velocity at edge i of direction d; p: latest field, q: the one before the latest pass
    double antidiff(const At &p, const At &q, const Flow &f, I3 i, int d) const
    {
      const I3 r = sh(i, d);
      const double c = raw(f.c[d], i), ac = std::fabs(c), Gb = Gbar(i, d);
      const double ndx = 2 * frac(p(r) - p(i), p(r) + p(i), 2);
      const double p2 = p(sh(i, d, 2)), p1 = p(r), p0 = p(i), pm = p(sh(i, d, -1));
      const double ndxx = 2 * frac(p2 - p1 - p0 + pm, p2 + p1 + p0 + pm, 4);
      double res = 0;
      struct Side { double C, nd, ndxm; int m; }; Side t[2]; int nt = 0;
      for (int m = 0; m < g.D; ++m) if (m != d)
      {
        double a = p(sh(r, m)), b = p(sh(i, m)), e = p(sh(r, m, -1)), h = p(sh(i, m, -1));
        t[nt++] = Side{at_edge(f.c[m], i, m, d), frac(a + b - e - h, a + b + e + h, 4), 2 * frac(a - b - e + h, a + b + e + h, 4), m};
      }
      if (!o.div2)
      {
        res += ac / 2 * (1 - ac / Gb) * ndx;
        for (int k = 0; k < nt; ++k) res -= c * t[k].C / (2 * Gb) * t[k].nd;
        if (o.tot)
        {
          res += ndxx * (3 * c * ac / Gb - 2 * c * c * c / (Gb * Gb) - c) / 6;
          for (int k = 0; k < nt; ++k) res += t[k].ndxm * (ac - 2 * c * c / Gb) * t[k].C / (2 * Gb);
          if (nt == 2)
          {
            double n = 0, s = 0;
            for (int x : {0, 1}) for (int y : {-1, 1}) for (int z : {-1, 1}) { double v = p(sh(sh(sh(i, d, x), t[0].m, y), t[1].m, z)); n += y * z * v; s += v; }
            res += frac(n, s, 8) * (-2 * c * t[0].C * t[1].C / (3 * Gb * Gb));
          }
        }
        if (o.dfl)
        {
          double dv = (raw(f.c[d], sh(i, d)) - raw(f.c[d], sh(i, d, -1)));
          for (int k = 0; k < nt; ++k) { int m = t[k].m; dv += 2 * (at_corner(f.c[m], i, m, d) - at_corner(f.c[m], sh(i, m, -1), m, d)); }
          res -= .25 * c / Gb * dv * (o.iga ? p.bar(i, d) : 1);
        }
      }
      else
      {
        const double nf = nfdiv(p, f.c, i, d), second = ac / 2 * ndx - c / 2 * nf;
        res += second;
        if (o.div3 || o.div3dt)
        {
          const double w = o.iga ? p.bar(i, d) : 1; // (terms without a derivative of psi)
          if (!o.iga) res += std::fabs(second) / 2 * ndx;
          const double cp = raw(f.c[d], sh(i, d)), cm = raw(f.c[d], sh(i, d, -1));
          const double cxx = (cp + cm - 2 * c) * w * (o.intrp == 0 ? 1 : o.intrp == 1 ? 4 : 0);
          res -= (4 * c * ndxx + 2 * ndx * (cp - cm) / 2 + cxx) / 24;
          const double tt = f.dtt[d].empty() ? 0 : raw(f.dtt[d], i) * w * (o.lin2 ? 10 : 1), ct = f.dt[d].empty() ? 0 : raw(f.dt[d], i);
          const double nft = f.dt[d].empty() ? 0 : nfdiv(p, f.dt, i, d);
          if (!o.div3dt) res += .5 * ac * ndx_fdiv(p, f, i, d) + (-8 * c * nfdiv_fdiv(p, f, i, d) + tt + 2 * c * nft - 2 * ct * nf) / 24;
          else
          {
            const double q1 = q(r), q0 = q(i), s = p1 + q1 + p0 + q0;
            const double ndtx = o.iga ? p1 - q1 - p0 + q0 : 4 * frac(p1 - q1 - p0 + q0, s, 1);
            const double ndt = o.iga ? (p1 - q1 + p0 - q0) / 2 : 2 * frac(p1 - q1 + p0 - q0, s, 1);
            res += -.5 * ac * ndtx + (8 * c * nfdiv_dt(p, q, f.c, i, d) + tt + 2 * c * nft + 2 * ct * ndt) / 24;
          }
        }
      }
      if (o.fot)
      {
        const double G2 = Gb * Gb, c2 = c * c;
        const I3 im = sh(i, d, -1), i2 = sh(i, d, 2);
        res += (p2 - 3 * p1 + 3 * p0 - pm) / 4 * (6 * ac * c2 / G2 - 3 * c2 / Gb - 3 * c2 * c2 / (G2 * Gb)) / 2;
        for (int k = 0; k < nt; ++k)
        {
          const int m = t[k].m; const double C = t[k].C, aC = std::fabs(C);
          auto xx = [&](int y) { return p(sh(i2, m, y)) - p(sh(r, m, y)) - p(sh(i, m, y)) + p(sh(im, m, y)); };
          auto yy = [&](I3 x) { return p(sh(x, m, 1)) - 2 * p(x) + p(sh(x, m, -1)); };
          res += (xx(1) - xx(-1)) / 8 * 3 * (ac - c2 / Gb) * c * C / G2;
          res += (yy(r) - yy(i)) / 6 * 3 * (3 * aC * c2 / Gb + 3 * C * C * ac / Gb - 2 * aC * ac - 9 * C * C * c2 / G2) / Gb / 4;
        }
      }
      return res;
    }

    static double pos(double x) { return x > 0 ? x : 0; }
    static double neg(double x) { return x < 0 ? x : 0; }
    double upw(const V &psi, double c, I3 i, int d) const { return pos(c) * raw(psi, i) + neg(c) * raw(psi, sh(i, d)); }
    // extrema over a cell and its face neighbours
    double extr(const V &v, I3 i, bool mx) const
    {
      double r = raw(v, i);
      for (int d = 0; d < g.D; ++d) for (int k : {-1, 1}) { double x = raw(v, sh(i, d, k)); r = mx ? std::max(r, x) : std::min(r, x); }
      return r;
    }
    V apply(const V &psi, const V (&flx)[3]) const
    {
      V out(psi);
      g.each([&](I3 i) { double s = 0; for (int d = 0; d < g.D; ++d) s += raw(flx[d], i) - raw(flx[d], sh(i, d, -1)); out[g.at(i)] = raw(psi, i) - s / raw(G, i); });
      return out;
    }
    // one step; t: number of the step (for the upwind filter)
    V step(const V &psi0, const Flow &f0, int t = 0)
    {
      const int n = g.size();
      V mn(n), mx(n);
      if (o.fct) g.each([&](I3 i) { mn[g.at(i)] = extr(psi0, i, false); mx[g.at(i)] = extr(psi0, i, true); });
      V flx[3];
      for (int d = 0; d < g.D; ++d) { flx[d].resize(n); g.each([&](I3 i) { flx[d][g.at(i)] = upw(psi0, raw(f0.c[d], i), i, d); }); }
      V prev = psi0, psi = apply(psi0, flx);
      jiggle(psi);
      Flow f = f0;
      for (int it = 1; it < o.iters; ++it)
      {
        if (o.filter > 0 && t % o.filter == 0) break;
        V a[3];
        for (int d = 0; d < g.D; ++d)
        {
          a[d].resize(n);
          At P{*this, psi}, Q{*this, prev};
          g.each([&](I3 i) { a[d][g.at(i)] = antidiff(P, Q, f, i, d); });
          jiggle(a[d]);
        }
        V u[3]; for (int d = 0; d < g.D; ++d) { u[d] = a[d]; f.c[d] = a[d]; }
        if (o.fct)
        {
          V fl[3], bu(n), bd(n);
          for (int d = 0; d < g.D; ++d) { fl[d].resize(n); g.each([&](I3 i) { fl[d][g.at(i)] = o.iga ? raw(a[d], i) : upw(psi, raw(a[d], i), i, d); }); }
          g.each([&](I3 i) {
            double in = 0, out = 0;
            for (int d = 0; d < g.D; ++d) { double l = raw(fl[d], sh(i, d, -1)), r = raw(fl[d], i); in += pos(l) - neg(r); out += pos(r) - neg(l); }
            const double eps = std::numeric_limits<double>::epsilon(), x = raw(psi, i), gg = raw(G, i);
            bu[g.at(i)] = (std::max(raw(mx, i), extr(psi, i, true)) - x) * gg / (in + eps);
            bd[g.at(i)] = (x - std::min(raw(mn, i), extr(psi, i, false))) * gg / (out + eps);
          });
          for (int d = 0; d < g.D; ++d) g.each([&](I3 i) {
            const I3 r = sh(i, d); const double c = raw(a[d], i);
            // does the flux take from the left cell and give to the right one?
            bool fwd = c > 0;
            if (o.abs && !o.iga) { double up = c > 0 ? raw(psi, i) : raw(psi, r); if (!(up > 0)) fwd = !fwd; }
            u[d][g.at(i)] = c * std::min({1., fwd ? raw(bd, i) : raw(bu, i), fwd ? raw(bu, r) : raw(bd, r)});
          });
        }
        for (int d = 0; d < g.D; ++d) g.each([&](I3 i) { flx[d][g.at(i)] = o.iga ? raw(u[d], i) : upw(psi, raw(u[d], i), i, d); });
        V nw = apply(psi, flx);
        prev = psi; psi = nw;
        jiggle(psi);
      }
      return psi;
    }
  };
}
