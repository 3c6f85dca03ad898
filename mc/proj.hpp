// Reference for pressure solvers: the projection by direct elimination.
#pragma once
#include "vip.hpp"
namespace
{
  // ------------------------------------------------------------------ reference projection
  struct Proj
  {
    const Dom &g; const double *dx; V G; std::vector<V> w; // w: what each component of gradients is divided by (implicit absorber and the like)
    std::vector<int> pts; std::vector<int> num; // distinct points
    int n, rank = 0; std::vector<V> M; std::vector<int> pr, pc; bool ambiguous = false;
    double Gat(I3 i) const { return G.size() ? G[g.at(i)] : 1; }
    bool edge(int d, I3 i) const { return !g.cyc(d) && (i[d] == 0 || i[d] == g.n[d] - 1); }
    std::vector<V> grad(const V &phi) const
    {
      Halo H{g}; std::vector<V> r(g.D, V(g.size()));
      g.each([&](I3 i) { for (int d = 0; d < g.D; ++d) { I3 a = i, b = i; a[d]--; b[d]++; r[d][g.at(i)] = (H.pres(phi, b) - H.pres(phi, a)) / dx[d] / 2; } });
      return r;
    }
    V div(std::vector<V> v) const // of velocities that hold prescribed values at the ends
    {
      Halo H{g}; V r(g.size());
      g.each([&](I3 i) { for (int d = 0; d < g.D; ++d) v[d][g.at(i)] *= Gat(i); });
      g.each([&](I3 i) { double s = 0; for (int d = 0; d < g.D; ++d) { I3 a = i, b = i; a[d]--; b[d]++; s += (H.pres(v[d], b) - H.pres(v[d], a)) / dx[d] / 2; } r[g.at(i)] = s / Gat(i); });
      return r;
    }
    void edges(std::vector<V> &v, const std::vector<V> *val) const { g.each([&](I3 i) { for (int d = 0; d < g.D; ++d) if (edge(d, i)) v[d][g.at(i)] = val ? (*val)[d][g.at(i)] : 0; }); }
    V lap(const V &phi) const { auto v = grad(phi); edges(v, 0); scale(v); return div(v); }
    void scale(std::vector<V> &v) const { if (w.size()) for (size_t d = 0; d < v.size(); ++d) for (size_t i = 0; i < v[d].size(); ++i) v[d][i] /= w[d][i]; }
    V full(const V &d) const { V r(g.size()); g.each([&](I3 i) { r[g.at(i)] = d[num[g.at(g.rep(i))]]; }); return r; }
    Proj(const Dom &g, const double *dx, const V &G, const std::vector<V> &w) : g(g), dx(dx), G(G), w(w), num(g.size(), -1)
    {
      g.each([&](I3 i) { if (!g.dup(i)) { num[g.at(i)] = pts.size(); pts.push_back(g.at(i)); } });
      n = pts.size(); M.assign(n, V(n));
      for (int j = 0; j < n; ++j) { V e(n, 0.); e[j] = 1; V l = lap(full(e)); for (int i = 0; i < n; ++i) M[i][j] = l[pts[i]]; }
      // elimination with full pivoting, kept in factored form; what remains is the null space
      F = M; for (int i = 0; i < n; ++i) { pr.push_back(i); pc.push_back(i); }
      double first = 0;
      for (int k = 0; k < n; ++k)
      {
        int bi = k, bj = k; for (int i = k; i < n; ++i) for (int j = k; j < n; ++j) if (std::fabs(F[i][j]) > std::fabs(F[bi][bj])) { bi = i; bj = j; }
        if (k == 0) first = std::fabs(F[bi][bj]);
        if (std::fabs(F[bi][bj]) <= 1e-10 * first) break;
        std::swap(F[k], F[bi]); std::swap(pr[k], pr[bi]); for (auto &r : F) std::swap(r[k], r[bj]); std::swap(pc[k], pc[bj]);
        for (int i = k + 1; i < n; ++i) { double m = F[i][k] /= F[k][k]; if (m != 0) for (int j = k + 1; j < n; ++j) F[i][j] -= m * F[k][j]; }
        rank = k + 1;
      }
      for (int z = rank; z < n; ++z)
      { // a null vector: must have no gradient
        V x(n, 0.); x[z] = 1;
        for (int i = rank - 1; i >= 0; --i) { double s = 0; for (int j = i + 1; j < n; ++j) s += F[i][j] * x[j]; x[i] = -s / F[i][i]; }
        V d(n); for (int i = 0; i < n; ++i) d[pc[i]] = x[i];
        auto q = grad(full(d)); edges(q, 0); for (auto &v : q) if (maxabs(v) > 1e-6 * maxabs(d)) ambiguous = true;
      }
    }
    std::vector<V> F;
    // returns false if there is no solution
    bool solve(const V &rhs, V &phi) const
    {
      V b(n), x(n, 0.); for (int i = 0; i < n; ++i) b[i] = rhs[pts[pr[i]]];
      for (int k = 0; k < rank; ++k) for (int i = k + 1; i < n; ++i) b[i] -= F[i][k] * b[k];
      double m = maxabs(rhs); for (int i = rank; i < n; ++i) if (std::fabs(b[i]) > 1e-9 * (1 + m)) return false;
      for (int i = rank - 1; i >= 0; --i) { double s = b[i]; for (int j = i + 1; j < rank; ++j) s -= F[i][j] * x[j]; x[i] = s / F[i][i]; }
      V d(n); for (int i = 0; i < n; ++i) d[pc[i]] = x[i];
      phi = full(d); return true;
    }
    bool operator()(std::vector<V> &v, const std::vector<V> &edge_vel) const
    {
      auto t = v; edges(t, &edge_vel); scale(t);
      V phi; if (!solve(div(t), phi)) return false;
      auto q = grad(phi); for (int d = 0; d < g.D; ++d) for (size_t i = 0; i < v[d].size(); ++i) v[d][i] -= q[d][i];
      scale(v); edges(v, &edge_vel); return true;
    }
  };
}
