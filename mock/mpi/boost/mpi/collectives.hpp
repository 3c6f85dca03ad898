// Stand-in for Boost.MPI, see mc/mpi.hpp
#pragma once
#include <boost/mpi/communicator.hpp>
#include <vector>
namespace boost { namespace mpi
{
  template <class T, class Op> void all_reduce(const communicator &c, const T *p, int n, T *out, Op op)
  {
    auto v = mpi_mock::all(c.context(), c.rank(), std::string("all_reduce ") + typeid(Op).name() + " of " + std::to_string(n) + " " + typeid(T).name(), p, n * sizeof(T));
    for (int i = 0; i < n; ++i) { T x; memcpy(&x, v[0].data() + i * sizeof(T), sizeof x); for (size_t q = 1; q < v.size(); ++q) { T y; memcpy(&y, v[q].data() + i * sizeof(T), sizeof y); x = op(x, y); } out[i] = x; }
  }
  template <class T, class Op> void all_reduce(const communicator &c, const T &p, T &out, Op op) { T in = p; all_reduce(c, &in, 1, &out, op); }
  template <class T, class Op> T all_reduce(const communicator &c, const T &p, Op op) { T out; all_reduce(c, p, out, op); return out; }
  template <class T> void gatherv(const communicator &c, const T *p, int n, T *out, const std::vector<int> &sizes, const std::vector<int> &displ, int root)
  {
    auto v = mpi_mock::all(c.context(), c.rank(), std::string("gatherv of ") + typeid(T).name() + " at " + std::to_string(root), p, n * sizeof(T));
    if ((int)sizes.size() != c.size() || (int)displ.size() != c.size()) mc::fail("gatherv: wrong number of sizes");
    if (v[c.rank()].size() != sizes[c.rank()] * sizeof(T)) mc::fail("gatherv: process " + std::to_string(c.rank()) + " gives " + std::to_string(v[c.rank()].size() / sizeof(T)) + " values, " + std::to_string(sizes[c.rank()]) + " are expected");
    if (c.rank() == root) for (size_t q = 0; q < v.size(); ++q) { if (v[q].size() != sizes[q] * sizeof(T)) mc::fail("gatherv: lengths differ"); memcpy(out + displ[q], v[q].data(), v[q].size()); }
  }
  template <class T> void gatherv(const communicator &c, const std::vector<T> &in, T *out, const std::vector<int> &sizes, const std::vector<int> &displ, int root) { gatherv(c, in.data(), (int)in.size(), out, sizes, displ, root); }
  template <class T> void gatherv(const communicator &c, const std::vector<T> &in, T *out, const std::vector<int> &sizes, int root) { std::vector<int> d(sizes.size()); for (size_t i = 1; i < d.size(); ++i) d[i] = d[i - 1] + sizes[i - 1]; gatherv(c, in.data(), (int)in.size(), out, sizes, d, root); }
  template <class T> void broadcast(const communicator &c, T *p, int n, int root)
  {
    auto v = mpi_mock::all(c.context(), c.rank(), std::string("broadcast of ") + std::to_string(n) + " " + typeid(T).name() + " from " + std::to_string(root), p, n * sizeof(T));
    memcpy(p, v[root].data(), n * sizeof(T));
  }
  template <class T> void broadcast(const communicator &c, std::vector<T> &x, int root)
  { // (a vector's length is sent along)
    auto v = mpi_mock::all(c.context(), c.rank(), std::string("broadcast of vector ") + typeid(T).name() + " from " + std::to_string(root), x.data(), x.size() * sizeof(T));
    x.resize(v[root].size() / sizeof(T)); memcpy(x.data(), v[root].data(), v[root].size());
  }
  template <class T> void broadcast(const communicator &c, T &x, int root) { broadcast(c, &x, 1, root); }
  template <class T> void all_gather(const communicator &c, const T &x, std::vector<T> &out) { auto v = mpi_mock::all(c.context(), c.rank(), std::string("all_gather ") + typeid(T).name(), &x, sizeof x); out.resize(v.size()); for (size_t i = 0; i < v.size(); ++i) memcpy(&out[i], v[i].data(), sizeof(T)); }
} }
