// Stand-in for Boost.MPI, see mc/mpi.hpp
#pragma once
#include <mpi.h>
#include "../../../../mc/mpi.hpp"
#include <boost/optional.hpp>
#include <type_traits>
#include <algorithm>
namespace boost { namespace mpi
{
  namespace threading { enum level { single = 0, funneled = 1, serialized = 2, multiple = 3 }; }
  struct environment { static threading::level thread_level() { return (threading::level)mpi_mock::st->level; } static bool initialized() { return true; } static bool finalized() { return false; } };
  struct status { int s = 0, t = 0; int source() const { return s; } int tag() const { return t; } };
  static const int any_source = -1, any_tag = -1;
  class request
  {
    public:
    mpi_mock::OpP op;
    request() {}
    request(mpi_mock::OpP o) : op(o) {}
    status wait() { mpi_mock::wait({op}); op.reset(); return status(); }
    boost::optional<status> test() { if (!op) return status(); mpi_mock::Inside in(op->rank, "test"); if (!mpi_mock::complete(*op)) return boost::none; mpi_mock::finish(*op); op.reset(); return status(); }
    bool active() const { return (bool)op; }
  };
  template <class T> struct minimum { T operator()(const T &a, const T &b) const { return b < a ? b : a; } };
  template <class T> struct maximum { T operator()(const T &a, const T &b) const { return a < b ? b : a; } };
  enum comm_create_kind { comm_duplicate, comm_take_ownership, comm_attach };
  class communicator
  {
    int r, x = 0;
    public:
    communicator() : r(mpi_mock::me()) {}
    communicator(MPI_Comm c, comm_create_kind k) : r(mpi_mock::me()), x(k == comm_duplicate ? mpi_mock::duplicate(c, r) : c) {}
    operator MPI_Comm() const { return x; }
    int context() const { return x; }
    int rank() const { return r; }
    int size() const { return mpi_mock::st ? mpi_mock::st->size : 1; }
    void barrier() const { mpi_mock::all(x, r, "barrier", nullptr, 0); }
    template <class T> request isend(int to, int tag, const T *p, int n) const { return mpi_mock::post(x, true, r, to, tag, typeid(T), p, n * sizeof(T)); }
    template <class T> request irecv(int from, int tag, T *p, int n) const { return mpi_mock::post(x, false, r, from, tag, typeid(T), p, n * sizeof(T)); }
    template <class T> request isend(int to, int tag, const T &v) const { return mpi_mock::post(x, true, r, to, tag, typeid(T), &v, sizeof v, true); }
    template <class T> request irecv(int from, int tag, T &v) const { T *p = &v; return mpi_mock::post(x, false, r, from, tag, typeid(T), p, sizeof v, true, [p](const char *d) { memcpy((void *)p, d, sizeof(T)); }); }
    template <class T> void send(int to, int tag, const T *p, int n) const { isend(to, tag, p, n).wait(); }
    template <class T> status recv(int from, int tag, T *p, int n) const { return irecv(from, tag, p, n).wait(); }
    template <class T> void send(int to, int tag, const T &v) const { isend(to, tag, v).wait(); }
    template <class T> status recv(int from, int tag, T &v) const { return irecv(from, tag, v).wait(); }
  };
} }
