// Stand-in for Boost.MPI, see mc/mpi.hpp
#pragma once
#include <boost/mpi/communicator.hpp>
namespace boost { namespace mpi
{
  template <class I> void wait_all(I a, I b) { std::vector<mpi_mock::OpP> v; for (I i = a; i != b; ++i) v.push_back(i->op); mpi_mock::wait(v); for (I i = a; i != b; ++i) i->op.reset(); }
} }
