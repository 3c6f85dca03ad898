#pragma once
#include <boost/mpi/communicator.hpp>
