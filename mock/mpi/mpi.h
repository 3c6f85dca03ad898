/* Stand-in for MPI, see mc/mpi.hpp */
#pragma once
#define MPI_THREAD_SINGLE 0
#define MPI_THREAD_FUNNELED 1
#define MPI_THREAD_SERIALIZED 2
#define MPI_THREAD_MULTIPLE 3
typedef int MPI_Comm; typedef int MPI_Info;
#define MPI_COMM_WORLD 0
#define MPI_INFO_NULL 0
int MPI_Initialized(int *); int MPI_Finalized(int *); int MPI_Init_thread(int *, char ***, int, int *); int MPI_Finalize(); int MPI_Query_thread(int *);
