// stand-in: one process
#pragma once
typedef int MPI_Comm; enum { MPI_COMM_WORLD = 0, MPI_SUCCESS = 0 };
inline int MPI_Comm_size(MPI_Comm, int * n) { *n = 1; return MPI_SUCCESS; }
inline int MPI_Comm_rank(MPI_Comm, int * n) { *n = 0; return MPI_SUCCESS; }
