// The part of MPI the driver of C18 needs (assumed contracts)
#pragma once
extern "C" { int vc_finalized(); void vc_commfree(long); }
typedef long MPI_Comm; enum : long { MPI_COMM_NULL = 0, MPI_COMM_WORLD = 1 };
inline int MPI_Finalized(int* f) { *f = vc_finalized(); return 0; }
int MPI_Comm_rank(MPI_Comm, int*);
inline int MPI_Comm_free(MPI_Comm* c) { vc_commfree(*c); *c = MPI_COMM_NULL; return 0; }
