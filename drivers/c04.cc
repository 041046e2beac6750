#include <config.h>
#undef DUNE_MINIMAL_DEBUG_LEVEL
#define DUNE_MINIMAL_DEBUG_LEVEL 100   // the diagnostic streams collapse to nothing
#include <complex>
#include <new>
#include <dune/common/fmatrix.hh>
#include <dune/istl/bcrsmatrix.hh>
#include "layout.hh"
using namespace Dune; typedef std::size_t S;
#if VARIANT==0
typedef double B;
#elif VARIANT==1
typedef FieldMatrix<double,2,2> B;
#endif
typedef BCRSMatrix<B> M;
LAY_BCRS(M)
LAY(bcrs_mode, M, build_mode) LAY(bcrs_jp, M, j_) LAY(bcrs_avg, M, avg) LAY(bcrs_cbs, M, compressionBufferSize_) LAY(bcrs_ovf, M, overflow)
extern "C" {
void c_addindex(M& A, S i, S j) { A.addindex(i,j); }
void c_setrowsize(M& A, S i, S s) { A.setrowsize(i,s); }
void c_incrementrowsize(M& A, S i, S s) { A.incrementrowsize(i,s); }
S c_getrowsize(const M& A, S i) { return A.getrowsize(i); }
void c_endrowsizes(M& A) { A.endrowsizes(); }
void c_endindices(M& A) { A.endindices(); }
void c_setIndicesNoSort(M& A, S i, const S* b, const S* e) { A.setIndicesNoSort(i,b,e); }
void c_setColumnPointers(M& A) { A.setColumnPointers(A.begin()); }
void c_setDataPointers(M& A) { A.setDataPointers(); }
void c_setWindowPointers(M& A, const M& Q) { A.setWindowPointers(Q.begin()); }
void c_copyWindowStructure(M& A, const M& Q) { A.copyWindowStructure(Q); }
void c_copy(M* A, const M& Q) { new (A) M(Q); }
void c_assign(M& A, const M& Q) { A = Q; }
void c_setBuildMode(M& A, int k) { A.setBuildMode(M::BuildMode(k)); }
B& c_entry(M& A, S i, S j) { return A.entry(i,j); }
}
extern "C" {
void c_next(M::CreateIterator& it) { ++it; }
void c_create(M::CreateIterator* it, M& A) { new (it) M::CreateIterator(A.createbegin()); }
}
typedef M::CreateIterator CI;
LAY(ci_mat, CI, i) LAY(ci_i, CI, i) LAY(ci_nnz, CI, nnz) LAY(ci_pat, CI, pattern) LAY(ci_row, CI, current_row) LAYSIZE(ci_size, CI)
