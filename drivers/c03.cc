#include <config.h>
#include <complex>
#include <dune/common/fmatrix.hh>
#include <dune/istl/bcrsmatrix.hh>
#include <dune/istl/bvector.hh>
#include "layout.hh"
using namespace Dune;
#if VARIANT==0
typedef BCRSMatrix<double> M;
#elif VARIANT==1
typedef BCRSMatrix<FieldMatrix<double,2,2>> M;
#endif
typedef M::block_type B; typedef M::row_type Row;
LAY_BCRS(M)
extern "C" {
int c_exists(const M& A, std::size_t i, std::size_t j) { return A.exists(i,j); }
// offset of the found entry, offset of end for missing ones
std::size_t c_find(const M& A, std::size_t i, std::size_t j) { return A[i].find(j).offset(); }
std::size_t c_find_mut(M& A, std::size_t i, std::size_t j) { return A[i].find(j).offset(); }
int c_find_end(const M& A, std::size_t i, std::size_t j) { return A[i].find(j) == A[i].end(); }
int c_find_end_mut(M& A, std::size_t i, std::size_t j) { return A[i].find(j) == A[i].end(); }
const B* c_find_entry(const M& A, std::size_t i, std::size_t j) { return &*A[i].find(j); }
B* c_find_entry_mut(M& A, std::size_t i, std::size_t j) { return &*A[i].find(j); }
std::size_t c_find_index(const M& A, std::size_t i, std::size_t j) { return A[i].find(j).index(); }
const B* c_at(const M& A, std::size_t i, std::size_t j) { return &A[i][j]; }
B* c_at_mut(M& A, std::size_t i, std::size_t j) { return &A[i][j]; }
// entry reached by stepping k times from the first, and from the last, entry of a row
const B* c_iter(const M& A, std::size_t i, std::size_t k, std::size_t& index) { auto it = A[i].begin(); for (std::size_t t=0; t<k; ++t) ++it; index = it.index(); return &*it; }
const B* c_riter(const M& A, std::size_t i, std::size_t k, std::size_t& index) { auto it = A[i].beforeEnd(); for (std::size_t t=0; t<k; ++t) --it; index = it.index(); return &*it; }
// row reached from begin and from the last row
const Row* c_rowiter(const M& A, std::size_t i, std::size_t& index) { auto it = A.begin(); for (std::size_t t=0; t<i; ++t) ++it; index = it.index(); return &*it; }
const Row* c_rowriter(const M& A, std::size_t k, std::size_t& index) { auto it = A.beforeEnd(); for (std::size_t t=0; t<k; ++t) --it; index = it.index(); return &*it; }
std::size_t c_dims(const M& A, std::size_t i, std::size_t& m) { m = A.M(); return A.N()+0*i; }
std::size_t c_rowsize(const M& A, std::size_t i) { return A[i].size(); }
std::size_t c_getrowsize(const M& A, std::size_t i) { return A.getrowsize(i); }
}
