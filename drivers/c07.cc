#include <config.h>
#include <complex>
#include <vector>
#include <dune/common/fmatrix.hh>
#include <dune/common/fvector.hh>
#include <dune/istl/bcrsmatrix.hh>
#include <dune/istl/bvector.hh>
#include <dune/istl/ilu.hh>
#include <dune/istl/ildl.hh>
#include <dune/istl/dilu.hh>
#include "layout.hh"
using namespace Dune;
#if VARIANT==0
typedef double B; typedef double VB;
#elif VARIANT==1
typedef std::complex<double> B; typedef B VB;
#elif VARIANT==2
typedef FieldMatrix<double,1,1> B; typedef FieldVector<double,1> VB;
#elif VARIANT==3
typedef FieldMatrix<double,2,2> B; typedef FieldVector<double,2> VB;
#endif
typedef BCRSMatrix<B> M; typedef BlockVector<VB> X; typedef ILU::CRS<B> C;
LAY_VECS(X) LAY_BCRS(M)
LAY(crs_rows,C,rows_) LAY(crs_values,C,values_) LAY(crs_cols,C,cols_) LAY(crs_n,C,nRows_) LAYSIZE(crs_size,C)
extern "C" {
void c_ilu_back(const M& A, X& v, const X& d) { ILU::blockILUBacksolve(A,v,d); }
void c_crs_back(const C& lower, const C& upper, const std::vector<B>& inv, X& v, const X& d) { ILU::blockILUBacksolve(lower,upper,inv,v,d); }
void c_ildl_back(const M& A, X& v, const X& d) { bildl_backsolve(A,v,d); }
void c_ildl_back_lower(const M& A, X& v, const X& d) { bildl_backsolve(A,v,d,true); }
#if VARIANT>=2
void c_dilu_back(const M& A, const std::vector<B>& D, X& v, const X& d) { DILU::blockDILUBacksolve(A,D,v,d); }
#endif
void c_dilu_dec(M& A, std::vector<B>& D) { DILU::blockDILUDecomposition(A,D); }
void c_ilu0(M& A) { ILU::blockILU0Decomposition(A); }
void c_ildl_dec(M& A) { bildl_decompose(A); }
void c_tocrs(const M& A, C& lower, C& upper, std::vector<B>& inv) { ILU::convertToCRS(A,lower,upper,inv); }
}
