#include <config.h>
#include <complex>
#include <dune/common/fmatrix.hh>
#include <dune/common/fvector.hh>
#include <dune/istl/bdmatrix.hh>
#include <dune/istl/btdmatrix.hh>
#include <dune/istl/bvector.hh>
#include "layout.hh"
using namespace Dune;
#if VARIANT==0
typedef double B; typedef BlockVector<double> X;
#elif VARIANT==1
typedef std::complex<double> B; typedef BlockVector<B> X;
#elif VARIANT==2
typedef FieldMatrix<double,1,1> B; typedef BlockVector<FieldVector<double,1>> X;
#elif VARIANT==3
typedef FieldMatrix<double,2,2> B; typedef BlockVector<FieldVector<double,2>> X;
#endif
typedef BCRSMatrix<B> M;
LAY_VECS(X) LAY_BCRS(M)
extern "C" {
void c_bd_solve(const BDMatrix<B>& A, X& x, const X& b) { A.solve(x,b); }
void c_bd_invert(BDMatrix<B>& A) { A.invert(); }
void c_btd_solve(const BTDMatrix<B>& A, X& x, const X& b) { A.solve(x,b); }
}
