#include <config.h>
#include <complex>
#include <dune/common/fmatrix.hh>
#include <dune/common/fvector.hh>
#include <dune/istl/bcrsmatrix.hh>
#include <dune/istl/bvector.hh>
#include "layout.hh"
using namespace Dune;
#if VARIANT==0
typedef double K; typedef BCRSMatrix<double> M; typedef BlockVector<double> X; typedef BlockVector<double> Y;
#elif VARIANT==1
typedef std::complex<double> K; typedef BCRSMatrix<K> M; typedef BlockVector<K> X; typedef BlockVector<K> Y;
#elif VARIANT==2
typedef double K; typedef BCRSMatrix<FieldMatrix<double,2,3>> M; typedef BlockVector<FieldVector<double,3>> X; typedef BlockVector<FieldVector<double,2>> Y;
#elif VARIANT==3
typedef double K; typedef BCRSMatrix<FieldMatrix<double,1,1>> M; typedef BlockVector<FieldVector<double,1>> X; typedef BlockVector<FieldVector<double,1>> Y;
#elif VARIANT==4
typedef std::complex<double> K; typedef BCRSMatrix<FieldMatrix<K,2,2>> M; typedef BlockVector<FieldVector<K,2>> X; typedef BlockVector<FieldVector<K,2>> Y;
#endif
LAY_VEC(X) LAY_BCRS(M)
extern "C" {
#define OP2(f) void c_##f(const M& A, const X& x, Y& y) { A.f(x,y); }
#define OP2T(f) void c_##f(const M& A, const Y& x, X& y) { A.f(x,y); }
#define OP3(f) void c_##f(const M& A, const K& a, const X& x, Y& y) { A.f(a,x,y); }
#define OP3T(f) void c_##f(const M& A, const K& a, const Y& x, X& y) { A.f(a,x,y); }
OP2(mv) OP2(umv) OP2(mmv) OP3(usmv)
OP2T(mtv) OP2T(umtv) OP2T(mmtv) OP3T(usmtv)
OP2T(umhv) OP2T(mmhv) OP3T(usmhv)
}
