#include <config.h>
#include <complex>
#include <dune/common/fmatrix.hh>
#include <dune/istl/bcrsmatrix.hh>
#include "layout.hh"
using namespace Dune;
#if VARIANT==0
typedef double K; typedef BCRSMatrix<double> M;
#elif VARIANT==1
typedef std::complex<double> K; typedef BCRSMatrix<K> M;
#elif VARIANT==2
typedef double K; typedef BCRSMatrix<FieldMatrix<double,2,2>> M;
#elif VARIANT==3
typedef std::complex<double> K; typedef BCRSMatrix<FieldMatrix<K,1,2>> M;
#endif
LAY_BCRS(M)
extern "C" {
void c_assign(M& A, const K& a) { A = a; }
void c_imul(M& A, const K& a) { A *= a; }
void c_idiv(M& A, const K& a) { A /= a; }
void c_iadd(M& A, const M& B) { A += B; }
void c_isub(M& A, const M& B) { A -= B; }
void c_axpy(M& A, const K& a, const M& B) { A.axpy(a, B); }
void c_fro(const M& A, double& r) { r = A.frobenius_norm(); }
void c_fro2(const M& A, double& r) { r = A.frobenius_norm2(); }
void c_inf(const M& A, double& r) { r = A.infinity_norm(); }
void c_infr(const M& A, double& r) { r = A.infinity_norm_real(); }
}
