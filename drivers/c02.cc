#include <config.h>
#include <complex>
#include <dune/common/fmatrix.hh>
#include <dune/common/fvector.hh>
#include <dune/istl/matrix.hh>
#include <dune/istl/bvector.hh>
#include <dune/istl/scaledidmatrix.hh>
#include <dune/istl/multitypeblockmatrix.hh>
#include <dune/istl/multitypeblockvector.hh>
#include "layout.hh"
using namespace Dune;
#if VARIANT<10
#if VARIANT==0
typedef double K; typedef double B; typedef double BX; typedef double BY;
#elif VARIANT==1
typedef std::complex<double> K; typedef K B; typedef K BX; typedef K BY;
#elif VARIANT==2
typedef double K; typedef FieldMatrix<double,2,3> B; typedef FieldVector<double,3> BX; typedef FieldVector<double,2> BY;
#elif VARIANT==3
typedef std::complex<double> K; typedef FieldMatrix<K,2,1> B; typedef FieldVector<K,1> BX; typedef FieldVector<K,2> BY;
#endif
typedef Matrix<B> M; typedef BlockVector<BX> X; typedef BlockVector<BY> Y;
LAY_VEC(X) LAY(mat_n, M, data_.n) LAY(mat_p, M, data_.p) LAY(mat_rows, M, data_.rows_) LAY(mat_columns, M, data_.columns_) LAY(mat_cols, M, cols_) LAYSIZE(mat_size, M)
#elif VARIANT==10
typedef double K; typedef ScaledIdentityMatrix<K,3> M; typedef FieldVector<K,3> X; typedef X Y;
#elif VARIANT==11
typedef std::complex<double> K; typedef ScaledIdentityMatrix<K,2> M; typedef FieldVector<K,2> X; typedef X Y;
#elif VARIANT==12 || VARIANT==13
#if VARIANT==12
typedef double K;
#else
typedef std::complex<double> K;
#endif
template<int n> using FV=FieldVector<K,n>; template<int n,int m> using FM=FieldMatrix<K,n,m>;
typedef MultiTypeBlockVector<FV<1>,FV<2>> X; typedef MultiTypeBlockVector<FV<2>,FV<1>> Y;
typedef MultiTypeBlockMatrix<MultiTypeBlockVector<FM<2,1>,FM<2,2>>,MultiTypeBlockVector<FM<1,1>,FM<1,2>>> M;
using namespace Dune::Indices;
#define OFFM(i,j,name) extern "C" unsigned long name(const M& A) { return (const char*)&A[i][j]-(const char*)&A; }
OFFM(_0,_0,c_m00) OFFM(_0,_1,c_m01) OFFM(_1,_0,c_m10) OFFM(_1,_1,c_m11)
extern "C" unsigned long c_x0(const X& A) { return (const char*)&A[_0]-(const char*)&A; }
extern "C" unsigned long c_x1(const X& A) { return (const char*)&A[_1]-(const char*)&A; }
extern "C" unsigned long c_y0(const Y& A) { return (const char*)&A[_0]-(const char*)&A; }
extern "C" unsigned long c_y1(const Y& A) { return (const char*)&A[_1]-(const char*)&A; }
#endif
LAYSIZE(M_size, M) LAYSIZE(X_size, X) LAYSIZE(Y_size, Y)
extern "C" {
#define OP2(f) void c_##f(const M& A, const X& x, Y& y) { A.f(x,y); }
#define OP2T(f) void c_##f(const M& A, const Y& x, X& y) { A.f(x,y); }
#define OP3(f) void c_##f(const M& A, const K& a, const X& x, Y& y) { A.f(a,x,y); }
#define OP3T(f) void c_##f(const M& A, const K& a, const Y& x, X& y) { A.f(a,x,y); }
OP2(mv) OP2(umv) OP2(mmv) OP3(usmv)
OP2T(mtv) OP2T(umtv) OP2T(mmtv) OP3T(usmtv)
OP2T(umhv) OP2T(mmhv) OP3T(usmhv)
void c_imul(M& A, const K& a) { A *= a; }
void c_idiv(M& A, const K& a) { A /= a; }
void c_iadd(M& A, const M& B) { A += B; }
void c_isub(M& A, const M& B) { A -= B; }
void c_assign(M& A, const K& a) { A = a; }
#if VARIANT!=11
void c_fro2(const M& A, double& r) { r = A.frobenius_norm2(); }
#endif
void c_infr(const M& A, double& r) { r = A.infinity_norm_real(); }
void c_inf(const M& A, double& r) { r = A.infinity_norm(); }
#if VARIANT<2
void c_transpose(const M& A, void* R) { ::new(R) M(A.transpose()); }
void c_mm(const M& A, const M& C, void* R) { ::new(R) M(A*C); }
void c_mvop(const M& A, const X& x, void* R) { ::new(R) Y(operator*<X,Y>(A,x)); }
#endif
#if VARIANT==10 || VARIANT==11
void c_solve(const M& A, X& x, const X& b) { A.solve(x,b); }
#if VARIANT==10
void c_invert(M& A) { A.invert(); }
#endif
void c_kadd(M& A, const K& k) { A += k; }
void c_ksub(M& A, const K& k) { A -= k; }
void c_exists(const M& A, unsigned long i, unsigned long j, unsigned long& r) { r = A.exists(i,j); }
#endif
}
