#include <config.h>
#include <complex>
#include <dune/common/fmatrix.hh>
#include <dune/common/fvector.hh>
#include <dune/istl/bcrsmatrix.hh>
#include <dune/istl/bvector.hh>
#include <dune/istl/matrix.hh>
#include <dune/istl/multitypeblockvector.hh>
#include <dune/istl/foreach.hh>
#include <dune/istl/bccsmatrixinitializer.hh>
#include "layout.hh"
using namespace Dune;
typedef std::complex<double> C; typedef std::size_t S;
extern "C" void vc_visit(const void* p, S r, S c);
struct Vis { template<class T> void operator()(T&& e, S r, S c) const { vc_visit(&e,r,c); } template<class T> void operator()(T&& e, S r) const { vc_visit(&e,r,0); } };
#if VARIANT==0
typedef BlockVector<double> X;
#elif VARIANT==1
typedef BlockVector<FieldVector<double,3>> X;
#elif VARIANT==2
typedef BlockVector<C> X;
#elif VARIANT==3
typedef BlockVector<BlockVector<double>> X;
#elif VARIANT==10
typedef BCRSMatrix<double> M;
#elif VARIANT==11
typedef BCRSMatrix<FieldMatrix<double,2,3>> M;
#elif VARIANT==12
typedef BCRSMatrix<C> M;
#elif VARIANT==30
typedef BCRSMatrix<double> M; typedef double F;
#elif VARIANT==31
typedef BCRSMatrix<FieldMatrix<double,2,3>> M; typedef double F;
#elif VARIANT==32
typedef BCRSMatrix<C> M; typedef C F;
#elif VARIANT==20
typedef Matrix<double> M;
#elif VARIANT==21
typedef Matrix<FieldMatrix<double,2,3>> M;
#endif
#if VARIANT<10
LAY_VECS(X)
extern "C" {
S c_vec(X& x, S o) { return flatVectorForEach(x, Vis(), o); }
S c_cvec(const X& x) { Vis v; return flatVectorForEach(x, v); }
}
#else
#if VARIANT<20 || VARIANT>=30
LAY_BCRS(M)
#else
LAY(mat_n, M, data_.n) LAY(mat_p, M, data_.p) LAY(mat_rows, M, data_.rows_) LAY(mat_columns, M, data_.columns_) LAY(mat_cols, M, cols_) LAYSIZE(mat_size, M)
#endif
#if VARIANT>=30
typedef ISTL::Impl::BCCSMatrix<F,S> Out; typedef ISTL::Impl::BCCSMatrixInitializer<M,S> Init;
LAY(out_N, Out, N_) LAY(out_M, Out, M_) LAY(out_nnz, Out, Nnz_) LAY(out_v, Out, values) LAY(out_r, Out, rowindex) LAY(out_c, Out, colstart)
extern "C" void c_ccs(const M& A, Out& out) { Init i(out); copyToBCCSMatrix(i, A); }
#else
extern "C" {
void c_mat(M& m, S r, S c, S& rr, S& rc) { auto p = flatMatrixForEach(m, Vis(), r, c); rr=p.first; rc=p.second; }
void c_cmat(const M& m, S& rr, S& rc) { Vis v; auto p = flatMatrixForEach(m, v); rr=p.first; rc=p.second; }
}
#endif
#endif
