#include <config.h>
#include <complex>
#include <dune/common/fmatrix.hh>
#include <dune/istl/bcrsmatrix.hh>
#include <dune/istl/matrix.hh>
#include <dune/istl/matrixmatrix.hh>
#include "layout.hh"
using namespace Dune; typedef std::size_t S;
#if VARIANT==0
typedef double F; enum {n=1,m=1,k=1};
#elif VARIANT==1
typedef double F; enum {n=2,m=1,k=2};
#elif VARIANT==2
typedef std::complex<double> F; enum {n=1,m=1,k=1};
#endif
template<int a,int b> using FM = FieldMatrix<F,a,b>; template<int a,int b> using Mt = BCRSMatrix<FM<a,b>>;
typedef Mt<n,m> R; typedef std::allocator<FM<n,m>> Al;
LAY_BCRS(R)
extern "C" { void vc_visit(const void*, const void*, S, S); void vc_nextcol(); void vc_nextrow(); }
struct V01 { template<class A,class B> void operator()(const A& a, const B& b, S i, S j) { vc_visit(&a,&b,i,j); } };
template<bool br> struct V2 { enum {do_break=br}; template<class A,class B> void operator()(const A& a, const B& b, S j) { vc_visit(&a,&b,0,j); } void nextCol() { vc_nextcol(); } void nextRow() { vc_nextrow(); } };
extern "C" {
void c_block0(FM<n,m>& r, const FM<n,k>& a, const FM<k,m>& b) { addMatMultMat(r,a,b); }
void c_block1(FM<n,m>& r, const FM<k,n>& a, const FM<k,m>& b) { addTransposeMatMultMat(r,a,b); }
void c_block2(FM<n,m>& r, const FM<n,k>& a, const FM<m,k>& b) { addMatMultTransposeMat(r,a,b); }
void c_trav0(const Mt<n,k>& A, const Mt<k,m>& B) { V01 v; NonzeroPatternTraverser<0>::traverse(A,B,v); }
void c_trav1(const Mt<k,n>& A, const Mt<k,m>& B) { V01 v; NonzeroPatternTraverser<1>::traverse(A,B,v); }
void c_trav2(const Mt<n,k>& A, const Mt<m,k>& B) { V2<false> v; NonzeroPatternTraverser<2>::traverse(A,B,v); }
void c_trav2b(const Mt<n,k>& A, const Mt<m,k>& B) { V2<true> v; NonzeroPatternTraverser<2>::traverse(A,B,v); }
void c_acc0(R& r, const Mt<n,k>& A, const Mt<k,m>& B) { EntryAccumulator<F,Al,n,m,0> v(r); NonzeroPatternTraverser<0>::traverse(A,B,v); }
void c_acc1(R& r, const Mt<k,n>& A, const Mt<k,m>& B) { EntryAccumulator<F,Al,n,m,1> v(r); NonzeroPatternTraverser<1>::traverse(A,B,v); }
void c_acc2(R& r, const Mt<n,k>& A, const Mt<m,k>& B) { EntryAccumulator<F,Al,n,m,2> v(r); NonzeroPatternTraverser<2>::traverse(A,B,v); }
}
#if VARIANT<2
#if VARIANT==0
typedef Matrix<double> D;
#else
typedef Matrix<FM<2,2>> D;
#endif
extern "C" { D c_tr(const D& A) { return A.transpose(); } }
LAY(mat_n, D, data_.n) LAY(mat_p, D, data_.p) LAY(mat_rows, D, data_.rows_) LAY(mat_columns, D, data_.columns_) LAY(mat_cols, D, cols_) LAYSIZE(mat_size, D)
#endif
