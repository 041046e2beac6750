#include <config.h>
#include <complex>
#include <dune/common/fmatrix.hh>
#include <dune/common/fvector.hh>
#include <dune/istl/bcrsmatrix.hh>
#include <dune/istl/bvector.hh>
#include <dune/istl/gsetc.hh>
#include <dune/istl/preconditioners.hh>
#include "layout.hh"
using namespace Dune;
#if VARIANT==0
typedef double K; typedef BCRSMatrix<double> M; typedef BlockVector<double> X;
#elif VARIANT==1
typedef std::complex<double> K; typedef BCRSMatrix<K> M; typedef BlockVector<K> X;
#elif VARIANT==2
typedef double K; typedef BCRSMatrix<FieldMatrix<double,1,1>> M; typedef BlockVector<FieldVector<double,1>> X;
#elif VARIANT==3
typedef double K; typedef BCRSMatrix<FieldMatrix<double,2,2>> M; typedef BlockVector<FieldVector<double,2>> X;
#endif
LAY_VECS(X) LAY_BCRS(M)
extern "C" {
#if VARIANT>=2
void c_bltsolve(const M& A, X& v, const X& d) { bltsolve(A,v,d); }
void c_bltsolve_w(const M& A, X& v, const X& d, const K& w) { bltsolve(A,v,d,w); }
void c_ubltsolve(const M& A, X& v, const X& d) { ubltsolve(A,v,d); }
void c_ubltsolve_w(const M& A, X& v, const X& d, const K& w) { ubltsolve(A,v,d,w); }
void c_butsolve(const M& A, X& v, const X& d) { butsolve(A,v,d); }
void c_butsolve_w(const M& A, X& v, const X& d, const K& w) { butsolve(A,v,d,w); }
void c_ubutsolve(const M& A, X& v, const X& d) { ubutsolve(A,v,d); }
void c_ubutsolve_w(const M& A, X& v, const X& d, const K& w) { ubutsolve(A,v,d,w); }
void c_bdsolve(const M& A, X& v, const X& d) { bdsolve(A,v,d); }
void c_bdsolve_w(const M& A, X& v, const X& d, const K& w) { bdsolve(A,v,d,w); }
void c_bltsolve_l(const M& A, X& v, const X& d) { bltsolve(A,v,d,BL<1>()); }
void c_bltsolve_wl(const M& A, X& v, const X& d, const K& w) { bltsolve(A,v,d,w,BL<1>()); }
void c_ubltsolve_l(const M& A, X& v, const X& d) { ubltsolve(A,v,d,BL<1>()); }
void c_ubltsolve_wl(const M& A, X& v, const X& d, const K& w) { ubltsolve(A,v,d,w,BL<1>()); }
void c_butsolve_l(const M& A, X& v, const X& d) { butsolve(A,v,d,BL<1>()); }
void c_butsolve_wl(const M& A, X& v, const X& d, const K& w) { butsolve(A,v,d,w,BL<1>()); }
void c_ubutsolve_l(const M& A, X& v, const X& d) { ubutsolve(A,v,d,BL<1>()); }
void c_ubutsolve_wl(const M& A, X& v, const X& d, const K& w) { ubutsolve(A,v,d,w,BL<1>()); }
void c_bdsolve_l(const M& A, X& v, const X& d) { bdsolve(A,v,d,BL<1>()); }
void c_bdsolve_wl(const M& A, X& v, const X& d, const K& w) { bdsolve(A,v,d,w,BL<1>()); }
#endif
void c_dbgs(const M& A, X& v, const X& d, const K& w) { dbgs(A,v,d,w); }
void c_bsorf(const M& A, X& v, const X& d, const K& w) { bsorf(A,v,d,w); }
void c_bsorb(const M& A, X& v, const X& d, const K& w) { bsorb(A,v,d,w); }
void c_dbjac(const M& A, X& v, const X& d, const K& w) { dbjac(A,v,d,w); }
void c_dbgs_l(const M& A, X& v, const X& d, const K& w) { dbgs(A,v,d,w,BL<1>()); }
void c_bsorf_l(const M& A, X& v, const X& d, const K& w) { bsorf(A,v,d,w,BL<1>()); }
void c_bsorb_l(const M& A, X& v, const X& d, const K& w) { bsorb(A,v,d,w,BL<1>()); }
void c_dbjac_l(const M& A, X& v, const X& d, const K& w) { dbjac(A,v,d,w,BL<1>()); }
}
