#include <config.h>
#include <complex>
#include <dune/common/fmatrix.hh>
#include <dune/common/fvector.hh>
#include <dune/istl/bcrsmatrix.hh>
#include <dune/istl/bvector.hh>
#include <dune/istl/paamg/pinfo.hh>
#include <dune/istl/paamg/aggregates.hh>
#include <dune/istl/paamg/transfer.hh>
#include <dune/istl/paamg/galerkin.hh>
#include "layout.hh"
using namespace Dune;
#if VARIANT==0
typedef double B; typedef BlockVector<double> X;
#elif VARIANT==1
typedef std::complex<double> B; typedef BlockVector<B> X;
#elif VARIANT==2
typedef FieldMatrix<double,2,2> B; typedef BlockVector<FieldVector<double,2>> X;
#endif
typedef BCRSMatrix<B> M; typedef std::size_t V; typedef Amg::AggregatesMap<V> AM; typedef Amg::SequentialInformation SI;
LAY_VECS(X) LAY_BCRS(M) LAY(agg_n, AM, noVertices_) LAY(agg_p, AM, aggregates_) LAYSIZE(agg_size, AM)
struct NoSet { bool contains(int) const { return false; } };
extern "C" {
std::size_t c_isolated() { return AM::ISOLATED; }
std::size_t c_unaggregated() { return AM::UNAGGREGATED; }
void c_prolongate(const AM& a, X& coarse, X& fine, const double& damp) { SI c; Amg::Transfer<V,X,SI>::prolongateVector(a,coarse,fine,damp,c); }
void c_prolongate_redist(const AM& a, X& coarse, X& fine, X& fineRedist, const double& damp) { SI c; Amg::Transfer<V,X,SI>::prolongateVector(a,coarse,fine,fineRedist,damp,c); }
void c_restrict(const AM& a, X& coarse, const X& fine) { SI c; Amg::Transfer<V,X,SI>::restrictVector(a,coarse,fine,c); }
void c_galerkin(const M& fine, const AM& a, M& coarse) { SI c; NoSet s; Amg::BaseGalerkinProduct g; g.calculate(fine,a,coarse,c,s); }
}
