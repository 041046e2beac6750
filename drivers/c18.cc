// The parallel communication class of dune-istl over contracts of the dune-common exchange classes it calls: an index
// set is a finite sequence of pairs visited once each in order, an interface is described by the attribute classes it
// was built for, a forward exchange gathers at the send positions and then scatters the received values.
#include <config.h>
#include <mpi.h>
#undef HAVE_MPI
#define HAVE_MPI 1
#include <complex>
#include <dune/common/fmatrix.hh>
#include <dune/common/fvector.hh>
#include <dune/common/enumset.hh>
extern "C" { int vc_finalized(); void vc_commfree(long); double vc_sum(double); void vc_ifbuild(int,int); void vc_iffree(); void vc_use(int,int,int); std::size_t vc_nsend(); std::size_t vc_nrecv();
  std::size_t vc_sendidx(std::size_t); std::size_t vc_recvidx(std::size_t); void vc_put(int,std::size_t,double); double vc_get(int,std::size_t); void vc_barrier(); void vc_rifree(); }
#define DUNE_COMMON_PARALLEL_INDEXSET_HH
#define DUNE_INDEXSET_HH
#define DUNE_COMMON_PARALLEL_COMMUNICATOR_HH
#define DUNE_COMMON_PARALLEL_REMOTEINDICES_HH
#define DUNE_COMMON_PARALLEL_MPICOMMUNICATION_HH
#define DUNE_COMMON_PARALLEL_COMMUNICATION_HH
#define DUNE_COMMON_PARALLEL_INTERFACE_HH
#define DUNE_COMMON_PARALLEL_MPITRAITS_HH
#define DUNE_MPITRAITS_HH
#define DUNE_COMMON_PARALLEL_PLOCALINDEX_HH
#define DUNE_COMMON_PARALLEL_LOCALINDEX_HH
namespace Dune {
struct SizeOne {}; struct VariableSize {};
template<class V> struct CommPolicy { typedef V Type; typedef typename V::value_type IndexedType; typedef SizeOne IndexedTypeFlag; };
template<class C> struct Communication; template<> struct Communication<void*> {};
template<> struct Communication<MPI_Comm> { MPI_Comm c; Communication(MPI_Comm x) : c(x) {} double sum(const double& x) const { return vc_sum(x); }
  std::complex<double> sum(const std::complex<double>& x) const { double r = vc_sum(x.real()); double i = vc_sum(x.imag()); return {r,i}; } int rank() const { return 0; } };
template<class A> struct ParallelLocalIndex { std::size_t l; long a; bool pub; ParallelLocalIndex() {} ParallelLocalIndex(std::size_t i, A x, bool p) : l(i), a(x), pub(p) {} const std::size_t& local() const { return l; } A attribute() const { return A(a); } bool isPublic() const { return pub; } };
template<class TG, class TL, int N=100> class ParallelIndexSet { public: struct IndexPair { TG g; TL l; const TG& global() const { return g; } const TL& local() const { return l; } };
  typedef const IndexPair* const_iterator; typedef IndexPair* iterator; IndexPair* p; IndexPair* q; int s; ParallelIndexSet() : p(nullptr), q(nullptr), s(0) {}
  const_iterator begin() const { return p; } const_iterator end() const { return q; } int seqNo() const { return s; } void beginResize(); void endResize(); void add(const TG&, const TL&); };
template<class I> struct GlobalLookupIndexSet { const I* i; std::size_t n; GlobalLookupIndexSet(const I& s) : i(&s), n(0) {} GlobalLookupIndexSet(const I& s, std::size_t k) : i(&s), n(k) {} };
template<class I> struct RemoteIndex { RemoteIndex(int, const typename I::IndexPair*); };
template<class P, class A, bool> struct RemoteIndexListModifier { void insert(const RemoteIndex<P>&); };
template<class P> struct RemoteIndices { typedef int Allocator; typedef Dune::RemoteIndex<P> RemoteIndex; MPI_Comm c; RemoteIndices() {} RemoteIndices(const P&, const P&, const MPI_Comm& x) : c(x) {} void free() { vc_rifree(); }
  template<class... A> void setIndexSets(const A&...); template<bool a, bool b> RemoteIndexListModifier<P,int,false> getModifier(int); };
template<class S> struct TypeOf { typedef typename S::Type T; }; template<class A, class B, class TA> struct TypeOf<Combine<A,B,TA>> { typedef TA T; };
struct Interface { int s, d; Interface() : s(0), d(0) {}
  template<class S> static int bits(const S&) { typedef typename TypeOf<S>::T T; T a = T(1), b = T(2), c = T(3); return (S::contains(a) ? 1 : 0) + (S::contains(b) ? 2 : 0) + (S::contains(c) ? 4 : 0); }
  template<class R, class S, class D> void build(const R&, const S& x, const D& y) { s = bits(x); d = bits(y); vc_ifbuild(s,d); } void free() { s = d = 0; vc_iffree(); } };
struct BufferedCommunicator { const Interface* i = nullptr;
  template<class T> void build(const Interface& f) { i = &f; } template<class T> void build(const T&, const T&, const Interface& f) { i = &f; } void free() { i = nullptr; }
  template<class GS, class T> void forward(const T& a, T& b) { typedef typename CommPolicy<T>::IndexedType V; vc_use(i->s,i->d,1); 
    std::size_t n = vc_nsend(), m = vc_nrecv();
    for (std::size_t k=0; k<n; ++k) { V v = GS::gather(a,vc_sendidx(k)); const double* c = reinterpret_cast<const double*>(&v); for (unsigned z=0; z<sizeof(V)/sizeof(double); ++z) vc_put(z,k,c[z]); }
    vc_barrier();
    for (std::size_t k=0; k<m; ++k) { V v; double* c = reinterpret_cast<double*>(&v); for (unsigned z=0; z<sizeof(V)/sizeof(double); ++z) c[z] = vc_get(z,k); GS::scatter(b,v,vc_recvidx(k)); } }
  template<class GS, class T> void backward(T& a, const T& b) { typedef typename CommPolicy<T>::IndexedType V; vc_use(i->s,i->d,0);
    std::size_t n = vc_nsend(), m = vc_nrecv();
    for (std::size_t k=0; k<m; ++k) { V v = GS::gather(b,vc_recvidx(k)); const double* c = reinterpret_cast<const double*>(&v); for (unsigned z=0; z<sizeof(V)/sizeof(double); ++z) vc_put(z,k,c[z]); }
    vc_barrier();
    for (std::size_t k=0; k<n; ++k) { V v; double* c = reinterpret_cast<double*>(&v); for (unsigned z=0; z<sizeof(V)/sizeof(double); ++z) c[z] = vc_get(z,k); GS::scatter(a,v,vc_sendidx(k)); } }
  template<class GS, class T> void forward(T& b) { forward<GS>(b,b); } template<class GS, class T> void backward(T& b) { backward<GS>(b,b); } };
}
#define DUNE_ISTL_MATRIXMARKET_HH
#define DUNE_ISTL_REPARTITION_HH
namespace Dune { struct RedistributeInterface : Interface { void strip() {} };
template<class T> struct CopyGatherScatter { typedef typename CommPolicy<T>::IndexedType V; static const V& gather(const T& a, std::size_t i) { return a[i]; } static void scatter(T& a, const V& v, std::size_t i) { a[i] = v; } }; }
#include <dune/istl/bvector.hh>
#include <dune/istl/bcrsmatrix.hh>
#include <dune/istl/owneroverlapcopy.hh>
#include <dune/istl/matrixredistribute.hh>
#include <dune/istl/paamg/pinfo.hh>
#include <dune/istl/paamg/aggregates.hh>
#include <dune/istl/paamg/transfer.hh>
#include "layout.hh"
using namespace Dune;
#if VARIANT==0
typedef BlockVector<double> X; typedef double F;
#elif VARIANT==1
typedef std::complex<double> F; typedef BlockVector<F> X;
#elif VARIANT==2
typedef BlockVector<FieldVector<double,2>> X; typedef double F;
#endif
typedef OwnerOverlapCopyCommunication<long,long> C; typedef RedistributeInformation<C> RI; typedef Amg::AggregatesMap<std::size_t> AM; typedef Amg::Transfer<std::size_t,X,C> TR;
LAY(agg_n, AM, noVertices_) LAY(agg_p, AM, aggregates_) LAYSIZE(agg_size, AM) LAY(ri_s, RI, interface) LAY(ri_setup, RI, setup_)
LAY_VECS(X) LAYSIZE(c_size, C) LAY(c_pb, C, pis.p) LAY(c_pe, C, pis.q) LAY(c_seq, C, pis.s) LAY(c_mask, C, mask) LAY(c_cat, C, category_) LAY(c_old, C, oldseqNo) LAY(c_gl, C, globalLookup_) LAY(c_free, C, freecomm) LAY(c_comm, C, comm)
LAY(c_oa, C, OwnerToAllInterface) LAY(c_oab, C, OwnerToAllInterfaceBuilt) LAY(c_ooa, C, OwnerOverlapToAllInterface) LAY(c_ooab, C, OwnerOverlapToAllInterfaceBuilt) LAY(c_oca, C, OwnerCopyToAllInterface) LAY(c_ocab, C, OwnerCopyToAllInterfaceBuilt)
LAY(c_ococ, C, OwnerCopyToOwnerCopyInterface) LAY(c_ococb, C, OwnerCopyToOwnerCopyInterfaceBuilt) LAY(c_ca, C, CopyToAllInterface) LAY(c_cab, C, CopyToAllInterfaceBuilt)
LAYSIZE(ip_size, C::PIS::IndexPair) LAY(ip_g, C::PIS::IndexPair, g) LAY(ip_l, C::PIS::IndexPair, l.l) LAY(ip_a, C::PIS::IndexPair, l.a)
extern "C" {
void c_dot(const C& c, const X& x, const X& y, F& r) { c.dot(x,y,r); }
double c_norm(const C& c, const X& x) { return c.norm(x); }
void c_project(const C& c, X& x) { c.project(x); }
void c_oa(const C& c, const X& x, X& y) { c.copyOwnerToAll(x,y); }
void c_ca(const C& c, const X& x, X& y) { c.copyCopyToAll(x,y); }
void c_ooa(const C& c, const X& x, X& y) { c.addOwnerOverlapToAll(x,y); }
void c_oca(const C& c, const X& x, X& y) { c.addOwnerCopyToAll(x,y); }
void c_ococ(const C& c, const X& x, X& y) { c.addOwnerCopyToOwnerCopy(x,y); }
void c_boa(const C& c) { c.buildOwnerToAllInterface(); }
void c_bca(const C& c) { c.buildCopyToAllInterface(); }
void c_booa(const C& c) { c.buildOwnerOverlapToAllInterface(); }
void c_boca(const C& c) { c.buildOwnerCopyToAllInterface(); }
void c_bococ(const C& c) { c.buildOwnerCopyToOwnerCopyInterface(); }
int c_category(const C& c) { return int(c.category()); }
void c_gather(const X& x, std::size_t i, C::CopyGatherScatter<X>::V& r) { r = C::CopyGatherScatter<X>::gather(x,i); }
void c_redist(const RI& r, const X& x, X& y) { r.redistribute(x,y); }
void c_redistb(const RI& r, X& x, const X& y) { r.redistributeBackward(x,y); }
void c_prestrict(const AM& a, X& coarse, const X& fine, C& c) { TR::restrictVector(a,coarse,fine,c); }
void c_pprolongate(const AM& a, X& coarse, X& fine, const double& damp, C& c) { TR::prolongateVector(a,coarse,fine,damp,c); }
#if VARIANT==0
void c_lookup(C& c) { c.buildGlobalLookup(); }
void c_destroy(C& c) { c.~C(); }
long c_life(long comm, int cat, bool fr) { C c(comm, SolverCategory::Category(cat), fr); return int(c.category()); }
#endif
}
