#include "gen.hh"
#include <dune/istl/gsetc.hh>
#include <dune/istl/multitypeblockmatrix.hh>
#include <dune/istl/multitypeblockvector.hh>
#include <dune/istl/preconditioners.hh>
using namespace Dune; using namespace nat; using namespace Dune::Indices;
template<class K> K dia(Rng& r, double s) { double g = r.chance(50)?1:-1; if constexpr (std::is_same_v<K,double>) return g*s; else return K(g*s, r.small()); }
// own block algebra, independent of the library
template<class K, int n> FieldVector<K,n> gauss(FieldMatrix<K,n,n> A, FieldVector<K,n> b) {
  for (int i=0;i<n;++i) { int p=i; for (int k=i+1;k<n;++k) if (std::abs(A[k][i])>std::abs(A[p][i])) p=k; for (int j=0;j<n;++j) std::swap(A[i][j],A[p][j]); std::swap(b[i],b[p]);
    for (int k=i+1;k<n;++k) { K f=A[k][i]/A[i][i]; for (int j=i;j<n;++j) A[k][j]-=f*A[i][j]; b[k]-=f*b[i]; } }
  for (int i=n-1;i>=0;--i) { for (int j=i+1;j<n;++j) b[i]-=A[i][j]*b[j]; b[i]/=A[i][i]; } return b; }
template<class K> K gauss(K a, K b) { return b/a; }
template<class K> void msub(const K& a, const K& x, K& r) { r -= a*x; }
template<class K,int n,int m> void msub(const FieldMatrix<K,n,m>& a, const FieldVector<K,m>& x, FieldVector<K,n>& r) { for (int i=0;i<n;++i) for (int j=0;j<m;++j) r[i]-=a[i][j]*x[j]; }
template<class B,class X,class Y> void msub(const BCRSMatrix<B>& A, const X& x, Y& r) { for (auto i=A.begin();i!=A.end();++i) for (auto j=i->begin();j!=i->end();++j) msub(*j,x[j.index()],r[i.index()]); }
template<class K> void zero(K& x) { x=K(0); }
template<class K,int n> void zero(FieldVector<K,n>& x) { for (auto& t:x) t=K(0); }
template<class B> void zero(BlockVector<B>& x) { for (std::size_t i=0;i<x.size();++i) zero(x[i]); }
template<class K,class W> void comb(K& x, W w, const K& y, W u) { x = K(w)*x + K(u)*y; }
template<class K,int n,class W> void comb(FieldVector<K,n>& x, W w, const FieldVector<K,n>& y, W u) { for (int i=0;i<n;++i) x[i]=w*x[i]+u*y[i]; }
template<class B,class W> void comb(BlockVector<B>& x, W w, const BlockVector<B>& y, W u) { for (std::size_t i=0;i<x.size();++i) comb(x[i],w,y[i],u); }
// independent reference: the defining equation of one sweep, the diagonal blocks treated with the same sweep on the next level down
enum { GS, SORF, SORB, JAC };
template<int L> struct Ref { template<class M,class X,class W> static void sweep(int op, const M& A, X& x, const X& b, W w) {
  X xo(x); std::size_t n=A.N();
  for (std::size_t t=0;t<n;++t) { std::size_t i = op==SORB ? n-1-t : t; auto rhs=b[i];
    for (auto j=A[i].begin();j!=A[i].end();++j) if (op!=GS || j.index()!=i) msub(*j, op==JAC ? xo[j.index()] : x[j.index()], rhs);
    if (op==GS) Ref<L-1>::sweep(op,A[i][i],x[i],rhs,w);
    else { auto v=x[i]; zero(v); Ref<L-1>::sweep(op,A[i][i],v,rhs,w); comb(x[i],W(1),v,w); } }
  if (op==GS) comb(x,w,xo,W(1)-w); } };
template<> struct Ref<0> { template<class M,class X,class W> static void sweep(int, const M& A, X& x, const X& b, W) { x = gauss(A,b); } };
template<class V> void flat(const V& v, std::vector<std::complex<double>>& o) { if constexpr (std::is_same_v<V,double> || std::is_same_v<V,std::complex<double>>) o.push_back(v); else for (const auto& e : v) flat(e,o); }
template<class V> bool close(const V& a, const V& b) { std::vector<std::complex<double>> x,y; flat(a,x); flat(b,y); if (x.size()!=y.size()) return false; double s=1; for (auto& t:y) s=std::max(s,std::abs(t)); for (std::size_t i=0;i<x.size();++i) if (!(std::abs(x[i]-y[i])<=1e-9*s)) return false; return true; }
template<class V> bool same(const V& a, const V& b) { std::vector<std::complex<double>> x,y; flat(a,x); flat(b,y); return x==y; }
template<class V> std::string str(const V& a) { std::vector<std::complex<double>> x; flat(a,x); std::ostringstream s; for (std::size_t i=0;i<x.size()&&i<12;++i) { s << (i?" ":"") << x[i].real(); if (x[i].imag()!=0) s << "+" << x[i].imag() << "i"; } return s.str(); }
template<class K> void setdiag(Rng& r, K& d, double s) { d = dia<K>(r,s); }
template<class K,int n> void setdiag(Rng& r, FieldMatrix<K,n,n>& d, double s) { fillv(r,d); for (int i=0;i<n;++i) d[i][i]=dia<K>(r,s+4*n); }
template<class B> void fillDiag(Rng& r, BCRSMatrix<B>& A) { fillm(r,A); for (std::size_t i=0;i<A.N();++i) setdiag(r,A[i][i], 4.0*(1+A[i].size())); }
template<class B> struct VecOf { using type=B; }; template<class K,int n> struct VecOf<FieldMatrix<K,n,n>> { using type=FieldVector<K,n>; };
template<class K> double weight(Rng& r) { return r.chance(30)?1.0:r.in(1,31)/16.0; }
// triangular and diagonal solves
template<class K,int n> void tri(Case& c) { Rng& r=c.rng; using B=FieldMatrix<K,n,n>; using V=FieldVector<K,n>; std::size_t N=c.no<40?r.in(1,3):randomSize(r,c.no); if (N==0 && c.no<40) N=1;
  BCRSMatrix<B> A; auto p=randomPattern(r,N,N,true); buildAny(r,A,p,N); fillDiag(r,A); BlockVector<V> v(N),d(N); fillv(r,v); fillv(r,d); auto d0=d; auto A0=A; K w(weight<K>(r)); int op=r.in(0,4); bool rel=r.chance(50),bl=r.chance(50);
  const char* nm[]={"bltsolve","ubltsolve","butsolve","ubutsolve","bdsolve"}; c.desc << nm[op] << " n=" << N << " blocks " << n << " w=" << w << " relaxed=" << rel << " pattern " << show(p); if (!rel) w=K(1);
  BlockVector<V> x(N); const auto& CA=A; const auto& cd=d;
  bool up=op==2||op==3, unit=op==1||op==3;
  for (std::size_t t=0;t<N;++t) { std::size_t i=up?N-1-t:t; V rhs=d[i]; if (op!=4) for (auto j=CA[i].begin();j!=CA[i].end();++j) if (up ? j.index()>i : j.index()<i) msub(*j,x[j.index()],rhs); x[i]=unit?rhs:gauss(CA[i][i],rhs); x[i]*=w; }
  switch(op) { 
   case 0: rel ? (bl?bltsolve(CA,v,cd,w,BL<1>()):bltsolve(CA,v,cd,w)) : (bl?bltsolve(CA,v,cd,BL<1>()):bltsolve(CA,v,cd)); break;
   case 1: rel ? (bl?ubltsolve(CA,v,cd,w,BL<1>()):ubltsolve(CA,v,cd,w)) : (bl?ubltsolve(CA,v,cd,BL<1>()):ubltsolve(CA,v,cd)); break;
   case 2: rel ? (bl?butsolve(CA,v,cd,w,BL<1>()):butsolve(CA,v,cd,w)) : (bl?butsolve(CA,v,cd,BL<1>()):butsolve(CA,v,cd)); break;
   case 3: rel ? (bl?ubutsolve(CA,v,cd,w,BL<1>()):ubutsolve(CA,v,cd,w)) : (bl?ubutsolve(CA,v,cd,BL<1>()):ubutsolve(CA,v,cd)); break;
   default: rel ? (bl?bdsolve(CA,v,cd,w,BL<1>()):bdsolve(CA,v,cd,w)) : (bl?bdsolve(CA,v,cd,BL<1>()):bdsolve(CA,v,cd)); }
  CHECK(close(v,x),nm[op]," got ",str(v)," want ",str(x)); CHECK(same(d,d0),"right hand side changed"); for (std::size_t i=0;i<N;++i) for (auto j=A[i].begin();j!=A[i].end();++j) CHECK(*j==A0[i][j.index()],"matrix changed"); }
template<int L,class M,class X,class K> void lib(int op, const M& A, X& x, const X& b, const K& w, bool bl) {
  if (bl || L!=1) switch(op) { case GS: dbgs(A,x,b,w,BL<L>()); break; case SORF: bsorf(A,x,b,w,BL<L>()); break; case SORB: bsorb(A,x,b,w,BL<L>()); break; default: dbjac(A,x,b,w,BL<L>()); }
  else if constexpr (L==1) switch(op) { case GS: dbgs(A,x,b,w); break; case SORF: bsorf(A,x,b,w); break; case SORB: bsorb(A,x,b,w); break; default: dbjac(A,x,b,w); } }
static const char* on[]={"dbgs","bsorf","bsorb","dbjac"};
template<class B> void sweeps(Case& c) { Rng& r=c.rng; using V=typename VecOf<B>::type; using K=typename FieldTraits<B>::field_type; std::size_t N=c.no<40?r.in(1,3):randomSize(r,c.no);
  BCRSMatrix<B> A; auto p=randomPattern(r,N,N,true); buildAny(r,A,p,N); fillDiag(r,A); BlockVector<V> v(N),d(N); fillv(r,v); fillv(r,d); auto d0=d,x=v; K w(weight<K>(r)); int op=r.in(0,3); bool bl=r.chance(50);
  c.desc << on[op] << " n=" << N << " w=" << w << " pattern " << show(p); const auto& CA=A; const auto& cd=d; auto A0=A;
  Ref<1>::sweep(op,CA,x,cd,w); lib<1>(op,CA,v,cd,w,bl); CHECK(close(v,x),on[op]," got ",str(v)," want ",str(x)); CHECK(same(d,d0),"right hand side changed"); for (std::size_t i=0;i<N;++i) for (auto j=A[i].begin();j!=A[i].end();++j) CHECK(*j==A0[i][j.index()],"matrix changed"); }
// two block levels: BCRSMatrix of BCRSMatrix
template<class B> void nested(Case& c) { Rng& r=c.rng; using V=typename VecOf<B>::type; using K=typename FieldTraits<B>::field_type; using IM=BCRSMatrix<B>; using IV=BlockVector<V>; std::size_t N=r.in(1,4); bool uniform=r.chance(50);
  std::vector<std::size_t> s(N); std::size_t s0=r.in(1,4); for (auto& t:s) t=uniform?s0:r.in(1,4);
  BCRSMatrix<IM> A; auto p=randomPattern(r,N,N,true); buildAny(r,A,p,N); BlockVector<IV> v(N),d(N);
  for (std::size_t i=0;i<N;++i) { v[i].resize(s[i]); d[i].resize(s[i]); fillv(r,v[i]); fillv(r,d[i]); for (auto j=A[i].begin();j!=A[i].end();++j) { auto q=randomPattern(r,s[i],s[j.index()],j.index()==i); buildAny(r,*j,q,s[j.index()]); fillm(r,*j); if (j.index()==i) for (std::size_t k=0;k<s[i];++k) setdiag(r,(*j)[k][k],16.0*(N+1)); } }
  K w(weight<K>(r)); int op=r.in(0,3); c.desc << "two levels " << on[op] << " n=" << N << " inner " << s0 << " w=" << w << " pattern " << show(p); auto x=v,d0=d; const auto& CA=A; const auto& cd=d;
  Ref<2>::sweep(op,CA,x,cd,w); lib<2>(op,CA,v,cd,w,true); CHECK(close(v,x),on[op]," got ",str(v)," want ",str(x)); CHECK(same(d,d0),"right hand side changed"); }
// block levels of different types
template<class M,class X,class V1,class V2,class W,class F> void mtref(int op, const M& A, X& x, const X& b, W w, F inner) { X xo(x);
  auto row=[&](auto I) { constexpr int i=decltype(I)::value; auto rhs=b[I]; auto cs=[&](auto J) { constexpr int j=decltype(J)::value; if (op==GS && j==i) return; auto& A_=A[I][J]; auto& xx = op==JAC ? xo[J] : x[J]; msub(A_,xx,rhs); }; cs(_0); cs(_1);
    if (op==GS) inner(op,A[I][I],x[I],rhs,w); else { auto v=x[I]; zero(v); inner(op,A[I][I],v,rhs,w); comb(x[I],W(1),v,w); } };
  if (op==SORB) { row(_1); row(_0); } else { row(_0); row(_1); }
  if (op==GS) { comb(x[_0],w,xo[_0],W(1)-w); comb(x[_1],w,xo[_1],W(1)-w); } }
template<class X> bool mclose(const X& a, const X& b) { return close(a[_0],b[_0]) && close(a[_1],b[_1]); }
void mt1(Case& c) { Rng& r=c.rng; using V1=FieldVector<double,1>; using V2=FieldVector<double,2>; using X=MultiTypeBlockVector<V1,V2>; using M=MultiTypeBlockMatrix<MultiTypeBlockVector<FieldMatrix<double,1,1>,FieldMatrix<double,1,2>>,MultiTypeBlockVector<FieldMatrix<double,2,1>,FieldMatrix<double,2,2>>>;
  M A; fillv(r,A[_0][_1]); fillv(r,A[_1][_0]); setdiag(r,A[_0][_0],16); setdiag(r,A[_1][_1],16); X x,b; fillv(r,x[_0]); fillv(r,x[_1]); fillv(r,b[_0]); fillv(r,b[_1]); double w=weight<double>(r); int op=r.in(0,3); X y(x),b0(b); c.desc << "multi-type " << on[op] << " w=" << w;
  mtref<M,X,V1,V2>(op,A,y,b,w,[](int op,auto& D,auto& v,auto& rhs,double w){ Ref<0>::sweep(op,D,v,rhs,w); }); lib<1>(op,static_cast<const M&>(A),x,static_cast<const X&>(b),w,true); CHECK(mclose(x,y),on[op]," got ",str(x[_0])," ",str(x[_1])," want ",str(y[_0])," ",str(y[_1])); CHECK(same(b[_0],b0[_0])&&same(b[_1],b0[_1]),"right hand side changed"); }
void mt2(Case& c) { Rng& r=c.rng; using V1=BlockVector<FieldVector<double,1>>; using V2=BlockVector<FieldVector<double,2>>; using X=MultiTypeBlockVector<V1,V2>; using M=MultiTypeBlockMatrix<MultiTypeBlockVector<BCRSMatrix<FieldMatrix<double,1,1>>,BCRSMatrix<FieldMatrix<double,1,2>>>,MultiTypeBlockVector<BCRSMatrix<FieldMatrix<double,2,1>>,BCRSMatrix<FieldMatrix<double,2,2>>>>;
  std::size_t n0=r.in(1,4),n1=r.in(1,4); M A; auto bld=[&](auto& B,std::size_t n,std::size_t m,bool dg){ auto p=randomPattern(r,n,m,dg); buildAny(r,B,p,m); fillm(r,B); }; bld(A[_0][_0],n0,n0,true); bld(A[_0][_1],n0,n1,false); bld(A[_1][_0],n1,n0,false); bld(A[_1][_1],n1,n1,true);
  for (std::size_t i=0;i<n0;++i) setdiag(r,A[_0][_0][i][i],64); for (std::size_t i=0;i<n1;++i) setdiag(r,A[_1][_1][i][i],64);
  X x,b; x[_0].resize(n0); b[_0].resize(n0); x[_1].resize(n1); b[_1].resize(n1); fillv(r,x[_0]); fillv(r,x[_1]); fillv(r,b[_0]); fillv(r,b[_1]); double w=weight<double>(r); int op=r.in(0,3); X y(x),b0(b); c.desc << "multi-type two levels " << on[op] << " " << n0 << "," << n1 << " w=" << w;
  mtref<M,X,V1,V2>(op,A,y,b,w,[](int op,auto& D,auto& v,auto& rhs,double w){ Ref<1>::sweep(op,D,v,rhs,w); }); lib<2>(op,static_cast<const M&>(A),x,static_cast<const X&>(b),w,true); CHECK(mclose(x,y),on[op]," got ",str(x[_0])," ",str(x[_1])," want ",str(y[_0])," ",str(y[_1])); CHECK(same(b[_0],b0[_0])&&same(b[_1],b0[_1]),"right hand side changed"); }
// preconditioners built on the sweeps
template<class B> void precs(Case& c) { Rng& r=c.rng; using V=BlockVector<typename VecOf<B>::type>; using M=BCRSMatrix<B>; std::size_t N=c.no<40?r.in(1,3):r.in(1,14);
  M A; auto p=randomPattern(r,N,N,true); buildAny(r,A,p,N); fillDiag(r,A); V v(N),d(N); fillv(r,v); fillv(r,d); auto d0=d; V x(v); double w=weight<double>(r); int n=r.in(1,3),kind=r.in(0,3); const char* nm[]={"SeqJac","SeqSOR","SeqSSOR","SeqGS"}; c.desc << nm[kind] << " n=" << N << " steps " << n << " w=" << w << " pattern " << show(p);
  typename FieldTraits<B>::field_type kw(w);
  for (int k=0;k<n;++k) { if (kind==0) Ref<1>::sweep(JAC,A,x,d,kw); else { Ref<1>::sweep(SORF,A,x,d,kw); if (kind==2) Ref<1>::sweep(SORB,A,x,d,kw); } }
  V t(v),e(d); auto go=[&](auto&& P){ P.pre(t,e); P.apply(v,static_cast<const V&>(d)); P.post(t); CHECK(P.category()==SolverCategory::sequential,"category"); };
  bool back = kind==1 && r.chance(50); if (back) { x=t; for (int k=0;k<n;++k) Ref<1>::sweep(SORB,A,x,d,kw); }
  switch(kind) { case 0: go(SeqJac<M,V,V>(A,n,w)); break; case 1: { SeqSOR<M,V,V> P(A,n,w); if (back) { P.pre(t,e); P.template apply<false>(v,d); P.post(t); } else go(P); break; } case 2: go(SeqSSOR<M,V,V>(A,n,w)); break; default: go(SeqGS<M,V,V>(A,n,w)); }
  CHECK(close(v,x),nm[kind]," got ",str(v)," want ",str(x)); CHECK(same(d,d0),"defect changed"); }
void register_sections() {
  section("tri1",tri<double,1>,3); section("tri2",tri<double,2>,2); section("tri3",tri<double,3>); section("tric",tri<std::complex<double>,2>); section("sweeps",sweeps<double>,3); section("sweepsc",sweeps<std::complex<double>>); section("sweeps1",sweeps<FieldMatrix<double,1,1>>,2); section("sweeps2",sweeps<FieldMatrix<double,2,2>>,2); section("sweeps3c",sweeps<FieldMatrix<std::complex<double>,3,3>>);
  section("nested",nested<FieldMatrix<double,2,2>>,2); section("nested0",nested<double>); section("mt1",mt1,2); section("mt2",mt2,2); section("precs",precs<double>); section("precs2",precs<FieldMatrix<double,2,2>>,2); }
NATIVE_MAIN
