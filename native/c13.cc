#include "gen.hh"
#include <set>
#include <dune/common/diagonalmatrix.hh>
#include <dune/common/dynmatrix.hh>
#include <dune/common/dynvector.hh>
#include <dune/istl/matrix.hh>
#include <dune/istl/vbvector.hh>
#include <dune/istl/scaledidmatrix.hh>
#include <dune/istl/multitypeblockvector.hh>
#include <dune/istl/multitypeblockmatrix.hh>
#include <dune/istl/foreach.hh>
#include <dune/istl/bccsmatrixinitializer.hh>
using namespace Dune; using namespace nat;
using C=std::complex<double>; using S=std::size_t; using namespace Indices;
// expected entries, in terms of addresses
struct Want { std::multimap<const void*,std::pair<S,S>> e; void add(const void* p, S r, S c) { e.emplace(p,std::make_pair(r,c)); } };
struct Seen { std::multimap<const void*,std::pair<S,S>> e; std::vector<double> order; };
inline void compare(const Want& w, const Seen& s) { CHECK(w.e.size()==s.e.size(),"number of visits ",s.e.size()," wanted ",w.e.size());
  auto a=w.e.begin(), b=s.e.begin(); for (; a!=w.e.end(); ++a,++b) { CHECK(a->first==b->first,"an entry is visited twice or missed; wanted flat ",a->second.first,",",a->second.second);
    CHECK(a->second==b->second,"flat index (",b->second.first,",",b->second.second,") wanted (",a->second.first,",",a->second.second,")"); } }
// reference: sizes and addresses of vectors
template<class T> S wantv(Want& w, const T& x, S o) { if constexpr (IsNumber<T>::value) { w.add(&x,o,0); return 1; } else { S n=0; for (S i=0;i<x.size();++i) n+=wantv(w,x[i],o+n); return n; } }
template<class... A> S wantv(Want& w, const MultiTypeBlockVector<A...>& x, S o) { S n=0; Hybrid::forEach(std::make_index_sequence<sizeof...(A)>(),[&](auto i){ n+=wantv(w,x[i],o+n); }); return n; }
template<class X> void runv(Case& c, X& x) { Rng& r=c.rng; S o = r.chance(50) ? 0 : r.in(0,1000); for (int cc=0;cc<2;++cc) { Want w; S n=wantv(w,x,o); Seen s; S got; auto f=[&](auto&& e, S i){ s.e.emplace(&e,std::make_pair(i,S(0))); };
    if (cc) { const X& y=x; got = o==0 ? flatVectorForEach(y,f) : flatVectorForEach(y,f,o); } else got=flatVectorForEach(x,f,o); CHECK(got==n,"flat size ",got," wanted ",n); compare(w,s); }
  double t=1; flatVectorForEach(x,[&](auto&& e, S){ e=std::decay_t<decltype(e)>(t); t+=1; }); double u=1; flatVectorForEach(std::as_const(x),[&](auto&& e, S){ CHECK(e==std::decay_t<decltype(e)>(u),"written entry",u); u+=1; }); CHECK(t==u,"visits",t); }
template<class T> void bv(Case& c) { BlockVector<T> x(randomSize(c.rng,c.no)); c.desc << "n=" << x.size(); runv(c,x); }
template<class T> void nest(Case& c) { Rng& r=c.rng; BlockVector<BlockVector<T>> x(r.in(0,c.no<30?2:6)); for (S i=0;i<x.size();++i) { x[i].resize(r.chance(30)?0:r.in(0,4)); c.desc << " " << x[i].size(); } runv(c,x); }
void nest3(Case& c) { Rng& r=c.rng; BlockVector<BlockVector<BlockVector<FieldVector<double,2>>>> x(r.in(0,3)); for (auto& a : x) { a.resize(r.in(0,3)); c.desc << "["; for (auto& b : a) { b.resize(r.in(0,3)); c.desc << b.size() << " "; } c.desc << "]"; } runv(c,x); }
void vb(Case& c) { Rng& r=c.rng; S n=r.in(1,6), t=0; std::vector<S> l(n); for (auto& y : l) t += y = r.in(0,4); VariableBlockVector<double> x(n); S i=0; for (auto it=x.createbegin(); it!=x.createend(); ++it) it.setblocksize(l[i++]); for (S k=0;k<n;++k) c.desc << " " << l[k];
  Want w; S o=r.in(0,9), m=0; for (S k=0;k<n;++k) for (S q=0;q<l[k];++q) w.add(&x[k][q],o+m++,0); Seen s; S got=flatVectorForEach(x,[&](auto&& e, S i){ s.e.emplace(&e,std::make_pair(i,S(0))); },o); CHECK(got==m,"flat size ",got," wanted ",m); compare(w,s); }
void mtv(Case& c) { Rng& r=c.rng; MultiTypeBlockVector<BlockVector<double>,FieldVector<double,2>,BlockVector<FieldVector<double,3>>,BlockVector<BlockVector<double>>> x; x[_0].resize(r.in(0,3)); x[_2].resize(r.in(0,3)); x[_3].resize(r.in(0,3)); for (auto& b : x[_3]) b.resize(r.in(0,3));
  c.desc << x[_0].size() << " " << x[_2].size() << " " << x[_3].size(); runv(c,x); }
void stdv(Case& c) { Rng& r=c.rng; std::vector<FieldVector<double,2>> x(r.in(0,5)); runv(c,x); std::array<FieldVector<double,1>,3> y; runv(c,y); DynamicVector<double> d(r.in(0,5)); runv(c,d); }
// matrices: reference enumeration
template<class T> struct Dim; 
template<> struct Dim<double> { static S r(const double&) { return 1; } static S c(const double&) { return 1; } static void add(Want& w, const double& x, S r, S c) { w.add(&x,r,c); } };
template<> struct Dim<C> { static S r(const C&) { return 1; } static S c(const C&) { return 1; } static void add(Want& w, const C& x, S r, S c) { w.add(&x,r,c); } };
template<class K,int n,int m> struct Dim<FieldMatrix<K,n,m>> { using M=FieldMatrix<K,n,m>; static S r(const M&) { return n; } static S c(const M&) { return m; } static void add(Want& w, const M& x, S r, S c) { for (S i=0;i<n;++i) for (S j=0;j<m;++j) w.add(&x[i][j],r+i,c+j); } };
template<class K,int n> struct Dim<DiagonalMatrix<K,n>> { using M=DiagonalMatrix<K,n>; static S r(const M&) { return n; } static S c(const M&) { return n; } static void add(Want& w, const M& x, S r, S c) { for (S i=0;i<n;++i) w.add(&x.diagonal(i),r+i,c+i); } };
template<class K,int n> struct Dim<ScaledIdentityMatrix<K,n>> { using M=ScaledIdentityMatrix<K,n>; static S r(const M&) { return n; } static S c(const M&) { return n; } static void add(Want& w, const M& x, S r, S c) { for (S i=0;i<n;++i) w.add(&x.scalar(),r+i,c+i); } };
template<class K> struct Dim<DynamicMatrix<K>> { using M=DynamicMatrix<K>; static S r(const M& x) { return x.N(); } static S c(const M& x) { return x.M(); } static void add(Want& w, const M& x, S r, S c) { for (S i=0;i<x.N();++i) for (S j=0;j<x.M();++j) w.add(&x[i][j],r+i,c+j); } };
template<class B> struct Dim<BCRSMatrix<B>> { using M=BCRSMatrix<B>; static std::pair<S,S> bl(const M& x) { for (auto& a : x) for (auto& b : a) return {Dim<B>::r(b),Dim<B>::c(b)}; B b{}; return {Dim<B>::r(b),Dim<B>::c(b)}; } static S r(const M& x) { return x.N()*bl(x).first; } static S c(const M& x) { return x.M()*bl(x).second; }
  static void add(Want& w, const M& x, S r, S c) { auto b=bl(x); for (S i=0;i<x.N();++i) for (S j=0;j<x.M();++j) if (x.exists(i,j)) Dim<B>::add(w,x[i][j],r+i*b.first,c+j*b.second); } };
template<class B> struct Dim<Matrix<B>> { using M=Matrix<B>; static S r(const M& x) { S n=0; if (x.M()) for (S i=0;i<x.N();++i) n+=Dim<B>::r(x[i][0]); return n; } static S c(const M& x) { S n=0; if (x.N()) for (S i=0;i<x.M();++i) n+=Dim<B>::c(x[0][i]); return n; }
  static void add(Want& w, const M& x, S r, S c) { S R=0; for (S i=0;i<x.N();++i) { S Cc=0, h=0; for (S j=0;j<x.M();++j) { Dim<B>::add(w,x[i][j],r+R,c+Cc); h=Dim<B>::r(x[i][j]); Cc+=Dim<B>::c(x[i][j]); } R+=h; } } };
template<class M> void runm(Case& c, M& A) { Rng& r=c.rng; S o = r.chance(50) ? 0 : r.in(0,1000), p = r.chance(50) ? 0 : r.in(0,1000); bool nil = o==0 && p==0;
  for (int cc=0;cc<2;++cc) { Want w; Dim<M>::add(w,A,o,p); Seen s; auto f=[&](auto&& e, S i, S j){ s.e.emplace(&e,std::make_pair(i,j)); }; std::pair<S,S> got; if (cc) { const M& B=A; got=nil?flatMatrixForEach(B,f):flatMatrixForEach(B,f,o,p); } else got=flatMatrixForEach(A,f,o,p);
    CHECK(got.first==Dim<M>::r(A) && got.second==Dim<M>::c(A),"flat size ",got.first,"x",got.second," wanted ",Dim<M>::r(A),"x",Dim<M>::c(A));
    CHECK(w.e.size()==s.e.size(),"number of visits ",s.e.size()," wanted ",w.e.size()); compare(w,s); } }
template<class M> void buildM(Case& c, M& A) { Rng& r=c.rng; S n=randomSize(r,c.no), m=r.chance(50)?n:randomSize(r,c.no); auto p=randomPattern(r,n,m); buildAny(r,A,p,m); c.desc << " " << n << "x" << m << " " << show(p); }
template<class B> void sp(Case& c) { BCRSMatrix<B> A; buildM(c,A); if constexpr (!std::is_arithmetic_v<B>) runm(c,A); else runm(c,A); }
template<class B> void spid(Case& c) { // scaled identity entries: the diagonal scalar stands for every diagonal position
  BCRSMatrix<B> A; buildM(c,A); double t=1; for (auto& a : A) for (auto& b : a) b=t++; constexpr S k=B::rows; S o=c.rng.in(0,9); std::map<std::pair<S,S>,double> w, g; for (auto i=A.begin();i!=A.end();++i) for (auto j=i->begin();j!=i->end();++j) for (S q=0;q<k;++q) w[{o+i.index()*k+q,j.index()*k+q}]=j->scalar();
  auto got=flatMatrixForEach(A,[&](auto&& e, S i, S j){ CHECK(g.emplace(std::make_pair(i,j),double(e)).second,"visited twice ",i," ",j); },o,0); CHECK(got.first==A.N()*k && got.second==A.M()*k,"flat size ",got.first,"x",got.second); CHECK(g==w,"visited entries",g.size()); }
void spn(Case& c) { Rng& r=c.rng; BCRSMatrix<BCRSMatrix<double>> A; buildM(c,A); S a=r.in(1,3), b=r.in(1,3); for (auto& row : A) for (auto& e : row) { auto p=randomPattern(r,a,b); buildAny(r,e,p,b); c.desc << " [" << show(p) << "]"; } if (A.nonzeroes()>0) runm(c,A); }
template<class B> void dn(Case& c) { Rng& r=c.rng; Matrix<B> A; S n=r.in(0,4), m=r.in(0,4); A.setSize(n,m); c.desc << n << "x" << m; runm(c,A); }
void dnn(Case& c) { Rng& r=c.rng; S n=r.in(0,3), m=r.in(0,3); Matrix<Matrix<double>> A(n,m); std::vector<S> a(n), b(m); for (auto& x : a) x=r.in(1,3); for (auto& x : b) x=r.in(1,3); for (S i=0;i<n;++i) for (S j=0;j<m;++j) A[i][j].setSize(a[i],b[j]); for (auto x : a) c.desc << x << " "; c.desc << "|"; for (auto x : b) c.desc << x << " "; runm(c,A);
  Matrix<BCRSMatrix<FieldMatrix<double,2,1>>> D(n,m); for (S i=0;i<n;++i) for (S j=0;j<m;++j) { auto p=randomPattern(r,a[i],b[j]); buildAny(r,D[i][j],p,b[j]); } runm(c,D); }
void dyn(Case& c) { Rng& r=c.rng; S n=r.in(1,4), m=r.in(1,4); DynamicMatrix<double> A(n,m); runm(c,A); FieldMatrix<double,3,2> f; runm(c,f); DiagonalMatrix<double,3> d; runm(c,d); }
void mt(Case& c) { using M0=BCRSMatrix<double>; using M1=BCRSMatrix<FieldMatrix<double,1,2>>; using M2=BCRSMatrix<FieldMatrix<double,2,1>>; using M3=BCRSMatrix<FieldMatrix<double,2,2>>; using R0=MultiTypeBlockVector<M0,M1>; using R1=MultiTypeBlockVector<M2,M3>; MultiTypeBlockMatrix<R0,R1> A; Rng& r=c.rng; S n[2]={S(r.in(0,4)),S(r.in(0,4))};
  auto b=[&](auto& X, S i, S j){ auto p=randomPattern(r,i,j); buildAny(r,X,p,j); c.desc << "[" << show(p) << "]"; }; b(A[_0][_0],n[0],n[0]); b(A[_0][_1],n[0],n[1]); b(A[_1][_0],n[1],n[0]); b(A[_1][_1],n[1],n[1]); S o=r.in(0,50), q=r.in(0,50); Want w; Dim<M0>::add(w,A[_0][_0],o,q); Dim<M1>::add(w,A[_0][_1],o,q+n[0]); Dim<M2>::add(w,A[_1][_0],o+n[0],q); Dim<M3>::add(w,A[_1][_1],o+n[0],q+n[0]);
  Seen s; auto got=flatMatrixForEach(A,[&](auto&& e, S i, S j){ s.e.emplace(&e,std::make_pair(i,j)); },o,q); CHECK(got.first==n[0]+2*n[1] && got.second==n[0]+2*n[1],"flat size ",got.first,"x",got.second," wanted ",n[0]+2*n[1]); compare(w,s); }
// compressed column export
template<class B> struct Bl { static constexpr S n=1, m=1; static B at(const B& b, S, S) { return b; } using K=B; };
template<class K_,int a,int b> struct Bl<FieldMatrix<K_,a,b>> { static constexpr S n=a, m=b; using K=K_; static K at(const FieldMatrix<K_,a,b>& x, S i, S j) { return x[i][j]; } };
template<class O,class K> void checkccs(const O& o, S N, S M, const std::map<std::pair<S,S>,K>& w /* (column,row) */) { CHECK(o.N()==N && o.M()==M,"size ",o.N(),"x",o.M()); CHECK(o.nonzeroes()==w.size() ,"number of entries ",o.nonzeroes()," wanted ",w.size());
  if (o.M()==0 && !o.getColStart()) return; CHECK(o.getColStart()[0]==0,"first column start",0); S t=0; auto it=w.begin(); for (S j=0;j<M;++j) { for (; it!=w.end() && it->first.first==j; ++it,++t) { CHECK(S(o.getRowIndex()[t])==it->first.second,"row index ",t," of column ",j," is ",o.getRowIndex()[t]," wanted ",it->first.second); CHECK(o.getValues()[t]==it->second,"value ",t," of column ",j); } CHECK(S(o.getColStart()[j+1])==t,"column start ",j+1," is ",o.getColStart()[j+1]," wanted ",t); } }
template<class B,class I,bool sub> void ccs(Case& c) { using M=BCRSMatrix<B>; using K=typename Bl<B>::K; constexpr S n=Bl<B>::n, m=Bl<B>::m; using O=ISTL::Impl::BCCSMatrix<K,I>; Rng& r=c.rng; M A; S R=randomSize(r,c.no), Q=(sub||r.chance(50))?R:randomSize(r,c.no); auto p=randomPattern(r,R,Q); buildAny(r,A,p,Q); fillm(r,A); c.desc << R << "x" << Q << " " << show(p); M A0(A);
  std::map<std::pair<S,S>,K> w; O out; S N=R*n, MM=Q*m; auto put=[&](S i, S j, const B& b){ for (S x=0;x<n;++x) for (S y=0;y<m;++y) w[{j*m+y,i*n+x}]=Bl<B>::at(b,x,y); };
  if constexpr (sub) { std::set<S> s; int d=int(r.in(0,100)); for (S i=0;i<R;++i) if (r.chance(d)) s.insert(i); c.desc << " rows"; for (auto i : s) c.desc << " " << i; std::vector<S> v(s.begin(),s.end()); N=v.size()*n; MM=v.size()*m; for (S x=0;x<v.size();++x) for (S y=0;y<v.size();++y) if (A.exists(v[x],v[y])) put(x,y,A[v[x]][v[y]]);
    out.setSize(N,MM); ISTL::Impl::BCCSMatrixInitializer<M,I> init(out); copyToBCCSMatrix(init,ISTL::Impl::MatrixRowSubset<M,std::set<S>>(A,s)); }
  else { for (S i=0;i<R;++i) for (S j : p[i]) put(i,j,A[i][j]); out.setSize(N,MM); ISTL::Impl::BCCSMatrixInitializer<M,I> init(out); copyToBCCSMatrix(init,A); }
  // the number of stored entries of a submatrix is an upper bound allocated beforehand
  checkccs(out,N,MM,w); for (S i=0;i<R;++i) for (S j : p[i]) CHECK(A[i][j]==A0[i][j],"source changed",i);
  O a, b; if (r.chance(50)) { M Z; auto z=randomPattern(r,2,2); buildAny(r,Z,z,2); fillm(r,Z); b.setSize(2*n,2*m); ISTL::Impl::BCCSMatrixInitializer<M,I> init(b); copyToBCCSMatrix(init,Z); } a=out; checkccs(a,N,MM,w); b=a; O d(b); checkccs(d,N,MM,w); if (r.chance(50)) { O& al=b; b=al; } checkccs(b,N,MM,w);
  if (out.nonzeroes()) { out.getValues()[0]+=K(1); out.getRowIndex()[0]+=1; } if (r.chance(50)) out.free(); checkccs(b,N,MM,w); checkccs(a,N,MM,w); O e; b=e; CHECK(b.N()==0 && b.M()==0 && b.nonzeroes()==0,"assigned empty",0); a=b; }
void register_sections() {
  section("vec", bv<double>); section("vecf", bv<FieldVector<double,3>>,2); section("vecc", bv<C>); section("nest", nest<double>,2); section("nestf", nest<FieldVector<double,2>>,2); section("nest3", nest3); section("vb", vb); section("mtv", mtv,2); section("stdv", stdv);
  section("sp", sp<double>); section("spf", sp<FieldMatrix<double,2,3>>,2); section("spc", sp<C>); section("spdiag", sp<DiagonalMatrix<double,3>>); section("spid", spid<ScaledIdentityMatrix<double,2>>); section("spnest", spn,2);
  section("dense", dn<double>); section("densef", dn<FieldMatrix<double,2,3>>); section("densenest", dnn,2); section("dyn", dyn); section("mt", mt,2);
  section("ccs", ccs<double,S,false>,2); section("ccsi", ccs<double,int,false>,2); section("ccsf", ccs<FieldMatrix<double,2,3>,S,false>,3); section("ccsc", ccs<FieldMatrix<C,2,2>,int,false>,2); section("ccs13", ccs<FieldMatrix<double,1,3>,long,false>,2);
  section("sub", ccs<double,int,true>,2); section("subf", ccs<FieldMatrix<double,2,2>,int,true>,3); section("sub31", ccs<FieldMatrix<double,3,1>,S,true>,2);
}
NATIVE_MAIN
