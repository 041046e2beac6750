#include "gen.hh"
#include <dune/istl/matrix.hh>
#include <dune/istl/multitypeblockmatrix.hh>
#include <dune/istl/multitypeblockvector.hh>
#include <dune/istl/bdmatrix.hh>
using namespace Dune; using namespace nat;
template<class T> inline constexpr bool isSp=false; template<class B,class A> inline constexpr bool isSp<BCRSMatrix<B,A>> =true;
inline bool near(double a,double b) { return std::abs(a-b) <= 1e-11*(1+std::abs(a)+std::abs(b)); }
template<class K> bool nearK(K a,K b) { return std::abs(a-b) <= 1e-11*(1+std::abs(a)+std::abs(b)); }
template<class B> struct Ops { // one block (dense or scalar)
  using K=typename FieldTraits<B>::field_type;
  template<class F> static void each(B& b, F f) { if constexpr (std::is_same_v<B,K>) f(b); else for (auto& r : b) for (auto& e : r) f(e); }
  static double norm2(const B& b) { double s=0; each(const_cast<B&>(b),[&](K& e){ s+=std::norm(std::complex<double>(e)); }); return s; }
  static double one(K e, bool man) { std::complex<double> z(e); return man ? std::abs(z.real())+std::abs(z.imag()) : std::abs(z); }
  static double inf(const B& b, bool man) { if constexpr (std::is_same_v<B,K>) return one(b,man); else { double m=0; for (auto& r : b) { double s=0; for (auto& e : r) s+=one(e,man); m=std::max(m,s); } return m; } }
};
// nested matrices: reference values are recomputed from a list of entries in iteration order
template<class M> struct Ref { using K=typename FieldTraits<M>::field_type;
  static void flat(const M& A, std::vector<K>& o) { if constexpr (isSp<M>) { for (auto r=A.begin(); r!=A.end(); ++r) for (auto c=r->begin(); c!=r->end(); ++c) Ref<typename M::block_type>::flat(*c,o); } else Ops<M>::each(const_cast<M&>(A),[&](K& e){ o.push_back(e); }); }
  static double norm2(const M& A) { std::vector<K> v; flat(A,v); double s=0; for (auto z : v) s+=std::norm(std::complex<double>(z)); return s; }
  static double inf(const M& A, bool man) { if constexpr (isSp<M>) { double m=0; for (auto r=A.begin(); r!=A.end(); ++r) { double s=0; for (auto c=r->begin(); c!=r->end(); ++c) s+=Ref<typename M::block_type>::inf(*c,man); m=std::max(m,s); } return m; } else return Ops<M>::inf(A,man); }
  static void pos(const M& A, std::vector<std::size_t>& o) { if constexpr (isSp<M>) { o.push_back(A.N()); o.push_back(A.M()); for (auto r=A.begin(); r!=A.end(); ++r) { o.push_back(r->size()); for (auto c=r->begin(); c!=r->end(); ++c) { o.push_back(c.index()); Ref<typename M::block_type>::pos(*c,o); } } } }
};
template<class M> void build(Case& c, M& A, const Pattern& p, std::size_t m) {
  Rng& r=c.rng; std::size_t nnz=0, mx=1; for (auto& x : p) { nnz+=x.size(); mx=std::max(mx,x.size()); } int mode=int(r.in(0,6)); if (!std::is_arithmetic_v<typename M::block_type> && isSp<typename M::block_type> && mode==5) mode=0; c.desc << " mode=" << mode;
  switch (mode) {
    case 0: buildRandom(r,A,p,m); break; case 1: buildRowwise(A,p,m,true); break; case 2: buildRowwise(A,p,m,false); break; case 3: buildIndexSet(A,p,m); break;
    case 4: { A.setBuildMode(M::random); std::size_t ex=r.in(0,5); A.setSize(p.size(),m,nnz+ex); for (std::size_t i=0;i<p.size();++i) A.setrowsize(i,p[i].size()); A.endrowsizes(); for (std::size_t i=0;i<p.size();++i) for (auto k : p[i]) A.addindex(i,k); A.endindices(); break; }
    case 5: { std::size_t avg=mx; A.setBuildMode(M::implicit); A.setImplicitBuildModeParameters(avg,1.0); A.setSize(p.size(),m); for (std::size_t i=0;i<p.size();++i) for (auto k : p[i]) { auto& e=A.entry(i,k); e=typename FieldTraits<M>::field_type(1); } A.compress(); break; }
    case 6: { M* Bm=new M; buildAny(r,*Bm,p,m); A=*Bm; delete Bm; break; } }
  if (r.chance(30)) CHECK(A.nonzeroes()==nnz,"nonzeroes");
}
template<class T> void initBlock(Rng&, T&) {}
template<class B,class A> void initBlock(Rng& r, BCRSMatrix<B,A>& b) { std::size_t n=r.in(0,3), m=r.in(1,3); buildAny(r,b,randomPattern(r,n,m),m); }
template<class T> void copyShape(const T& s, T& t) { t=s; }
template<class M> void fillAll(Rng& r, M& A) { using K=typename FieldTraits<M>::field_type; if constexpr (isSp<M>) { for (auto& row : A) for (auto& e : row) fillAll(r,e); } else Ops<M>::each(A,[&](K& e){ e=RandK<K>::get(r); }); }
template<class M,bool isint=false> void arith(Case& c) {
  using K=typename FieldTraits<M>::field_type; using B=typename M::block_type; Rng& r=c.rng; constexpr bool nested = isSp<B>;
  std::size_t n=randomSize(r,c.no), m=std::max<std::size_t>(1,randomSize(r,c.no)); if (nested) { n=r.in(0,5); m=r.in(1,5); }
  Pattern p=randomPattern(r,n,m), p2(n); for (std::size_t i=0;i<n;++i) for (auto j : p[i]) if (r.chance(60)) p2[i].push_back(j);
  c.desc << " n=" << n << " m=" << m << " p=" << show(p); M A, Y; build(c,A,p,m); build(c,Y,p2,m); c.desc << " p2=" << show(p2);
  if constexpr (nested) { for (auto& row : A) for (auto& e : row) { B t; initBlock(r,t); e=t; } for (auto i=Y.begin(); i!=Y.end(); ++i) for (auto j=i->begin(); j!=i->end(); ++j) *j=A[i.index()][j.index()]; }
  fillAll(r,A); fillAll(r,Y);
  int op=int(r.in(0,9)); K k=RandK<K>::nz(r); if (r.chance(10) && op!=2) k=K(0); static const char* nm[]={"assign","*=","/=","+=","-=","axpy","fro","fro2","inf","infr"}; c.desc << " op=" << nm[op] << " k=" << k;
  if constexpr (isint) if (op==2 || op==6) op=1;
  std::vector<K> a,b,g,b2; std::vector<std::size_t> ps,ps2,qs,qs2; Ref<M>::flat(A,a); Ref<M>::flat(Y,b); Ref<M>::pos(A,ps); Ref<M>::pos(Y,qs);
  // y value belonging to every scalar of A
  std::vector<K> y(a.size(),K(0)); std::vector<char> has(a.size(),0); { std::size_t o=0; for (auto i=A.begin(); i!=A.end(); ++i) for (auto j=i->begin(); j!=i->end(); ++j) { std::vector<K> t; Ref<B>::flat(*j,t); for (auto l=Y[i.index()].begin(); l!=Y[i.index()].end(); ++l) if (l.index()==j.index()) { std::vector<K> u; Ref<B>::flat(*l,u); for (std::size_t q=0;q<u.size();++q) { y[o+q]=u[q]; has[o+q]=1; } } o+=t.size(); } }
  std::vector<K> w=a; double d=0, got=0; bool norm=false;
  switch (op) {
    case 0: A=k; for (auto& z:w) z=k; break; case 1: A*=k; for (auto& z:w) z*=k; break; case 2: A/=k; for (auto& z:w) z/=k; break;
    case 3: A+=Y; for (std::size_t i=0;i<w.size();++i) if (has[i]) w[i]+=y[i]; break; case 4: A-=Y; for (std::size_t i=0;i<w.size();++i) if (has[i]) w[i]-=y[i]; break;
    case 5: A.axpy(k,Y); for (std::size_t i=0;i<w.size();++i) if (has[i]) w[i]+=k*y[i]; break;
    case 6: if constexpr (!isint) { norm=true; got=A.frobenius_norm(); d=std::sqrt(Ref<M>::norm2(A)); } break; case 7: norm=true; got=A.frobenius_norm2(); d=Ref<M>::norm2(A); break;
    case 8: norm=true; got=A.infinity_norm(); d=Ref<M>::inf(A,false); break; case 9: norm=true; got=A.infinity_norm_real(); d=Ref<M>::inf(A,true); break; }
  Ref<M>::flat(A,g); Ref<M>::flat(Y,b2); Ref<M>::pos(A,ps2); Ref<M>::pos(Y,qs2);
  CHECK(ps==ps2,"pattern changed"); CHECK(qs==qs2,"pattern of the second operand changed");
  for (std::size_t i=0;i<w.size();++i) CHECK(nearK(std::complex<double>(g[i]),std::complex<double>(w[i])),"entry ",i," got ",g[i]," want ",w[i]); for (std::size_t i=0;i<b.size();++i) CHECK(b[i]==b2[i],"second operand changed at ",i);
  if (norm) CHECK(near(got,d),"norm got ",got," want ",d);
}
template<class K> void dense(Case& c) { // Matrix<FieldMatrix>
  using B=FieldMatrix<K,2,2>; using M=Matrix<B>; Rng& r=c.rng; std::size_t n=r.in(0,5), m=r.in(1,5); M A(n,m),Y(n,m); for (std::size_t i=0;i<n;++i) for (std::size_t j=0;j<m;++j) { fillv(r,A[i][j]); fillv(r,Y[i][j]); } M W(A), Y0(Y);
  int op=int(r.in(0,8)); K k=RandK<K>::nz(r); c.desc << " n=" << n << " m=" << m << " op=" << op << " k=" << k; double d=0, got=0;
  auto each=[&](auto f){ for (std::size_t i=0;i<n;++i) for (std::size_t j=0;j<m;++j) for (int a=0;a<2;++a) for (int b=0;b<2;++b) f(W[i][j][a][b],Y0[i][j][a][b]); };
  auto infn=[&](bool man){ double q=0; for (std::size_t i=0;i<n;++i) { double s=0; for (std::size_t j=0;j<m;++j) s+=Ops<B>::inf(W[i][j],man); q=std::max(q,s); } return q; };
  switch (op) { case 0: A=k; each([&](K& e,K){ e=k; }); break; case 1: A*=k; each([&](K& e,K){ e*=k; }); break; case 2: A/=k; each([&](K& e,K){ e/=k; }); break; case 3: A+=Y; each([&](K& e,K y){ e+=y; }); break; case 4: A-=Y; each([&](K& e,K y){ e-=y; }); break;
    case 5: got=A.frobenius_norm(); each([&](K& e,K){ d+=std::norm(e); }); d=std::sqrt(d); break; case 6: got=A.frobenius_norm2(); each([&](K& e,K){ d+=std::norm(e); }); break; case 7: got=A.infinity_norm(); d=infn(false); break; case 8: got=A.infinity_norm_real(); d=infn(true); break; }
  for (std::size_t i=0;i<n;++i) for (std::size_t j=0;j<m;++j) for (int a=0;a<2;++a) for (int b=0;b<2;++b) { CHECK(nearK(A[i][j][a][b],W[i][j][a][b]),"entry ",i," ",j," got ",A[i][j][a][b]," want ",W[i][j][a][b]); CHECK(Y[i][j][a][b]==Y0[i][j][a][b],"second operand changed"); }
  CHECK(near(got,d),"norm got ",got," want ",d);
}
template<class K> void multitype(Case& c) {
  using M0=BCRSMatrix<FieldMatrix<K,1,1>>; using M1=BCRSMatrix<FieldMatrix<K,1,2>>; using M2=BCRSMatrix<FieldMatrix<K,2,1>>; using M3=BCRSMatrix<FieldMatrix<K,2,2>>; using R0=MultiTypeBlockVector<M0,M1>; using R1=MultiTypeBlockVector<M2,M3>; using M=MultiTypeBlockMatrix<R0,R1>;
  Rng& r=c.rng; std::size_t n[2]={std::size_t(r.in(1,5)),std::size_t(r.in(1,5))}; M A; using namespace Indices; auto ea=[&](M& X, auto f){ f(X[_0][_0],n[0],n[0]); f(X[_0][_1],n[0],n[1]); f(X[_1][_0],n[1],n[0]); f(X[_1][_1],n[1],n[1]); };
  ea(A,[&](auto& b,std::size_t i,std::size_t j){ buildAny(r,b,randomPattern(r,i,j),j); fillAll(r,b); }); M Y(A); ea(Y,[&](auto& b,std::size_t,std::size_t){ fillAll(r,b); });
  auto flat=[&](M& X){ std::vector<K> o; ea(X,[&](auto& b,std::size_t,std::size_t){ Ref<std::decay_t<decltype(b)>>::flat(b,o); }); return o; };
  std::vector<K> w=flat(A), y=flat(Y); int op=int(r.in(0,7)); K k=RandK<K>::nz(r); c.desc << " n=" << n[0] << "," << n[1] << " op=" << op << " k=" << k; double d=0, got=0;
  auto infn=[&](bool man){ double q[2]={0,0}; int t=0; ea(A,[&](auto& b,std::size_t,std::size_t){ q[t/2]+=Ref<std::decay_t<decltype(b)>>::inf(b,man); ++t; }); return std::max(q[0],q[1]); };
  switch (op) { case 0: A*=k; for (auto& e:w) e*=k; break; case 1: A/=k; for (auto& e:w) e/=k; break; case 2: A+=Y; for (std::size_t i=0;i<w.size();++i) w[i]+=y[i]; break; case 3: A-=Y; for (std::size_t i=0;i<w.size();++i) w[i]-=y[i]; break;
    case 4: got=A.frobenius_norm(); for (auto e:w) d+=std::norm(e); d=std::sqrt(d); break; case 5: got=A.frobenius_norm2(); for (auto e:w) d+=std::norm(e); break; case 6: got=A.infinity_norm(); d=infn(false); break; case 7: got=A.infinity_norm_real(); d=infn(true); break; }
  auto g=flat(A), y2=flat(Y); for (std::size_t i=0;i<w.size();++i) CHECK(nearK(g[i],w[i]),"entry ",i," got ",g[i]," want ",w[i]); CHECK(y==y2,"second operand changed"); CHECK(near(got,d),"norm got ",got," want ",d);
}
void register_sections() {
  section("double", arith<BCRSMatrix<double>>, 3); section("complex", arith<BCRSMatrix<std::complex<double>>>, 2); section("fm22", arith<BCRSMatrix<FieldMatrix<double,2,2>>>, 2); section("fmc12", arith<BCRSMatrix<FieldMatrix<std::complex<double>,1,2>>>);
  section("fm23", arith<BCRSMatrix<FieldMatrix<double,2,3>>>); section("int", arith<BCRSMatrix<FieldMatrix<long,2,2>>,true>); section("nested", arith<BCRSMatrix<BCRSMatrix<double>>>, 2); section("nested2", arith<BCRSMatrix<BCRSMatrix<FieldMatrix<double,1,2>>>>);
  section("dense", dense<double>); section("densec", dense<std::complex<double>>); section("multitype", multitype<double>); section("multitypec", multitype<std::complex<double>>);
}
NATIVE_MAIN
