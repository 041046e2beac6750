#include "gen.hh"
#include <dune/istl/ilu.hh>
#include <dune/istl/ildl.hh>
#include <dune/istl/dilu.hh>
#include <dune/istl/preconditioners.hh>
#include <dune/istl/operators.hh>
using namespace Dune; using namespace nat;
// dense reference blocks: every entry becomes an r x r block of K
template<class B> struct Tr { using K=B; static constexpr int r=1; using V=B; static K get(const B& b,int,int){return b;} static K vget(const V& v,int){return v;} };
template<class T,int n> struct Tr<FieldMatrix<T,n,n>> { using K=T; static constexpr int r=n; using V=FieldVector<T,n>; static K get(const FieldMatrix<T,n,n>& b,int i,int j){return b[i][j];} static K vget(const V& v,int i){return v[i];} };
template<class K> struct Dense { int n; std::vector<K> a; Dense(int n_):n(n_),a(n_*n_,K(0)){} K& operator()(int i,int j){return a[i*n+j];} const K& operator()(int i,int j) const {return a[i*n+j];} };
template<class K> Dense<K> mul(const Dense<K>& A, const Dense<K>& B) { Dense<K> C(A.n); for (int i=0;i<A.n;++i) for (int k=0;k<A.n;++k) { K t=A(i,k); if (t!=K(0)) for (int j=0;j<A.n;++j) C(i,j)+=t*B(k,j); } return C; }
template<class K> std::vector<K> solve(Dense<K> A, std::vector<K> b) { int n=A.n; for (int i=0;i<n;++i) { int p=i; for (int k=i+1;k<n;++k) if (std::abs(A(k,i))>std::abs(A(p,i))) p=k; for (int j=0;j<n;++j) std::swap(A(i,j),A(p,j)); std::swap(b[i],b[p]); for (int k=i+1;k<n;++k) { K f=A(k,i)/A(i,i); if (f==K(0)) continue; for (int j=i;j<n;++j) A(k,j)-=f*A(i,j); b[k]-=f*b[i]; } } for (int i=n-1;i>=0;--i) { for (int j=i+1;j<n;++j) b[i]-=A(i,j)*b[j]; b[i]/=A(i,i); } return b; }
template<class M> auto dense(const M& A) { using T=Tr<typename M::block_type>; constexpr int r=T::r; Dense<typename T::K> D(A.N()*r); for (auto i=A.begin();i!=A.end();++i) for (auto j=i->begin();j!=i->end();++j) for (int a=0;a<r;++a) for (int b=0;b<r;++b) D(i.index()*r+a,j.index()*r+b)=T::get(*j,a,b); return D; }
template<class K> Dense<K> blk(const Dense<K>& A, int i, int j, int r) { Dense<K> B(r); for (int a=0;a<r;++a) for (int b=0;b<r;++b) B(a,b)=A(i*r+a,j*r+b); return B; }
template<class K> Dense<K> inverse(const Dense<K>& A) { Dense<K> R(A.n); for (int j=0;j<A.n;++j) { std::vector<K> e(A.n,K(0)); e[j]=K(1); e=solve(A,e); for (int i=0;i<A.n;++i) R(i,j)=e[i]; } return R; }
template<class K> void put(Dense<K>& A, int i, int j, const Dense<K>& B) { for (int a=0;a<B.n;++a) for (int b=0;b<B.n;++b) A(i*B.n+a,j*B.n+b)=B(a,b); }
template<class T,class X> auto vec(const X& v) { std::vector<typename T::K> o; for (std::size_t i=0;i<v.size();++i) for (int a=0;a<T::r;++a) o.push_back(T::vget(v[i],a)); return o; }
template<class K> bool close(const std::vector<K>& a, const std::vector<K>& b, double tol=1e-8) { if (a.size()!=b.size()) return false; double s=1; for (auto& t:b) s=std::max(s,double(std::abs(t))); for (std::size_t i=0;i<a.size();++i) if (!(std::abs(a[i]-b[i])<=tol*s)) return false; return true; }
template<class K> std::string str(const std::vector<K>& a) { std::ostringstream s; for (std::size_t i=0;i<a.size()&&i<10;++i) s << a[i] << " "; return s.str(); }
template<class K> void setd(Rng& r, K& d, double s) { d = K(r.chance(50)?s:-s); if constexpr (!std::is_same_v<K,double>) d += K(0,r.small()); }
template<class K,int n> void setd(Rng& r, FieldMatrix<K,n,n>& d, double s) { fillv(r,d); for (int i=0;i<n;++i) setd(r,d[i][i],s+4*n); }
template<class B> void fillDiag(Rng& r, BCRSMatrix<B>& A, bool dom=true) { fillm(r,A); for (std::size_t i=0;i<A.N();++i) setd(r,A[i][i], dom ? 4.0*(1+A[i].size()) : 2.0); }
// random sizes include a few larger ones
inline std::size_t sz(Rng& r, std::uint64_t no, int bs) { std::size_t n = no<40 ? r.in(1,4) : std::max<std::size_t>(1,randomSize(r,no)); return std::min<std::size_t>(n, 60/bs); }
// split the stored factors into the triangular matrices they stand for (diagonal blocks hold inverses)
template<class K> void split(const Dense<K>& F, int r, Dense<K>& L, Dense<K>& U, bool invd) { int n=F.n/r; for (int i=0;i<n;++i) for (int j=0;j<n;++j) { auto b=blk(F,i,j,r); if (j<i) put(L,i,j,b); else if (j>i) put(U,i,j,b); else { Dense<K> I(r); for (int a=0;a<r;++a) I(a,a)=K(1); put(L,i,i,I); put(U,i,i,invd?inverse(b):b); } } }
template<class K> K amax(const Dense<K>& A) { double m=1; for (auto& t:A.a) m=std::max(m,double(std::abs(t))); return K(m); }
template<class B> struct Problem { using T=Tr<B>; using K=typename T::K; using M=BCRSMatrix<B>; using V=BlockVector<typename T::V>; };
template<class M> Pattern patternOf(const M& A) { Pattern p(A.N()); for (auto i=A.begin();i!=A.end();++i) for (auto j=i->begin();j!=i->end();++j) p[i.index()].push_back(j.index()); return p; }
// pattern of the level-n factorization: an entry created by rows i and k gets the level of (k,j) plus one
inline Pattern levels(const Pattern& p, int n) { std::size_t N=p.size(); std::vector<std::map<std::size_t,int>> lev(N); Pattern out(N);
  for (std::size_t i=0;i<N;++i) { auto& m=lev[i]; for (auto c:p[i]) m[c]=0; for (auto it=m.begin();it->first<i;++it) if (it->second<n) for (auto& e:lev[it->first]) if (e.first>it->first && e.second<n && !m.count(e.first)) m[e.first]=e.second+1; for (auto& e:m) out[i].push_back(e.first); } return out; }
template<class M> void checkLU(const M& F, const M& A, const char* what) { using T=Tr<typename M::block_type>; using K=typename T::K; constexpr int r=T::r; auto D=dense(F); Dense<K> L(D.n),U(D.n); split(D,r,L,U,true); auto P=mul(L,U), R=dense(A); double tol=1e-8*std::abs(amax(R)); 
  for (auto i=F.begin();i!=F.end();++i) for (auto j=i->begin();j!=i->end();++j) for (int a=0;a<r;++a) for (int b=0;b<r;++b) { int x=i.index()*r+a,y=j.index()*r+b; CHECK(std::abs(P(x,y)-R(x,y))<=tol,what,": (LU)(",x,",",y,")=",P(x,y)," A=",R(x,y)); } }
template<class B> void ilu(Case& c) { Rng& r=c.rng; using P=Problem<B>; using M=typename P::M; using T=typename P::T; using K=typename P::K; using V=typename P::V; std::size_t N=sz(r,c.no,T::r);
  M A; auto p=randomPattern(r,N,N,true); buildAny(r,A,p,N); fillDiag(r,A); auto A0=A; int n=r.in(-1,4); c.desc << "ILU level " << n << " n=" << N << " block " << T::r << " pattern " << show(p);
  M F; if (n<0) { F=A; ILU::blockILU0Decomposition(F); n=0; } else { F.setBuildMode(M::row_wise); if (r.chance(50)) F.setSize(N,N); else F.setSize(N,N,N*N); ILU::blockILUDecomposition(static_cast<const M&>(A),n,F); }
  CHECK(patternOf(F)==levels(p,n),"pattern of the factorization"); for (std::size_t i=0;i<N;++i) for (auto j=A[i].begin();j!=A[i].end();++j) CHECK(*j==A0[i][j.index()],"matrix changed");
  checkLU(F,A,"ILU");
  // both back-solves return the solution of the stored triangular systems
  V v(N),d(N),v2(N); fillv(r,d); fillv(r,v); fillv(r,v2); auto d0=d; auto D=dense(F); Dense<K> L(D.n),U(D.n); split(D,T::r,L,U,true); auto x=solve(U,solve(L,vec<T>(d)));
  ILU::blockILUBacksolve(static_cast<const M&>(F),v,static_cast<const V&>(d)); CHECK(close(vec<T>(v),x),"ILU back-solve ",str(vec<T>(v))," want ",str(x));
  ILU::CRS<B> lo,up; std::vector<B> iv; ILU::convertToCRS(static_cast<const M&>(F),lo,up,iv);
  CHECK(lo.rows()==N && up.rows()==N && iv.size()==N,"sizes of the compressed rows");
  for (std::size_t i=0;i<N;++i) { std::size_t k=lo.rows_[i]; for (auto j=F[i].begin();j!=F[i].end();++j) if (j.index()<i) { CHECK(k<lo.rows_[i+1] && lo.cols_[k]==j.index() && lo.values_[k]==*j,"lower row ",i); ++k; } else if (j.index()==i) CHECK(iv[N-1-i]==*j,"inverse diagonal ",i); CHECK(k==lo.rows_[i+1],"lower row end ",i);
    k=up.rows_[N-1-i]; for (auto j=F[i].beforeEnd();j!=F[i].beforeBegin();--j) if (j.index()>i) { CHECK(k<up.rows_[N-i] && up.cols_[k]==j.index() && up.values_[k]==*j,"upper row ",i); ++k; } CHECK(k==up.rows_[N-i],"upper row end ",i); }
  ILU::blockILUBacksolve(lo,up,iv,v2,static_cast<const V&>(d)); CHECK(close(vec<T>(v2),x),"compressed back-solve ",str(vec<T>(v2))," want ",str(x)); for (std::size_t i=0;i<N;++i) CHECK(d[i]==d0[i],"defect changed");
  // preconditioner
  bool resort=r.chance(50); double w=r.chance(40)?1.0:r.in(1,24)/16.0; auto check=[&](auto& pc){ V y(N),b(d); fillv(r,y); pc.pre(y,b); pc.apply(y,static_cast<const V&>(b)); auto z=x; for (auto& t:z) t*=w; CHECK(close(vec<T>(y),z),"SeqILU resort=",resort," w=",w," got ",str(vec<T>(y))," want ",str(z)); for (std::size_t i=0;i<N;++i) CHECK(b[i]==d0[i],"defect changed by SeqILU"); pc.post(y); CHECK(pc.category()==SolverCategory::sequential,"category"); };
  if (r.chance(30) && n==0) { SeqILU<M,V,V> q(A,w,resort); check(q); } else { SeqILU<M,V,V> q(A,n,w,resort); check(q); } }
template<class B> B transposed(const B& b) { return b; }
template<class K,int n> FieldMatrix<K,n,n> transposed(const FieldMatrix<K,n,n>& b) { FieldMatrix<K,n,n> t; for (int i=0;i<n;++i) for (int j=0;j<n;++j) t[i][j]=b[j][i]; return t; }
template<class B> void ildl(Case& c) { Rng& r=c.rng; using P=Problem<B>; using M=typename P::M; using T=typename P::T; using K=typename P::K; using V=typename P::V; std::size_t N=sz(r,c.no,T::r); constexpr int bs=T::r;
  auto q=randomPattern(r,N,N,true); Pattern p(N); for (std::size_t i=0;i<N;++i) for (std::size_t j=0;j<N;++j) { auto has=[&](std::size_t a,std::size_t b){ return std::find(q[a].begin(),q[a].end(),b)!=q[a].end(); }; if (has(std::max(i,j),std::min(i,j))) p[i].push_back(j); }
  M A; buildAny(r,A,p,N); fillDiag(r,A); for (std::size_t i=0;i<N;++i) for (auto j=A[i].begin();j!=A[i].end();++j) { if (j.index()<i) A[j.index()][i]=transposed(*j); if (j.index()==i) { auto t=transposed(*j); *j+=t; } }
  M L(A); auto A0=A; c.desc << "ILDL n=" << N << " block " << bs << " pattern " << show(p); bildl_decompose(L);
  auto D=dense(L), R=dense(A); Dense<K> Lo(D.n),Di(D.n),Lt(D.n); for (std::size_t i=0;i<N;++i) for (std::size_t j=0;j<=i;++j) { auto b=blk(D,i,j,bs); if (j<i) put(Lo,i,j,b); else { put(Di,i,i,inverse(b)); for (int a=0;a<bs;++a) Lo(i*bs+a,i*bs+a)=K(1); } }
  for (int i=0;i<D.n;++i) for (int j=0;j<D.n;++j) Lt(i,j)=Lo(j,i);
  auto F=mul(mul(Lo,Di),Lt); double tol=1e-8*std::abs(amax(R)); for (std::size_t i=0;i<N;++i) for (auto j=A[i].begin();j!=A[i].end()&&j.index()<=i;++j) for (int a=0;a<bs;++a) for (int b=0;b<bs;++b) { int x=i*bs+a,y=j.index()*bs+b; CHECK(std::abs(F(x,y)-R(x,y))<=tol,"(LDL^T)(",x,",",y,")=",F(x,y)," A=",R(x,y)); }
  V v(N),d(N); fillv(r,d); fillv(r,v); auto x=solve(F,vec<T>(d)); bildl_backsolve(static_cast<const M&>(L),v,static_cast<const V&>(d)); CHECK(close(vec<T>(v),x),"ILDL back-solve ",str(vec<T>(v))," want ",str(x));
  // only the lower triangle stored
  Pattern lp(N); for (std::size_t i=0;i<N;++i) for (auto j:p[i]) if (j<=i) lp[i].push_back(j); M S; buildAny(r,S,lp,N); for (std::size_t i=0;i<N;++i) for (auto j=S[i].begin();j!=S[i].end();++j) *j=L[i][j.index()];
  V v2(N); fillv(r,v2); bildl_backsolve(static_cast<const M&>(S),v2,static_cast<const V&>(d),true); CHECK(close(vec<T>(v2),x),"ILDL back-solve with lower triangle ",str(vec<T>(v2))," want ",str(x));
  V v3(N); fillv(r,v3); bildl_backsolve(static_cast<const M&>(S),v3,static_cast<const V&>(d),false); CHECK(close(vec<T>(v3),x),"ILDL back-solve, flag off, lower triangle ",str(vec<T>(v3)));
  double w=r.chance(40)?1.0:r.in(1,24)/16.0; SeqILDL<M,V,V> pc(A,w); V y(N),b(d); fillv(r,y); pc.pre(y,b); pc.apply(y,static_cast<const V&>(b)); pc.post(y); auto z=x; for (auto& t:z) t*=w; CHECK(close(vec<T>(y),z),"SeqILDL w=",w," ",str(vec<T>(y))," want ",str(z)); CHECK(pc.category()==SolverCategory::sequential,"category");
  for (std::size_t i=0;i<N;++i) { CHECK(b[i]==d[i],"defect changed"); for (auto j=A[i].begin();j!=A[i].end();++j) CHECK(*j==A0[i][j.index()],"matrix changed"); } }
template<class B> void dilu(Case& c) { Rng& r=c.rng; using P=Problem<B>; using M=typename P::M; using T=typename P::T; using K=typename P::K; using V=typename P::V; std::size_t N=sz(r,c.no,T::r); constexpr int bs=T::r;
  M A; auto p=randomPattern(r,N,N,true); buildAny(r,A,p,N); fillDiag(r,A); auto A0=A; c.desc << "DILU n=" << N << " block " << bs << " pattern " << show(p); std::vector<B> Di(N); if (r.chance(50)) for (auto& b:Di) fillv(r,b); DILU::blockDILUDecomposition(A,Di);
  auto R=dense(A); Dense<K> L(R.n),U(R.n),D(R.n),DI(R.n); for (std::size_t i=0;i<N;++i) { Dense<K> b(bs); for (int a=0;a<bs;++a) for (int e=0;e<bs;++e) b(a,e)=T::get(Di[i],a,e); put(DI,i,i,b); auto d=inverse(b); put(D,i,i,d); put(L,i,i,d); put(U,i,i,d); for (std::size_t j=0;j<N;++j) if (j<i) put(L,i,j,blk(R,i,j,bs)); else if (j>i) put(U,i,j,blk(R,i,j,bs)); }
  auto F=mul(mul(L,DI),U); double tol=1e-8*std::abs(amax(R)); for (std::size_t i=0;i<N;++i) for (int a=0;a<bs;++a) for (int e=0;e<bs;++e) { int x=i*bs+a,y=i*bs+e; CHECK(std::abs(F(x,y)-R(x,y))<=tol,"diagonal of (D+L)D^-1(D+U) at ",x,",",y,": ",F(x,y)," A=",R(x,y)); }
  V v(N),d(N); fillv(r,d); fillv(r,v); auto d0=d; auto x=solve(F,vec<T>(d)); 
  if constexpr (bs>1 || !std::is_same_v<B,K>) { DILU::blockDILUBacksolve(static_cast<const M&>(A),Di,v,static_cast<const V&>(d)); CHECK(close(vec<T>(v),x),"DILU back-solve ",str(vec<T>(v))," want ",str(x));
    double w=r.chance(40)?1.0:r.in(1,24)/16.0; SeqDILU<M,V,V> pc(A,w); V y(N),b(d); fillv(r,y); pc.pre(y,b); pc.apply(y,static_cast<const V&>(b)); pc.post(y); auto z=x; for (auto& t:z) t*=w; CHECK(close(vec<T>(y),z),"SeqDILU w=",w," ",str(vec<T>(y))," want ",str(z)); CHECK(pc.category()==SolverCategory::sequential,"category"); for (std::size_t i=0;i<N;++i) CHECK(b[i]==d0[i],"defect changed"); }
  for (std::size_t i=0;i<N;++i) { CHECK(d[i]==d0[i],"defect changed"); for (auto j=A[i].begin();j!=A[i].end();++j) CHECK(*j==A0[i][j.index()],"matrix changed"); } }
void register_sections() {
  using F1=FieldMatrix<double,1,1>; using F2=FieldMatrix<double,2,2>; using F3=FieldMatrix<double,3,3>; using C=std::complex<double>; using FC=FieldMatrix<C,2,2>;
  section("ilu",ilu<double>,3); section("ilu1",ilu<F1>,2); section("ilu2",ilu<F2>,3); section("iluc",ilu<C>); section("ilu3",ilu<F3>); section("ilu2c",ilu<FC>);
  section("ildl",ildl<double>,2); section("ildl2",ildl<F2>,2); section("ildlc",ildl<C>); section("ildl3",ildl<F3>); section("dilu",dilu<double>,2); section("dilu1",dilu<F1>); section("dilu2",dilu<F2>,2); section("diluc",dilu<FC>); section("dilu3",dilu<F3>); }
NATIVE_MAIN
