#include "gen.hh"
#include <dune/istl/matrix.hh>
#include <dune/istl/scaledidmatrix.hh>
#include <dune/istl/multitypeblockmatrix.hh>
#include <dune/istl/multitypeblockvector.hh>
using namespace Dune; using namespace nat; using namespace Dune::Indices;
template<class K> K cj(K x) { return x; }
template<class R> std::complex<R> cj(std::complex<R> x) { return std::conj(x); }
// ---- generic access to scalars
template<class K> struct Blk { static constexpr int r=1,c=1; static K& at(K& b,int,int){return b;} using XV=K; using YV=K; using F=K; };
template<class T,int R,int C> struct Blk<FieldMatrix<T,R,C>> { static constexpr int r=R,c=C; using F=T; static T& at(FieldMatrix<T,R,C>& b,int i,int j){return b[i][j];} using XV=FieldVector<T,C>; using YV=FieldVector<T,R>; };
template<class K> K& vat(K& v,int){return v;} template<class K,int n> K& vat(FieldVector<K,n>& v,int i){return v[i];}
template<class K> using Dense=std::vector<std::vector<K>>;
template<class B,class K> Dense<K> dense(Matrix<B>& A) { const int r=Blk<B>::r,c=Blk<B>::c; Dense<K> d(A.N()*r,std::vector<K>(A.M()*c)); for (std::size_t i=0;i<A.N();++i) for (std::size_t j=0;j<A.M();++j) for (int a=0;a<r;++a) for (int b=0;b<c;++b) d[i*r+a][j*c+b]=Blk<B>::at(A[i][j],a,b); return d; }
template<class V,class K> std::vector<K> flatv(V& v) { std::vector<K> o; for (std::size_t i=0;i<v.size();++i) { if constexpr (std::is_same_v<std::decay_t<decltype(v[i])>,K>) o.push_back(v[i]); else for (auto& z:v[i]) o.push_back(z); } return o; }
static const char* nm[]={"mv","umv","mmv","usmv","mtv","umtv","mmtv","usmtv","umhv","mmhv","usmhv"};
template<class K> std::vector<K> ref(int op, const Dense<K>& D, std::size_t rows, std::size_t cols, K al, const std::vector<K>& x, const std::vector<K>& y0) {
  bool tr=op>=4,h=op>=8,us=op==3||op==7||op==10,mi=op==2||op==6||op==9,z=op==0||op==4; std::vector<K> y=y0; if (z) for (auto& t:y) t=K(0);
  for (std::size_t i=0;i<rows;++i) for (std::size_t j=0;j<cols;++j) { K a=D[i][j]; if (h) a=cj(a); K t=tr?a*x[i]:a*x[j]; if (us) t=al*t; if (mi) t=-t; (tr?y[j]:y[i])+=t; } return y; }
template<class M,class X,class Y,class K> void apply(int op,const M& A,K al,X& x,Y& y) { if constexpr (true) switch(op) { case 0:A.mv(x,y);break; case 1:A.umv(x,y);break; case 2:A.mmv(x,y);break; case 3:A.usmv(al,x,y);break; } }
template<class M,class X,class Y,class K> void applyT(int op,const M& A,K al,Y& y,X& x) { switch(op) { case 4:A.mtv(y,x);break; case 5:A.umtv(y,x);break; case 6:A.mmtv(y,x);break; case 7:A.usmtv(al,y,x);break; case 8:A.umhv(y,x);break; case 9:A.mmhv(y,x);break; case 10:A.usmhv(al,y,x);break; } }
template<class B> void fillM(Rng& r, Matrix<B>& A) { for (std::size_t i=0;i<A.N();++i) for (std::size_t j=0;j<A.M();++j) fillv(r,A[i][j]); }
template<class B> Matrix<B> make(Rng& r, std::size_t n, std::size_t m) { Matrix<B> A; switch(r.in(0,2)) { case 0: A=Matrix<B>(n,m); break; case 1: A.setSize(n,m); break; default: A=Matrix<B>(r.in(0,3),r.in(0,3)); A.setSize(n,m); } fillM(r,A); return A; }
template<class K> bool eqv(const std::vector<K>& a,const std::vector<K>& b) { return a==b; }
template<class K> bool eqd(const Dense<K>& a,const Dense<K>& b) { return a==b; }
template<class B> void products(Case& c) {
  using T=Blk<B>; using K=typename T::F; Rng& r=c.rng; std::size_t n=r.in(0,c.no<30?2:9),m=r.in(0,c.no<30?2:9); auto A=make<B>(r,n,m); const auto D=dense<B,K>(A);
  BlockVector<typename T::XV> x(m); BlockVector<typename T::YV> y(n); fillv(r,x); fillv(r,y); auto fx=flatv<decltype(x),K>(x), fy=flatv<decltype(y),K>(y); K al=RandK<K>::get(r); int op=r.in(0,10);
  c.desc << nm[op] << " " << n << "x" << m << " alpha=" << al; const auto& CA=A;
  if (op<4) { apply(op,CA,al,x,y); auto w=ref<K>(op,D,n*T::r,m*T::c,al,fx,fy); CHECK((eqv<K>(flatv<decltype(y),K>(y),w)),"result of ",nm[op]); CHECK((flatv<decltype(x),K>(x)==fx),"x changed"); }
  else { applyT(op,CA,al,y,x); auto w=ref<K>(op,D,n*T::r,m*T::c,al,fy,fx); CHECK((eqv<K>(flatv<decltype(x),K>(x),w)),"result of ",nm[op]); CHECK((flatv<decltype(y),K>(y)==fy),"x changed"); }
  CHECK((eqd<K>(dense<B,K>(A),D)),"matrix changed"); CHECK(A.N()==n&&A.M()==m,"shape"); }
template<class B> void arith(Case& c) {
  using K=typename Blk<B>::F; Rng& r=c.rng; std::size_t n=r.in(0,c.no<30?2:7),m=r.in(0,c.no<30?2:7); auto A=make<B>(r,n,m),C=make<B>(r,n,m); auto D=dense<B,K>(A); const auto E=dense<B,K>(C); K k=RandK<K>::nz(r); int op=r.in(0,5); if (op==3) k=r.chance(50)?K(2):K(-4); c.desc << "arith " << op << " " << n << "x" << m << " k=" << k;
  switch(op) { case 0:A+=C;break; case 1:A-=C;break; case 2:A*=k;break; case 3:A/=k;break; case 4:A=k;break; case 5: { Matrix<B> t(C); A=t; break; } }
  auto G=dense<B,K>(A);
  for (std::size_t i=0;i<D.size();++i) for (std::size_t j=0;j<D[i].size();++j) { K w=D[i][j],o=E[i][j]; w= op==0?w+o:op==1?w-o:op==2?w*k:op==3?w/k:op==4?k:o; CHECK(G[i][j]==w,"entry ",i,",",j," got ",G[i][j]," want ",w); }
  CHECK((eqd<K>(dense<B,K>(C),E)),"operand changed"); }
template<class K> void dmul(Case& c) {
  Rng& r=c.rng; std::size_t n=r.in(0,c.no<30?2:6),m=r.in(0,c.no<30?2:6),q=r.in(0,c.no<30?2:6); auto A=make<K>(r,n,m); auto C=make<K>(r,m,q); const auto D=dense<K,K>(A), E=dense<K,K>(C); c.desc << "mm " << n << "x" << m << "x" << q; const auto& CA=A; const auto& CC=C;
  auto P=CA*CC; CHECK(P.N()==n&&P.M()==q,"shape ",P.N(),"x",P.M()); for (std::size_t i=0;i<n;++i) for (std::size_t j=0;j<q;++j) { K s(0); for (std::size_t k=0;k<m;++k) s+=D[i][k]*E[k][j]; CHECK(P[i][j]==s,"product entry ",i,",",j); }
  auto T=CA.transpose(); CHECK(T.N()==m&&T.M()==n,"shape of transpose"); for (std::size_t i=0;i<n;++i) for (std::size_t j=0;j<m;++j) CHECK(T[j][i]==D[i][j],"transpose entry");
  BlockVector<K> x(m); fillv(r,x); auto y=operator*<BlockVector<K>,BlockVector<K>>(CA,x); CHECK(y.size()==n,"size"); for (std::size_t i=0;i<n;++i) { K s(0); for (std::size_t k=0;k<m;++k) s+=D[i][k]*x[k]; CHECK(y[i]==s,"matrix*vector entry ",i); }
  CHECK((eqd<K>(dense<K,K>(A),D)&&eqd<K>(dense<K,K>(C),E)),"operand changed");
  std::size_t ni=0; if (m>0) for (auto row=A.begin();row!=A.end();++row,++ni) { CHECK(row.index()==ni,"row index"); std::size_t nj=0; for (auto e=row->begin();e!=row->end();++e,++nj) CHECK(*e==D[ni][nj]&&e.index()==nj,"iteration"); CHECK(nj==m,"row length"); }
  if (m>0) CHECK(ni==n,"row count");
  double f=0,inf=0; for (std::size_t i=0;i<n;++i) { double s=0; for (std::size_t j=0;j<m;++j) { f+=std::norm(D[i][j]); s+=std::abs(D[i][j]); } inf=std::max(inf,s); }
  CHECK(std::abs(A.frobenius_norm2()-f)<=1e-9*(1+f),"frobenius"); CHECK(std::abs(A.infinity_norm()-inf)<=1e-9*(1+inf),"inf norm"); }
void life(Case& c) { Rng& r=c.rng; std::vector<Matrix<double>> v(3); std::vector<Dense<double>> m(3); std::vector<std::size_t> mc(3,0); int steps=r.in(1,20);
  for (int s=0;s<steps;++s) { int i=r.in(0,2),j=r.in(0,2),op=r.in(0,4); c.desc << op << i << j << " "; switch(op) { case 0: { std::size_t a=r.in(0,4),b=r.in(0,4); v[i].setSize(a,b); fillM(r,v[i]); m[i]=dense<double,double>(v[i]); mc[i]=b; m[i].resize(a); break; }
    case 1: v[i]=v[j]; m[i]=m[j]; mc[i]=mc[j]; break; case 2: { Matrix<double> t(v[j]); v[i]=t; m[i]=m[j]; mc[i]=mc[j]; break; } case 3: std::swap(v[i],v[j]); std::swap(m[i],m[j]); std::swap(mc[i],mc[j]); break; case 4: { double k=r.small(); v[i]=k; for (auto& a:m[i]) for (auto& b:a) b=k; break; } }
    for (int q=0;q<3;++q) { CHECK(v[q].N()==m[q].size()&&v[q].M()==mc[q],"shape of ",q); CHECK((dense<double,double>(v[q])==m[q]),"matrix ",q," after step ",s); } } }
template<class K,int n> void sim(Case& c) { Rng& r=c.rng; K k=RandK<K>::nz(r),al=RandK<K>::get(r); ScaledIdentityMatrix<K,n> A(k); FieldVector<K,n> x,y; fillv(r,x); fillv(r,y); int op=r.in(0,10); c.desc << "sim " << nm[op] << " k=" << k << " alpha=" << al;
  Dense<K> D(n,std::vector<K>(n,K(0))); for (int i=0;i<n;++i) D[i][i]=k; std::vector<K> fx(x.begin(),x.end()),fy(y.begin(),y.end()); auto w=ref<K>(op,D,n,n,al,fx,fy); if (op<4) apply(op,A,al,x,y); else applyT(op,A,al,x,y);
  for (int i=0;i<n;++i) { CHECK(y[i]==w[i],"entry ",i," got ",y[i]," want ",w[i]); CHECK(x[i]==fx[i],"x changed"); } CHECK(A.scalar()==k,"matrix changed");
  int ii=0; for (auto row=A.begin();row!=A.end();++row,++ii) { int cnt=0; for (auto e=(*row).begin();e!=(*row).end();++e,++cnt) CHECK(e.index()==std::size_t(ii)&&*e==k,"row iteration"); CHECK(cnt==1,"one entry per row"); } CHECK(ii==n,"rows");
  for (int i=0;i<n;++i) for (int j=0;j<n;++j) CHECK(A.exists(i,j)==(i==j),"exists"); }
template<class A1,class K> void denseOf(A1& B, Dense<K>& D, std::size_t r0, std::size_t c0) { for (auto row=B.begin();row!=B.end();++row) for (auto e=row->begin();e!=row->end();++e) { using E=std::decay_t<decltype(*e)>; for (int a=0;a<Blk<E>::r;++a) for (int b=0;b<Blk<E>::c;++b) D[r0+row.index()*Blk<E>::r+a][c0+e.index()*Blk<E>::c+b]=Blk<E>::at(*e,a,b); } }
template<class K> void mtbm(Case& c) { Rng& r=c.rng; using V1=BlockVector<FieldVector<K,1>>; using V2=BlockVector<FieldVector<K,2>>; using X=MultiTypeBlockVector<V1,V2>;
  using M=MultiTypeBlockMatrix<MultiTypeBlockVector<BCRSMatrix<FieldMatrix<K,2,1>>,BCRSMatrix<FieldMatrix<K,2,2>>>,MultiTypeBlockVector<BCRSMatrix<FieldMatrix<K,1,1>>,BCRSMatrix<FieldMatrix<K,1,2>>>>; using Y=MultiTypeBlockVector<V2,V1>;
  std::size_t n0=r.in(0,4),n1=r.in(0,4),m0=r.in(0,4),m1=r.in(0,4); M A; auto bld=[&](auto& B,std::size_t n,std::size_t m){ auto p=randomPattern(r,n,m); buildAny(r,B,p,m); fillm(r,B); };
  bld(A[_0][_0],n0,m0); bld(A[_0][_1],n0,m1); bld(A[_1][_0],n1,m0); bld(A[_1][_1],n1,m1); std::size_t RN=2*n0+n1, CN=m0+2*m1; Dense<K> D(RN,std::vector<K>(CN,K(0))); denseOf(A[_0][_0],D,0,0); denseOf(A[_0][_1],D,0,m0); denseOf(A[_1][_0],D,2*n0,0); denseOf(A[_1][_1],D,2*n0,m0);
  X x; Y y; x[_0].resize(m0); x[_1].resize(m1); y[_0].resize(n0); y[_1].resize(n1); fillv(r,x[_0]); fillv(r,x[_1]); fillv(r,y[_0]); fillv(r,y[_1]); auto fl=[&](auto& v){ auto a=flatv<std::decay_t<decltype(v[_0])>,K>(v[_0]); auto b=flatv<std::decay_t<decltype(v[_1])>,K>(v[_1]); a.insert(a.end(),b.begin(),b.end()); return a; };
  auto fx=fl(x),fy=fl(y); K al=RandK<K>::get(r); int op=r.in(0,14); c.desc << "mtbm op=" << op << " " << n0 << "," << n1 << " x " << m0 << "," << m1 << " alpha=" << al;
  if (op<4) { apply(op,A,al,x,y); CHECK(fl(y)==ref<K>(op,D,RN,CN,al,fx,fy),"result of ",nm[op]); CHECK(fl(x)==fx,"x changed"); }
  else if (op<11) { applyT(op,A,al,y,x); CHECK(fl(x)==ref<K>(op,D,RN,CN,al,fy,fx),"result of ",nm[op]); CHECK(fl(y)==fy,"x changed"); }
  else { M B(A); K k=K(2); if (op==11) A*=k; else if (op==12) A/=k; else { if (op==13) { A+=B; } else { B*=K(4); A-=B; } } K f = op==11?k:op==12?K(1)/k:op==13?K(2):K(-3); for (auto& a:D) for (auto& b:a) b*=f; }
  Dense<K> E(RN,std::vector<K>(CN,K(0))); denseOf(A[_0][_0],E,0,0); denseOf(A[_0][_1],E,0,m0); denseOf(A[_1][_0],E,2*n0,0); denseOf(A[_1][_1],E,2*n0,m0); CHECK(E==D,"matrix entries after op ",op);
  double f=0,inf=0; for (auto& a:D) for (auto& b:a) f+=std::norm(b); CHECK(std::abs(A.frobenius_norm2()-f)<=1e-9*(1+f),"frobenius"); }
void register_sections() { section("products", products<double>,3); section("productsc", products<std::complex<double>>,2); section("products23", products<FieldMatrix<double,2,3>>,2); section("products21c", products<FieldMatrix<std::complex<double>,2,1>>);
  section("arith", arith<double>,2); section("arith23", arith<FieldMatrix<double,2,3>>); section("arithc", arith<std::complex<double>>); section("mm", dmul<double>,2); section("mmc", dmul<std::complex<double>>); section("life", life);
  section("sim", sim<double,3>); section("simc", sim<std::complex<double>,2>); section("mtbm", mtbm<double>,2); section("mtbmc", mtbm<std::complex<double>>,2); }
NATIVE_MAIN
