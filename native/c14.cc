#include "gen.hh"
#include <dune/istl/bdmatrix.hh>
#include <dune/istl/btdmatrix.hh>
using namespace Dune; using namespace nat;
using C=std::complex<double>;
template<class B> struct Tr { using K=B; using V=B; static constexpr int n=1; static K& e(B& b,int,int) { return b; } static K& v(V& x,int) { return x; } };
template<class F,int m> struct Tr<FieldMatrix<F,m,m>> { using K=F; using V=FieldVector<F,m>; static constexpr int n=m; static K& e(FieldMatrix<F,m,m>& b,int i,int j) { return b[i][j]; } static K& v(V& x,int i) { return x[i]; } };
template<class B> B mm(B a, B b) { using T=Tr<B>; B c(a); for (int i=0;i<T::n;++i) for (int j=0;j<T::n;++j) { typename T::K s(0); for (int k=0;k<T::n;++k) s+=T::e(a,i,k)*T::e(b,k,j); T::e(c,i,j)=s; } return c; }
template<class B,class V> void umv(B a, V x, V& y) { using T=Tr<B>; for (int i=0;i<T::n;++i) for (int k=0;k<T::n;++k) T::v(y,i)+=T::e(a,i,k)*T::v(x,k); }
template<class B> double nrm(B a) { using T=Tr<B>; double s=0; for (int i=0;i<T::n;++i) for (int j=0;j<T::n;++j) s+=std::abs(T::e(a,i,j)); return s; }
template<class B> bool same(B a,B b) { using T=Tr<B>; for (int i=0;i<T::n;++i) for (int j=0;j<T::n;++j) if (!(T::e(a,i,j)==T::e(b,i,j))) return false; return true; }
// a well conditioned block: unit triangular times dominant diagonal times unit triangular, rows permuted
template<class B> B good(Rng& r) { using T=Tr<B>; using K=typename T::K; const int n=T::n; B l(K(0)), u(K(0)); 
  for (int i=0;i<n;++i) for (int j=0;j<n;++j) { T::e(l,i,j) = i==j ? K(1) : i>j ? K(r.in(-1,1)) : K(0); T::e(u,i,j) = i==j ? RandK<K>::nz(r) : i<j ? RandK<K>::get(r) : K(0); }
  B p=mm<B>(l,u); if (n>1 && r.chance(40)) for (int j=0;j<n;++j) std::swap(T::e(p,0,j),T::e(p,n-1,j)); return p; }
template<class M> void pattern(const M& A, std::size_t n, bool tri) {
  CHECK(A.N()==n && A.M()==n,"size ",A.N()," ",A.M()," wanted ",n); std::size_t nnz=0, rows=0;
  for (auto r=A.begin(); r!=A.end(); ++r,++rows) { std::vector<std::size_t> w; std::size_t i=r.index(); if (tri && i>0) w.push_back(i-1); w.push_back(i); if (tri && i+1<n) w.push_back(i+1); std::vector<std::size_t> g; for (auto c=r->begin(); c!=r->end(); ++c) g.push_back(c.index()); CHECK(g==w,"row ",i," of ",n," has ",g.size()," entries"); nnz+=w.size(); }
  CHECK(rows==n,"rows ",rows); CHECK(A.nonzeroes()==nnz,"nonzeroes ",A.nonzeroes()," wanted ",nnz); }
template<class M,class B> M make(Case& c, std::size_t n, bool tri) {
  Rng& r=c.rng; int how=int(r.in(0,3)); c.desc << " how=" << how; using K=typename Tr<B>::K;
  if (how==0) { M A(n); return A; }
  M A; if (how==1) { std::size_t k=r.in(0,7); c.desc << " first " << k; A.setSize(k); pattern(A,k,tri); A=K(5); }
  if (how==2) { M D(std::size_t(r.in(1,6))); D=K(3); A=D; }
  A.setSize(n); return A; }
template<class B> void fill(Rng& r, B& b) { fillv(r,b); }
template<class B> void btd(Case& c) { using T=Tr<B>; using K=typename T::K; using V=typename T::V; using M=BTDMatrix<B>; Rng& r=c.rng;
  bool wild = r.chance(50); std::size_t n = wild ? r.in(1,5) : c.no<40 ? r.in(1,4) : r.chance(90) ? r.in(1,12) : r.in(10,80); c.desc << " n=" << n << " wild=" << wild; c.sig="n"+std::to_string(n)+"w"+std::to_string(wild)+"s"+std::to_string(c.no%64);
  M A=make<M,B>(c,n,true); pattern(A,n,true); std::vector<B> lo(n),di(n),ri(n), Cc(n);
  for (std::size_t i=0;i<n;++i) {
    B p=good<B>(r); fill(r,lo[i]); fill(r,Cc[i]); fill(r,ri[i]);
    if (wild) { di[i]=p; if (i>0) { B t=mm<B>(lo[i],Cc[i-1]); di[i]+=t; } ri[i]=mm<B>(p,Cc[i]); }
    else { fill(r,di[i]); for (int k=0;k<T::n;++k) T::e(di[i],k,k)+=K(r.chance(50)?40:-40); }
    if (i>0) A[i][i-1]=lo[i]; A[i][i]=di[i]; if (i+1<n) A[i][i+1]=ri[i]; }
  BlockVector<V> x(n), b(n), x0(n); fillv(r,x); fillv(r,x0);
  for (std::size_t i=0;i<n;++i) { b[i]=V(K(0)); V t(K(0)); umv<B,V>(di[i],x0[i],t); if (i>0) umv<B,V>(lo[i],x0[i-1],t); if (i+1<n) umv<B,V>(ri[i],x0[i+1],t); b[i]=t; }
  BlockVector<V> b0(b); const M& cA=A; const auto& cb=b; cA.solve(x,cb);
  double scale=1; for (std::size_t i=0;i<n;++i) for (int k=0;k<T::n;++k) scale=std::max(scale,std::abs(T::v(x0[i],k)));
  for (std::size_t i=0;i<n;++i) for (int k=0;k<T::n;++k) { K got=T::v(x[i],k), want=T::v(x0[i],k); CHECK(std::abs(got-want)<=(wild?1e-5:1e-9)*scale,"block ",i," component ",k," of the solution ",got," wanted ",want); CHECK(T::v(b[i],k)==T::v(b0[i],k),"right hand side changed at ",i); }
  pattern(A,n,true); for (std::size_t i=0;i<n;++i) { CHECK(same<B>(A[i][i],di[i]),"diagonal changed ",i); if (i>0) CHECK(same<B>(A[i][i-1],lo[i]),"lower changed ",i); if (i+1<n) CHECK(same<B>(A[i][i+1],ri[i]),"upper changed ",i); } 
  M E(A); pattern(E,n,true); E=K(2); for (std::size_t i=0;i<n;++i) CHECK(same<B>(A[i][i],di[i]),"copy shares entries at ",i); }
template<class B> void bd(Case& c) { using T=Tr<B>; using K=typename T::K; using V=typename T::V; using M=BDMatrix<B>; Rng& r=c.rng;
  std::size_t n = c.no<40 ? r.in(0,3) : r.in(0,20); c.desc << " n=" << n; c.sig="n"+std::to_string(n)+"s"+std::to_string(c.no%64);
  M A = n==3 && r.chance(50) ? M{good<B>(r),good<B>(r),good<B>(r)} : make<M,B>(c,n,false); pattern(A,n,false); std::vector<B> di(n);
  for (std::size_t i=0;i<n;++i) { if (r.chance(80) || n!=3) A[i][i]=good<B>(r); di[i]=A[i][i]; if (nrm<B>(di[i])==0) { A[i][i]=good<B>(r); di[i]=A[i][i]; } }
  if (n==3) for (auto& d : di) if (nrm<B>(d)==0) return;
  for (std::size_t i=0;i<n;++i) { di[i]=good<B>(r); A[i][i]=di[i]; }
  BlockVector<V> x(n), b(n), x0(n); fillv(r,x); fillv(r,x0); for (std::size_t i=0;i<n;++i) { V t(K(0)); umv<B,V>(di[i],x0[i],t); b[i]=t; }
  BlockVector<V> b0(b); const M& cA=A; const auto& cb=b; cA.solve(x,cb);
  for (std::size_t i=0;i<n;++i) { for (int k=0;k<T::n;++k) { CHECK(std::abs(T::v(x[i],k)-T::v(x0[i],k))<=1e-9*30,"block ",i," component ",k," of the solution ",T::v(x[i],k)," wanted ",T::v(x0[i],k)); CHECK(T::v(b[i],k)==T::v(b0[i],k),"right hand side changed at ",i); } CHECK(same<B>(A[i][i],di[i]),"diagonal changed ",i); }
  M E(A); E.invert(); pattern(E,n,false);
  for (std::size_t i=0;i<n;++i) { B p=mm<B>(E[i][i],di[i]); for (int a=0;a<T::n;++a) for (int d=0;d<T::n;++d) CHECK(std::abs(T::e(p,a,d)-K(a==d))<=1e-9,"inverse of block ",i," entry ",a,d); CHECK(same<B>(A[i][i],di[i]),"copy shares entries at ",i); } }
template<class B> void list(Case& c) { using K=typename Tr<B>::K; Rng& r=c.rng; B a=good<B>(r), b=good<B>(r), d=good<B>(r); BDMatrix<B> A{a,b,d}; c.desc << " list"; c.sig=std::to_string(c.no%8); pattern(A,3,false); CHECK(same<B>(A[0][0],a) && same<B>(A[1][1],b) && same<B>(A[2][2],d),"entries of the list",0); A=K(0); A=BDMatrix<B>{b,a}; pattern(A,2,false); CHECK(same<B>(A[0][0],b) && same<B>(A[1][1],a),"entries of the second list",0); }
int main(int argc, char** argv) {
  section("btd", btd<double>, 2); section("btd1", btd<FieldMatrix<double,1,1>>); section("btd2", btd<FieldMatrix<double,2,2>>, 2); section("btd3", btd<FieldMatrix<double,3,3>>); section("btdc", btd<C>); section("btdc2", btd<FieldMatrix<C,2,2>>);
  section("bd", bd<double>); section("bd1", bd<FieldMatrix<double,1,1>>); section("bd2", bd<FieldMatrix<double,2,2>>); section("bd3", bd<FieldMatrix<double,3,3>>); section("bdc", bd<C>); section("bdc2", bd<FieldMatrix<C,2,2>>); section("list", list<FieldMatrix<double,2,2>>); section("listd", list<double>);
  return nat::run(argc, argv); }
