#include "gen.hh"
using namespace Dune; using namespace nat;
template<class K> K cj(K x) { return x; }
template<class R> std::complex<R> cj(std::complex<R> x) { return std::conj(x); }
template<class B> struct Blk { using K=B; static constexpr int r=1,c=1; static B get(const B& b,int,int) { return b; } using XV=B; using YV=B; static B& at(B& v,int){return v;} static const B& at(const B& v,int){return v;} };
template<class T,int R,int C> struct Blk<FieldMatrix<T,R,C>> { using K=T; static constexpr int r=R,c=C; static T get(const FieldMatrix<T,R,C>& b,int i,int j){return b[i][j];} using XV=FieldVector<T,C>; using YV=FieldVector<T,R>;
  template<int N> static T& at(FieldVector<T,N>& v,int i){return v[i];} template<int N> static const T& at(const FieldVector<T,N>& v,int i){return v[i];} };
template<class B> void test(Case& c) {
  using T=Blk<B>; using K=typename T::K; Rng& r=c.rng;
  std::size_t n=randomSize(r,c.no), m=r.chance(30)?n:randomSize(r,c.no);
  Pattern p=randomPattern(r,n,m); BCRSMatrix<B> A; buildAny(r,A,p,m); fillm(r,A);
  const BCRSMatrix<B> A0(A);
  BlockVector<typename T::XV> x(m),x0,tx; BlockVector<typename T::YV> y(n),y0; fillv(r,x); fillv(r,y); x0=x; y0=y;
  K al=RandK<K>::get(r);
  int op=int(r.in(0,10)); static const char* nm[]={"mv","umv","mmv","usmv","mtv","umtv","mmtv","usmtv","umhv","mmhv","usmhv"};
  c.desc << nm[op] << " n=" << n << " m=" << m << " alpha=" << al << " rows=" << show(p);
  bool tr=op>=4, h=op>=8, us=op==3||op==7||op==10, mi=op==2||op==6||op==9, z=op==0||op==4;
  const int R=T::r,C=T::c;
  std::vector<K> want;
  if (!tr) { want.assign(n*R,K(0)); for (std::size_t i=0;i<n;++i) for (int a=0;a<R;++a) want[i*R+a]= z?K(0):T::at(y0[i],a); }
  else { want.assign(m*C,K(0)); for (std::size_t i=0;i<m;++i) for (int a=0;a<C;++a) want[i*C+a]= z?K(0):T::at(x0[i],a); }
  for (std::size_t i=0;i<n;++i) { std::size_t k=0; for (auto e=A0[i].begin(); e!=A0[i].end(); ++e,++k) { std::size_t j=p[i][k];
    for (int a=0;a<R;++a) for (int b=0;b<C;++b) { K v=T::get(*e,a,b); if (h) v=cj(v); K t = tr ? v*T::at(y0[i],a) : v*T::at(x0[j],b); if (us) t=al*t; if (mi) t=-t; if (tr) want[j*C+b]+=t; else want[i*R+a]+=t; } } }
  switch(op) { case 0:A.mv(x,y);break; case 1:A.umv(x,y);break; case 2:A.mmv(x,y);break; case 3:A.usmv(al,x,y);break;
    case 4:A.mtv(y,x);break; case 5:A.umtv(y,x);break; case 6:A.mmtv(y,x);break; case 7:A.usmtv(al,y,x);break; case 8:A.umhv(y,x);break; case 9:A.mmhv(y,x);break; case 10:A.usmhv(al,y,x);break; }
  if (!tr) { for (std::size_t i=0;i<n;++i) for (int a=0;a<R;++a) CHECK(T::at(y[i],a)==want[i*R+a], "row ",i," got ",T::at(y[i],a)," want ",want[i*R+a]); for (std::size_t i=0;i<m;++i) CHECK(x[i]==x0[i],"x changed at ",i); }
  else { for (std::size_t i=0;i<m;++i) for (int a=0;a<C;++a) CHECK(T::at(x[i],a)==want[i*C+a], "col ",i," got ",T::at(x[i],a)," want ",want[i*C+a]); for (std::size_t i=0;i<n;++i) CHECK(y[i]==y0[i],"x changed at ",i); }
  for (std::size_t i=0;i<n;++i) { auto e=A.begin(); auto f=A0[i].begin(); for (auto g=A[i].begin(); g!=A[i].end(); ++g,++f) CHECK(*g==*f && g.index()==f.index(), "matrix changed in row ",i); }
}
void register_sections() {
  section("double", test<double>, 3); section("complex", test<std::complex<double>>, 3); section("fm11", test<FieldMatrix<double,1,1>>);
  section("fm23", test<FieldMatrix<double,2,3>>); section("fm32c", test<FieldMatrix<std::complex<double>,3,2>>); section("fm31", test<FieldMatrix<double,3,1>>);
}
NATIVE_MAIN
