#include "gen.hh"
#include <dune/istl/vbvector.hh>
#include <dune/istl/multitypeblockvector.hh>
using namespace Dune; using namespace nat;
template<class K> K cj(K x) { return x; }
template<class R> std::complex<R> cj(std::complex<R> x) { return std::conj(x); }
inline double re(double x){return x;} inline double im(double){return 0;} template<class R> R re(std::complex<R> x){return x.real();} template<class R> R im(std::complex<R> x){return x.imag();}
template<class V> std::enable_if_t<std::is_same_v<V,double>||std::is_same_v<V,std::complex<double>>> flat(const V& v, std::vector<V>& o) { o.push_back(v); }
template<class T,int n,class K> void flat(const FieldVector<T,n>& v, std::vector<K>& o) { for (int i=0;i<n;++i) o.push_back(v[i]); }
template<class B,class A,class K> void flat(const BlockVector<B,A>& v, std::vector<K>& o) { for (std::size_t i=0;i<v.size();++i) flat(v[i],o); }
template<class B,class A,class K> void flat(const VariableBlockVector<B,A>& v, std::vector<K>& o) { for (std::size_t i=0;i<v.size();++i) for (std::size_t k=0;k<v[i].size();++k) flat(v[i][k],o); }
template<class A,class B,class K> void flat(const MultiTypeBlockVector<A,B>& v, std::vector<K>& o) { flat(std::get<0>(v),o); flat(std::get<1>(v),o); }
template<class B,class A> void fill2(Rng& r, BlockVector<B,A>& v) { fillv(r,v); }
template<class B,class A> void fill2(Rng& r, VariableBlockVector<B,A>& v) { for (std::size_t i=0;i<v.size();++i) for (std::size_t k=0;k<v[i].size();++k) fillv(r,v[i][k]); }
template<class A,class B> void fill2(Rng& r, MultiTypeBlockVector<A,B>& v) { fillv(r,std::get<0>(v)); fillv(r,std::get<1>(v)); }
template<class B,class A> void make(Case& c, BlockVector<B,A>& v) { std::size_t n=randomSize(c.rng,c.no); v.resize(n); c.desc << " n=" << n; if constexpr (requires { v[0].resize(1); }) for (std::size_t i=0;i<n;++i) v[i].resize(c.rng.in(0,3)); }
template<class B,class A> void make(Case& c, VariableBlockVector<B,A>& v) { std::size_t n=randomSize(c.rng,c.no);
  if (c.rng.chance(40)) { std::size_t s=c.rng.in(0,3); v=VariableBlockVector<B,A>(n,s); c.desc << " n=" << n << "x" << s; }
  else { v=VariableBlockVector<B,A>(n); c.desc << " blocks="; auto e=v.createend(); for (auto it=v.createbegin(); it!=e; ++it) { std::size_t s=c.rng.in(0,3); it.setblocksize(s); c.desc << s << ","; } if (n==0) v.resize(0,0); } }
template<class A,class B> void make(Case& c, MultiTypeBlockVector<A,B>& v) { make(c,std::get<0>(v)); make(c,std::get<1>(v)); }
bool near(double a,double b) { return std::abs(a-b) <= 1e-11*(1+std::abs(a)+std::abs(b)); }
template<class V,class K> void arith(Case& c) {
  Rng& r=c.rng; V x; make(c,x); V y(x); fill2(r,x); fill2(r,y); K k=RandK<K>::nz(r); if (r.chance(15)) k=K(0);
  int op=int(r.in(0,13)); if (op==4 && k==K(0)) k=K(2); if (op==4) k = r.chance(50)?K(2):K(-4);
  static const char* nm[]={"assign","+=","-=","*=","/=","axpy","tdot","dot","one","one_real","two","two2","inf","inf_real"}; c.desc << " op=" << nm[op] << " k=" << k;
  std::vector<K> a,b,w,g,b2; flat(x,a); flat(y,b); w=a; std::size_t N=a.size();
  K s(0); double d=0, got=0; bool scal=false, dbl=false; K gs(0);
  switch(op) {
    case 0: x=k; for (auto& z:w) z=k; break; case 1: x+=y; for (std::size_t i=0;i<N;++i) w[i]+=b[i]; break; case 2: x-=y; for (std::size_t i=0;i<N;++i) w[i]-=b[i]; break;
    case 3: x*=k; for (auto& z:w) z*=k; break; case 4: x/=k; for (auto& z:w) z/=k; break; case 5: x.axpy(k,y); for (std::size_t i=0;i<N;++i) w[i]+=k*b[i]; break;
    case 6: scal=true; gs=x*y; for (std::size_t i=0;i<N;++i) s+=a[i]*b[i]; break; case 7: scal=true; gs=x.dot(y); for (std::size_t i=0;i<N;++i) s+=cj(a[i])*b[i]; break;
    case 8: dbl=true; got=x.one_norm(); for (auto z:a) d+=std::abs(z); break; case 9: dbl=true; got=x.one_norm_real(); for (auto z:a) d+=std::abs(re(z))+std::abs(im(z)); break;
    case 10: dbl=true; got=x.two_norm(); for (auto z:a) d+=std::norm(z); d=std::sqrt(d); break; case 11: dbl=true; got=x.two_norm2(); for (auto z:a) d+=std::norm(z); break;
    case 12: dbl=true; got=x.infinity_norm(); for (auto z:a) d=std::max(d,double(std::abs(z))); break; case 13: dbl=true; got=x.infinity_norm_real(); for (auto z:a) d=std::max(d,std::abs(re(z))+std::abs(im(z))); break; }
  flat(x,g); flat(y,b2); CHECK(g.size()==w.size(),"size changed"); for (std::size_t i=0;i<N;++i) CHECK(g[i]==w[i],"entry ",i," got ",g[i]," want ",w[i]);
  for (std::size_t i=0;i<N;++i) CHECK(b2[i]==b[i],"second operand changed at ",i);
  if (scal) CHECK(gs==s,"got ",gs," want ",s); if (dbl) CHECK(near(got,d),"got ",got," want ",d);
  CHECK(x.dim()==N,"dim ",x.dim()," want ",N);
}
template<class B> void life(Case& c) { // histories of construction, resize, copy, move, swap
  Rng& r=c.rng; using K=typename FieldTraits<B>::field_type; std::vector<BlockVector<B>> v(3); std::vector<std::vector<B>> m(3); int steps=int(r.in(1,25));
  for (int s=0;s<steps;++s) { int i=int(r.in(0,2)), j=int(r.in(0,2)), op=int(r.in(0,7)); c.desc << op << i << j << " ";
    switch(op) { case 0: { std::size_t n=r.in(0,9); v[i].resize(n); m[i].resize(n,B(K(0))); break; } case 1: v[i].reserve(r.in(0,30)); break; case 2: v[i]=v[j]; m[i]=m[j]; break;
      case 3: if (i!=j) { v[i]=std::move(v[j]); std::swap(m[i],m[j]); m[j]=std::vector<B>(v[j].begin(),v[j].end()); } break; case 4: v[i].swap(v[j]); std::swap(m[i],m[j]); break;
      case 5: { BlockVector<B> t(v[j]); v[i]=t; m[i]=m[j]; break; } case 6: if (m[i].size()) { std::size_t k=r.in(0,long(m[i].size())-1); fillv(r,v[i][k]); m[i][k]=v[i][k]; } break;
      case 7: { K k=RandK<K>::get(r); v[i]=k; for (auto& z:m[i]) z=k; break; } }
    for (int q=0;q<3;++q) { CHECK(v[q].size()==m[q].size() && v[q].N()==m[q].size(),"size of ",q); std::size_t n=0; for (auto it=v[q].begin(); it!=v[q].end(); ++it,++n) { CHECK(it.index()==n,"index"); CHECK(*it==m[q][n] && v[q][n]==m[q][n],"vector ",q," entry ",n," step ",s); CHECK(v[q].find(n)==it,"find"); } CHECK(n==m[q].size(),"iteration length"); CHECK(v[q].find(n)==v[q].end(),"find past the end"); } } }
void vblife(Case& c) {
  Rng& r=c.rng; using B=FieldVector<double,2>; using V=VariableBlockVector<B>; std::vector<V> v(3); std::vector<std::vector<std::vector<B>>> m(3); int steps=int(r.in(1,20));
  for (int s=0;s<steps;++s) { int i=int(r.in(0,2)), j=int(r.in(0,2)), op=int(r.in(0,6)); c.desc << op << i << j << " ";
    auto full=[&](int i){ for (std::size_t a=0;a<m[i].size();++a) for (std::size_t b=0;b<m[i][a].size();++b) { fillv(r,v[i][a][b]); m[i][a][b]=v[i][a][b]; } };
    switch(op) { case 0: { std::size_t n=r.in(0,5), k=r.in(0,4); v[i].resize(n,k); m[i].assign(n,std::vector<B>(k)); full(i); break; }
      case 1: { std::size_t n=r.in(1,5); v[i].resize(n); m[i].assign(n,{}); auto e=v[i].createend(); for (auto it=v[i].createbegin(); it!=e; ++it) { std::size_t k=r.in(0,4); if (r.chance(50)) it.setblocksize(k); else *it=k; m[i][it.index()].resize(k); } full(i); break; }
      case 2: v[i]=v[j]; m[i]=m[j]; break; case 3: std::swap(v[i],v[j]); std::swap(m[i],m[j]); break; case 4: { V t(v[j]); v[i]=t; m[i]=m[j]; break; }
      case 5: { double k=r.small(); v[i]=k; for (auto& z:m[i]) for (auto& y:z) y=k; break; } case 6: full(i); break; }
    for (int q=0;q<3;++q) { CHECK(v[q].size()==m[q].size(),"blocks of ",q); std::size_t n=0, d=0; for (auto it=v[q].begin(); it!=v[q].end(); ++it,++n) { CHECK(it.index()==n,"index"); CHECK(it->size()==m[q][n].size(),"block size ",n," got ",it->size()); for (std::size_t k=0;k<m[q][n].size();++k) { CHECK((*it)[k]==m[q][n][k] && v[q][n][k]==m[q][n][k],"vector ",q," block ",n," entry ",k," step ",s); d+=2; } } CHECK(n==m[q].size(),"length"); CHECK(v[q].dim()==d,"dim"); } } }
void register_sections() {
  section("double", arith<BlockVector<double>,double>, 2); section("complex", arith<BlockVector<std::complex<double>>,std::complex<double>>, 2);
  section("fv3", arith<BlockVector<FieldVector<double,3>>,double>); section("fv2c", arith<BlockVector<FieldVector<std::complex<double>,2>>,std::complex<double>>);
  section("vbv", arith<VariableBlockVector<FieldVector<double,2>>,double>, 2); section("mtv", arith<MultiTypeBlockVector<BlockVector<double>,BlockVector<FieldVector<double,2>>>,double>, 2);
  section("mtvc", arith<MultiTypeBlockVector<BlockVector<std::complex<double>>,BlockVector<FieldVector<std::complex<double>,2>>>,std::complex<double>>, 2);
  section("vbvc", arith<VariableBlockVector<FieldVector<std::complex<double>,1>>,std::complex<double>>);
  section("nested", arith<BlockVector<BlockVector<FieldVector<double,1>>>,double>);
  section("life", life<double>, 2); section("life2", life<FieldVector<double,2>>); section("vblife", vblife, 2);
}
NATIVE_MAIN
