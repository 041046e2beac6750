#include "gen.hh"
#include <dune/istl/operators.hh>
#include <dune/istl/preconditioners.hh>
#include <dune/istl/paamg/pinfo.hh>
#include <dune/istl/paamg/aggregates.hh>
#include <dune/istl/paamg/transfer.hh>
#include <dune/istl/paamg/galerkin.hh>
#include <dune/istl/paamg/twolevelmethod.hh>
using namespace Dune; using namespace nat;
using C=std::complex<double>; using AM=Amg::AggregatesMap<std::size_t>; using SI=Amg::SequentialInformation; using Map=std::vector<long>;
struct NoSet { bool contains(int) const { return false; } };
template<class B> struct Tr { using K=B; using V=B; };
template<class F,int m> struct Tr<FieldMatrix<F,m,m>> { using K=F; using V=FieldVector<F,m>; };
struct Quiet { std::ostringstream s; std::streambuf* o; Quiet() : o(std::cout.rdbuf(s.rdbuf())) {} ~Quiet() { std::cout.rdbuf(o); } };
inline void set(AM& a, const Map& m) { for (std::size_t i=0;i<m.size();++i) a[i] = m[i]<0 ? AM::ISOLATED : std::size_t(m[i]); }
inline Map randomMap(Rng& r, std::size_t n, std::size_t nc) { int iso=int(r.in(0,3)*20); Map m(n); for (auto& x : m) x = nc==0 || r.chance(iso) ? -1 : r.in(0,long(nc)-1); return m; }
inline std::string show(const Map& m) { std::ostringstream s; for (auto x : m) s << x << ","; return s.str(); }
template<class B> void xfer(Case& c) { using V=typename Tr<B>::V; using K=typename Tr<B>::K; using X=BlockVector<V>; Rng& r=c.rng;
  std::size_t n=randomSize(r,c.no), nc=r.in(0,r.chance(70)?4:long(n)+2); Map m=randomMap(r,n,nc); c.desc << "n=" << n << " nc=" << nc << " map " << show(m); 
  AM a(n); set(a,m); X co(nc), fi(n), red(1); fillv(r,co); fillv(r,fi); fillv(r,red); X co0(co), fi0(fi); K d = r.chance(30) ? K(1) : K(r.dyad()); SI pi; bool two=r.chance(50);
  CHECK(AM::ISOLATED!=AM::UNAGGREGATED,"markers",0); for (std::size_t i=0;i<n;++i) CHECK(const_cast<const AM&>(a)[i]==(m[i]<0?AM::ISOLATED:std::size_t(m[i])),"map entry",i);
  if (two) Amg::Transfer<std::size_t,X,SI>::prolongateVector(a,co,fi,red,d,pi); else Amg::Transfer<std::size_t,X,SI>::prolongateVector(a,co,fi,d,pi);
  CHECK(fi.size()==n && co.size()==nc,"sizes",0);
  for (std::size_t i=0;i<n;++i) { V w=fi0[i]; if (m[i]>=0) { V t=co0[m[i]]; t*=d; w+=t; } CHECK(fi[i]==w,"fine entry ",i," is ",fi[i]," wanted ",w); }
  X f2(n); fillv(r,f2); X f20(f2); fillv(r,co); Amg::Transfer<std::size_t,X,SI>::restrictVector(a,co,f2,pi); CHECK(co.size()==nc,"coarse size",0);
  for (std::size_t j=0;j<nc;++j) { V w(K(0)); for (std::size_t i=0;i<n;++i) if (m[i]==long(j)) w+=f20[i]; CHECK(co[j]==w,"coarse entry ",j," is ",co[j]," wanted ",w); }
  for (std::size_t i=0;i<n;++i) CHECK(f2[i]==f20[i],"fine vector changed at ",i); }
template<class B,class M> void same(const M& F, const M& Cm, const Map& m, std::size_t nc) {
  using K=typename Tr<B>::K; std::map<std::pair<std::size_t,std::size_t>,B> w; std::set<std::pair<std::size_t,std::size_t>> seen;
  for (auto r=F.begin();r!=F.end();++r) for (auto k=r->begin();k!=r->end();++k) { long a=m[r.index()], b=m[k.index()]; if (a>=0 && b>=0) { auto it=w.emplace(std::make_pair(a,b),B(K(0))).first; it->second+=*k; } }
  CHECK(Cm.N()==nc && Cm.M()==nc,"coarse size ",Cm.N()," wanted ",nc);
  for (auto r=Cm.begin();r!=Cm.end();++r) for (auto k=r->begin();k!=r->end();++k) { auto it=w.find({r.index(),k.index()}); B want = it==w.end() ? B(K(0)) : it->second; CHECK(*k==want,"coarse entry ",r.index(),",",k.index()); CHECK(seen.insert({r.index(),k.index()}).second,"coarse entry twice ",r.index()); }
  for (auto& x : w) CHECK(seen.count(x.first),"coarse entry missing ",x.first.first,",",x.first.second);
  for (auto& x : seen) CHECK(w.count(x) || x.first==x.second,"coarse entry without fine entries ",x.first,",",x.second); }
template<class B> void gal(Case& c) { using M=BCRSMatrix<B>; Rng& r=c.rng; std::size_t n=randomSize(r,c.no); if (n==0) n=1; std::size_t nc=r.in(1,r.chance(70)?4:long(n)+2); Map m=randomMap(r,n,nc); Pattern p=randomPattern(r,n,n);
  c.desc << "n=" << n << " nc=" << nc << " map " << show(m) << " pattern " << show(p); AM a(n); set(a,m); M F, Cm; buildAny(r,F,p,n); fillm(r,F); M F0(F);
  std::vector<std::set<std::size_t>> q(nc); for (std::size_t i=0;i<nc;++i) q[i].insert(i); for (std::size_t i=0;i<n;++i) for (auto j : p[i]) if (m[i]>=0 && m[j]>=0) q[m[i]].insert(m[j]);
  Pattern cp; for (auto& s : q) cp.emplace_back(s.begin(),s.end()); buildAny(r,Cm,cp,nc); fillm(r,Cm); SI pi; Amg::BaseGalerkinProduct g; NoSet no; g.calculate(F,a,Cm,pi,no); if (r.chance(30)) { fillm(r,F); F0=F; g.calculate(F,a,Cm,pi,no); }
  same<B>(F,Cm,m,nc); for (auto i=F.begin();i!=F.end();++i) for (auto k=i->begin();k!=i->end();++k) CHECK(*k==F0[i.index()][k.index()],"fine matrix changed",i.index()); }
// connected aggregates numbered by their first vertex
inline Map growMap(Rng& r, const Pattern& p, std::size_t& nc) { std::size_t n=p.size(); int iso=int(r.in(0,2)*15); std::vector<bool> is(n); Map m(n,-2); for (std::size_t i=0;i<n;++i) is[i]=r.chance(iso); nc=0;
  for (std::size_t i=0;i<n;++i) { if (is[i]) { m[i]=-1; continue; } if (m[i]!=-2) continue; std::vector<std::size_t> st{i}; m[i]=long(nc); std::size_t want=r.in(1,r.chance(80)?5:20), got=1;
    while (got<want) { std::vector<std::size_t> cand; for (auto v : st) for (auto w : p[v]) if (m[w]==-2 && !is[w]) cand.push_back(w); if (cand.empty()) break; auto w=cand[r.in(0,long(cand.size())-1)]; m[w]=long(nc); st.push_back(w); ++got; } ++nc; }
  return m; }
inline Pattern symPattern(Rng& r, std::size_t n) { std::vector<std::set<std::size_t>> s(n); int k=int(r.in(0,3)); for (std::size_t i=0;i<n;++i) { s[i].insert(i); for (int t=0;t<k;++t) { std::size_t j= r.chance(60) ? std::size_t(std::min<long>(long(n)-1,long(i)+r.in(0,3))) : std::size_t(r.in(0,long(n)-1)); s[i].insert(j); s[j].insert(i); } } Pattern p; for (auto& x : s) p.emplace_back(x.begin(),x.end()); return p; }
template<class B> void build(Case& c) { using M=BCRSMatrix<B>; Rng& r=c.rng; std::size_t n = c.no<40 ? r.in(1,4) : r.chance(80) ? r.in(1,14) : r.in(10,80); Pattern p=symPattern(r,n); std::size_t nc; Map m=growMap(r,p,nc); if (nc==0) return;
  c.desc << "n=" << n << " nc=" << nc << " map " << show(m) << " pattern " << show(p); AM a(n); set(a,m); M F; buildAny(r,F,p,n); fillm(r,F);
  typedef Amg::MatrixGraph<M> G; G g(F); std::vector<bool> vis(n); for (std::size_t i=0;i<n;++i) vis[i]=r.chance(50); typedef IteratorPropertyMap<std::vector<bool>::iterator,IdentityMap> VM; VM vm(vis.begin(),IdentityMap());
  SI pi; Amg::GalerkinProduct<SI> gp; NoSet no; std::unique_ptr<M> Cm(gp.build(g,vm,pi,a,nc,no)); fillm(r,*Cm); gp.calculate(F,a,*Cm,pi,no); same<B>(F,*Cm,m,nc); }
template<class B> void policy(Case& c) { using M=BCRSMatrix<B>; using V=typename Tr<B>::V; using X=BlockVector<V>; using K=double; using Op=MatrixAdapter<M,X,X>; Rng& r=c.rng; std::size_t n = c.no<40 ? r.in(2,5) : r.chance(80) ? r.in(2,16) : r.in(10,60); Pattern p=symPattern(r,n);
  M F; buildAny(r,F,p,n); std::map<std::pair<std::size_t,std::size_t>,B> low; const int bs=int(sizeof(V)/sizeof(double)); bool same_=r.chance(60);
  for (auto i=F.begin();i!=F.end();++i) for (auto k=i->begin();k!=i->end();++k) { B e(K(0)); for (int a=0;a<bs;++a) e[a][a]= -(same_ ? 1.0 : double(r.in(1,16))/8); if (k.index()>i.index()) low[{k.index(),i.index()}]=e; if (k.index()<i.index()) e=low[{i.index(),k.index()}]; *k=e; }
  for (auto i=F.begin();i!=F.end();++i) { double d=r.in(0,4)/8.0; for (auto k=i->begin();k!=i->end();++k) if (k.index()!=i.index()) d-=(*k)[0][0]; if (d==0) d=1; if (r.chance(15)) d*=16; for (int a=0;a<bs;++a) { for (int b=0;b<bs;++b) F[i.index()][i.index()][a][b] = a==b ? d : 0; } }
  typedef Amg::CoarsenCriterion<Amg::SymmetricCriterion<M,Amg::FirstDiagonal>> Crit; Amg::Parameters par(15,2000,1.2,1.6); double damp=r.in(1,32)/16.0; par.setDebugLevel(0); Crit crit(par); crit.setProlongationDampingFactor(damp); crit.setSkipIsolated(r.chance(50)); crit.setDefaultValuesIsotropic(2); 
  c.desc << "n=" << n << " damp=" << damp << " pattern " << show(p); c.sig=show(p); Op op(F); Amg::AggregationLevelTransferPolicy<Op,Crit> pol(crit); { Quiet q; pol.createCoarseLevelSystem(op); }
  std::unique_ptr<Amg::AggregationLevelTransferPolicy<Op,Crit>> cl; auto* po=&pol; if (r.chance(30)) { cl.reset(pol.clone()); po=cl.get(); } const M& Cm=po->getCoarseLevelOperator()->getmat(); std::size_t nc=Cm.N(); c.desc << " nc=" << nc; CHECK(po->getCoarseLevelLhs().size()==nc && po->getCoarseLevelRhs().size()==nc,"coarse vectors",0);
  Map m(n,-1); for (std::size_t j=0;j<nc;++j) { X f(n); f=0; po->getCoarseLevelLhs()=0; po->getCoarseLevelLhs()[j]=1; po->moveToFineLevel(f); for (std::size_t i=0;i<n;++i) for (int a=0;a<bs;++a) { CHECK(f[i][a]==0 || f[i][a]==damp,"prolongation of unit vector ",j," at ",i," is ",f[i]); CHECK((f[i][a]!=0)==(f[i][0]!=0),"components differ ",i); if (a==0 && f[i][0]!=0) { CHECK(m[i]==-1,"vertex ",i," in two aggregates"); m[i]=long(j); } } }
  for (int t=0;t<3;++t) { X f(n); fillv(r,f); if (t) fillv(r,po->getCoarseLevelLhs()); po->moveToCoarseLevel(f); for (std::size_t j=0;j<nc;++j) { V w(0.0); for (std::size_t i=0;i<n;++i) if (m[i]==long(j)) w+=f[i]; CHECK(po->getCoarseLevelRhs()[j]==w,"restricted entry ",j); for (int a=0;a<bs;++a) CHECK(po->getCoarseLevelLhs()[j][a]==0,"coarse start vector ",j); } }
  X f(n), f0; fillv(r,f); f0=f; fillv(r,po->getCoarseLevelLhs()); X l0=po->getCoarseLevelLhs(); po->moveToFineLevel(f); for (std::size_t i=0;i<n;++i) { V w=f0[i]; if (m[i]>=0) w.axpy(damp,l0[m[i]]); CHECK(f[i]==w,"prolongated entry ",i); }
  same<B>(F,Cm,m,nc); }
int main(int argc, char** argv) {
  section("xfer", xfer<double>, 2); section("xferc", xfer<C>); section("xfer1", xfer<FieldMatrix<double,1,1>>); section("xfer2", xfer<FieldMatrix<double,2,2>>); section("xferc2", xfer<FieldMatrix<C,2,2>>);
  section("gal", gal<double>, 2); section("galc", gal<C>); section("gal1", gal<FieldMatrix<double,1,1>>); section("gal2", gal<FieldMatrix<double,2,2>>); section("galc2", gal<FieldMatrix<C,2,2>>);
  section("build", build<FieldMatrix<double,1,1>>); section("buildd", build<double>); section("build2", build<FieldMatrix<double,2,2>>); section("policy", policy<FieldMatrix<double,1,1>>); section("policy2", policy<FieldMatrix<double,2,2>>);
  return nat::run(argc, argv); }
