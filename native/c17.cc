// C17: dependency, aggregation and the hierarchy
#include "gen.hh"
#include <dune/istl/operators.hh>
#include <dune/istl/preconditioners.hh>
#include <dune/istl/paamg/pinfo.hh>
#include <dune/istl/paamg/aggregates.hh>
#include <dune/istl/paamg/transfer.hh>
#include <dune/istl/paamg/galerkin.hh>
#include <dune/istl/paamg/matrixhierarchy.hh>
#include <dune/istl/paamg/amg.hh>
using namespace Dune; using namespace nat;
using SI=Amg::SequentialInformation; using AM=Amg::AggregatesMap<std::size_t>;
template<class B> struct Tr { using V=B; static constexpr int b=1; };
template<class F,int m> struct Tr<FieldMatrix<F,m,m>> { using V=FieldVector<F,m>; static constexpr int b=m; };
inline double at(const double& x, int, int) { return x; } template<int m> double at(const FieldMatrix<double,m,m>& x, int i, int j) { return x[i][j]; }
inline double& at(double& x, int, int) { return x; } template<int m> double& at(FieldMatrix<double,m,m>& x, int i, int j) { return x[i][j]; }
struct Quiet { std::ostringstream s; std::streambuf *o,*e; Quiet() : o(std::cout.rdbuf(s.rdbuf())), e(std::cerr.rdbuf(s.rdbuf())) {} ~Quiet() { std::cout.rdbuf(o); std::cerr.rdbuf(e); } };
// what the norms mean
template<int k,class B> double nrm(const Amg::Diagonal<k>&, const B& x) { return at(x,k,k); }
template<class B> double nrm(const Amg::RowSum&, const B& x) { double m=0; for (int i=0;i<Tr<B>::b;++i) { double s=0; for (int j=0;j<Tr<B>::b;++j) s+=std::abs(at(x,i,j)); m=std::max(m,s); } return m; }
template<class B> double fro(const B& x) { double s=0; for (int i=0;i<Tr<B>::b;++i) for (int j=0;j<Tr<B>::b;++j) s+=at(x,i,j)*at(x,i,j); return std::sqrt(s); }
template<class B> double nrm(const Amg::FrobeniusNorm&, const B& x) { return fro(x); }
template<class B> double nrm(const Amg::AlwaysOneNorm&, const B&) { return 1; }
inline Pattern pattern(Rng& r, std::size_t n, bool sym) { std::vector<std::set<std::size_t>> s(n); int k=int(r.in(0,4)); for (std::size_t i=0;i<n;++i) { s[i].insert(i); for (int t=0;t<k;++t) { std::size_t j= r.chance(60) ? std::min<std::size_t>(n-1,i+r.in(0,2)) : r.in(0,long(n)-1); s[i].insert(j); if (sym || r.chance(50)) s[j].insert(i); } } Pattern p; for (auto& x : s) p.emplace_back(x.begin(),x.end()); return p; }
template<class M> void values(Rng& r, M& A, bool symmetric, bool positive) { using B=typename M::block_type; int zero=int(r.in(0,3)*20), pos= r.chance(50)?0:int(r.in(0,50)), equal=r.chance(50), rows=r.chance(30)?20:0;
  for (auto i=A.begin();i!=A.end();++i) { bool nul=r.chance(rows); double off= nul ? 0 : 1;
    for (auto k=i->begin();k!=i->end();++k) for (int a=0;a<Tr<B>::b;++a) for (int b=0;b<Tr<B>::b;++b) {
      if (k.index()==i.index()) at(*k,a,b) = a==b ? double(1<<r.in(0,3)) : 0; else { double v= equal ? -1 : -double(r.in(1,8))/4; if (r.chance(zero)) v=0; if (r.chance(pos)) v=-v; at(*k,a,b)= a==b ? off*v : r.chance(80) ? 0 : double(r.in(-2,2))/4*off; } } }
  if (symmetric) for (auto i=A.begin();i!=A.end();++i) for (auto k=i->begin();k!=i->end();++k) if (k.index()<i.index() && A.exists(k.index(),i.index())) { auto& o=A[k.index()][i.index()]; for (int a=0;a<Tr<B>::b;++a) for (int b=0;b<Tr<B>::b;++b) at(*k,a,b)=at(o,b,a); }
  if (positive) for (auto i=A.begin();i!=A.end();++i) for (int a=0;a<Tr<B>::b;++a) { double d=0; for (auto k=i->begin();k!=i->end();++k) for (int b=0;b<Tr<B>::b;++b) if (k.index()!=i.index() || a!=b) d+=std::abs(at(*k,a,b)); at(A[i.index()][i.index()],a,a)= d==0 ? 1 : d; } }
template<class M> std::string show(const M& A) { std::ostringstream s; for (auto i=A.begin();i!=A.end();++i) { s << ";"; for (auto k=i->begin();k!=i->end();++k) s << " " << k.index() << ":" << at(*k,0,0); } return s.str().substr(0,1200); }
template<class P> void params(Rng& r, P& p, std::ostream& o) { p.setDebugLevel(0); std::size_t mi=r.in(1,6), ma=mi+r.in(0,4); if (r.chance(15)) mi=ma=1; p.setMinAggregateSize(mi); p.setMaxAggregateSize(ma); p.setMaxDistance(r.in(1,4)); p.setMaxConnectivity(r.in(1,15)); p.setSkipIsolated(r.chance(50));
  static const double al[]={0,0.25,1.0/3,0.5,1}, be[]={0,1e-5,0.0625,0.25,0.5}; p.setAlpha(al[r.in(0,4)]); p.setBeta(be[r.in(0,4)]); o << "min " << mi << " max " << ma << " dist " << p.maxDistance() << " conn " << p.maxConnectivity() << " skip " << p.skipIsolated() << " alpha " << p.alpha() << " beta " << p.beta() << " "; }
struct Flags { bool unsure=false; std::vector<char> iso, exc; std::map<std::pair<std::size_t,std::size_t>,std::pair<bool,bool>> edge; }; // (depends, influences)
template<class N,class M> Flags expected(const M& A, double alpha, double beta, bool symmetric, bool first, bool exact) { exact = exact && !std::is_same_v<N,Amg::FrobeniusNorm>; N nm; Flags f; std::size_t n=A.N(); f.iso.assign(n,0); f.exc.assign(n,0); const bool sp=N::is_sign_preserving;
  for (auto i=A.begin();i!=A.end();++i) for (auto k=i->begin();k!=i->end();++k) if (i.index()!=k.index()) f.edge[{i.index(),k.index()}]={false,false};
  for (auto it=A.begin();it!=A.end();++it) { std::size_t i=it.index(); double mx=-std::numeric_limits<double>::max(), di=nrm(nm,A[i][i]), off=0;
    auto strength=[&](std::size_t j, double& v) { double eij=nrm(nm,A[i][j]); if (!symmetric) { v=-eij; return true; } if (!A.exists(j,i)) return false; double eji=nrm(nm,A[j][i]); if (sp && eij>=0 && eji>=0) return false; v=eij*eji/(di*nrm(nm,A[j][j])); return true; };
    for (auto k=it->begin();k!=it->end();++k) if (k.index()!=i) { double v; off=std::max(off,fro(*k)); if (strength(k.index(),v)) mx=std::max(mx,v); }
    if (first && off==0) f.exc[i]=1;
    auto close=[](double x, double y) { return std::abs(x-y)<=1e-12*std::abs(y); }; if (!exact && close(mx,symmetric ? beta : beta*di)) f.unsure=true;
    if (mx < (symmetric ? beta : beta*di)) { f.iso[i]=1; continue; }
    for (auto k=it->begin();k!=it->end();++k) if (k.index()!=i) { double v; if (!strength(k.index(),v)) continue; if (!exact && close(v,alpha*mx)) f.unsure=true; auto e=f.edge.find({i,k.index()}), o=f.edge.find({k.index(),i});
      if (symmetric) { if (v>alpha*mx) { e->second={true,true}; o->second={true,true}; } } else if (v>=mx*alpha) { e->second.first=true; if (o!=f.edge.end()) o->second.second=true; } } }
  return f; }
template<class M> struct Gr { typedef Amg::MatrixGraph<const M> MG; typedef Amg::PropertiesGraph<MG,Amg::VertexProperties,Amg::EdgeProperties,IdentityMap,IdentityMap> PG; MG g; PG pg; Gr(const M& A) : g(A), pg(g) {} };
template<class B,class N,bool sym> void depend(Case& c) { using M=BCRSMatrix<B>; Rng& r=c.rng; std::size_t n = c.no<40 ? r.in(1,4) : r.in(1,14); Pattern p=pattern(r,n,r.chance(70)); M A; buildAny(r,A,p,n); bool spd=r.chance(30); values(r,A,sym && r.chance(60),spd);
  typedef std::conditional_t<sym,Amg::SymmetricCriterion<M,N>,Amg::UnSymmetricCriterion<M,N>> Crit; Crit cr; params(r,cr,c.desc); bool first=r.chance(50); c.desc << "first " << first << " A" << show(A); c.sig=c.desc.str();
  Gr<M> g(A); Amg::buildDependency(g.pg,A,cr,first); Flags f=expected<N>(A,cr.alpha(),cr.beta(),sym,first,!spd); if (f.unsure) return; std::size_t nv=0;
  for (auto v=g.pg.begin();v!=g.pg.end();++v,++nv) { CHECK(*v==nv,"vertex ",*v); CHECK(v.properties().isolated()==bool(f.iso[nv]),"isolated flag of vertex ",nv); CHECK(v.properties().excludedBorder()==bool(f.exc[nv]),"border flag of vertex ",nv); CHECK(!v.properties().front() && !v.properties().visited(),"marks of vertex ",nv); std::size_t ne=0;
    for (auto e=v.begin();e!=v.end();++e,++ne) { CHECK(e.source()==nv && e.target()!=nv,"edge",nv); auto x=f.edge.find({nv,e.target()}); CHECK(x!=f.edge.end(),"edge to ",e.target()); auto& q=e.properties(); CHECK(q.depends()==x->second.first,"depends ",nv," ",e.target()); CHECK(q.influences()==x->second.second,"influences ",nv," ",e.target());
      CHECK(q.isStrong()==(q.depends()||q.influences()) && q.isTwoWay()==(q.depends()&&q.influences()) && q.isOneWay()==(q.depends()&&!q.influences()),"edge predicates",nv); } CHECK(ne+1==p[nv].size(),"edges of vertex ",nv); }
  CHECK(nv==n,"vertices ",nv); }
// the map is a partition into connected aggregates numbered from zero
template<class M,class T> void partition(const M& A, const AM& m, const T& res, const Flags& f, bool skip, std::size_t maxsize) { if (f.unsure) return; std::size_t n=A.N(); auto [nagg,niso,none,nskip]=res; std::vector<std::vector<std::size_t>> ag(nagg<0?0:nagg); long skipped=0;
  for (std::size_t i=0;i<n;++i) { bool out=f.exc[i] || (f.iso[i] && skip); CHECK(m[i]!=AM::UNAGGREGATED,"vertex ",i," is not aggregated"); if (m[i]==AM::ISOLATED) { ++skipped; CHECK(out,"vertex ",i," is left out"); } else { CHECK(long(m[i])<nagg,"aggregate ",m[i]," of vertex ",i," of ",nagg); CHECK(!(f.iso[i]&&skip),"isolated vertex ",i," is aggregated"); ag[m[i]].push_back(i); } }
  CHECK(skipped==nskip,"skipped ",nskip," wanted ",skipped); long isolated=0;
  for (std::size_t a=0;a<ag.size();++a) { CHECK(!ag[a].empty(),"aggregate ",a," is empty"); std::set<std::size_t> in(ag[a].begin(),ag[a].end()), seen{ag[a][0]}; std::vector<std::size_t> st(1,ag[a][0]); bool strong=false; for (auto v : ag[a]) if (!f.iso[v]) strong=true;
    while (!st.empty()) { auto v=st.back(); st.pop_back(); for (auto w : in) if (!seen.count(w) && (A.exists(v,w)||A.exists(w,v))) { seen.insert(w); st.push_back(w); } } CHECK(seen.size()==in.size(),"aggregate ",a," is not connected"); (void)strong; if (f.iso[ag[a][0]]) ++isolated; if (maxsize==1) CHECK(in.size()==1,"aggregate ",a," has ",in.size()," vertices"); }
  CHECK(niso<=nagg && none<=nagg,"counts ",niso," ",none); (void)isolated; }
template<class B,class N,bool sym> void aggregate(Case& c) { using M=BCRSMatrix<B>; Rng& r=c.rng; std::size_t n = c.no<40 ? r.in(1,4) : r.chance(80) ? r.in(1,16) : r.in(10,60); Pattern p=pattern(r,n,r.chance(75)); M A; buildAny(r,A,p,n); bool spd=r.chance(30); values(r,A,sym && r.chance(60),spd);
  typedef std::conditional_t<sym,Amg::SymmetricCriterion<M,N>,Amg::UnSymmetricCriterion<M,N>> Crit; Crit cr; params(r,cr,c.desc); bool first=r.chance(50); c.desc << "first " << first << " A" << show(A); c.sig=c.desc.str();
  Gr<M> g(A); AM m(n); CHECK(m.noVertices()==n,"vertices",n); for (std::size_t i=0;i<n;++i) CHECK(m[i]==AM::UNAGGREGATED,"fresh map",i); Quiet q; auto res=m.buildAggregates(A,g.pg,cr,first); partition(A,m,res,expected<N>(A,cr.alpha(),cr.beta(),sym,first,!spd),cr.skipIsolated(),cr.maxAggregateSize()); 
  for (auto v=g.pg.begin();v!=g.pg.end();++v) CHECK(!v.properties().visited(),"visited mark left at ",*v); }
template<class B,class N> void hierarchy(Case& c) { using M=BCRSMatrix<B>; using V=typename Tr<B>::V; using X=BlockVector<V>; using Op=MatrixAdapter<M,X,X>; Rng& r=c.rng; std::size_t n = c.no<40 ? r.in(1,5) : r.chance(70) ? r.in(1,20) : r.in(10,70); Pattern p=pattern(r,n,true); auto A=std::make_shared<M>(); buildAny(r,*A,p,n); values(r,*A,true,r.chance(70));
  typedef Amg::CoarsenCriterion<Amg::SymmetricCriterion<M,N>> Crit; int maxl=int(r.in(1,6)), target=int(r.in(0,6)); double rate= r.chance(50)?1.01:1.0+r.in(0,8)/8.0; Crit cr(Amg::Parameters(maxl,target,rate,1.0)); params(r,cr,c.desc); cr.setMaxLevel(maxl); cr.setCoarsenTarget(target); cr.setMinCoarsenRate(rate); c.desc << "maxlevel " << maxl << " target " << target << " rate " << rate << " A" << show(*A); c.sig=c.desc.str();
  typedef Amg::MatrixHierarchy<Op,SI> MH; MH mh(std::make_shared<Op>(*A)); Quiet q; mh.template build<NegateSet<typename SI::OwnerSet>>(cr); std::size_t L=mh.levels(); CHECK(L>=1 && int(L)<=maxl+1,"levels ",L); CHECK(mh.isBuilt() && mh.aggregatesMaps().size()==L && mh.maxlevels()==L && mh.hasCoarsest(),"levels ",L," maps ",mh.aggregatesMaps().size());
  CHECK(&mh.matrices().finest()->getmat()==A.get(),"finest matrix",0); std::vector<const M*> mat; for (auto l=mh.matrices().finest();;++l) { mat.push_back(&l->getmat()); if (l==mh.matrices().coarsest()) break; } CHECK(mat.size()==L,"matrices ",mat.size());
  auto galerkin=[&](const char* what) { auto am=mh.aggregatesMaps().begin(); for (std::size_t l=0;l+1<L;++l,++am) { const AM& m=**am; const M &F=*mat[l], &G=*mat[l+1]; std::map<std::pair<std::size_t,std::size_t>,B> w; for (auto i=F.begin();i!=F.end();++i) for (auto k=i->begin();k!=i->end();++k) if (m[i.index()]!=AM::ISOLATED && m[k.index()]!=AM::ISOLATED) { auto it=w.emplace(std::make_pair(m[i.index()],m[k.index()]),B(0.0)).first; it->second+=*k; }
      for (auto& x : w) { CHECK(G.exists(x.first.first,x.first.second),what," level ",l+1," entry ",x.first.first,",",x.first.second," missing"); B d=G[x.first.first][x.first.second]; d-=x.second; CHECK(fro(d)==0,what," level ",l+1," entry ",x.first.first,",",x.first.second); }
      for (auto i=G.begin();i!=G.end();++i) for (auto k=i->begin();k!=i->end();++k) CHECK(w.count({i.index(),k.index()}) || fro(*k)==0,what," level ",l+1," additional entry ",i.index(),",",k.index()); } };
  auto am=mh.aggregatesMaps().begin(); std::vector<long> comp(n); for (std::size_t i=0;i<n;++i) comp[i]=long(i);
  for (std::size_t l=0;l+1<L;++l,++am) { const AM& m=**am; std::size_t nf=mat[l]->N(), nc=mat[l+1]->N(); CHECK(m.noVertices()==nf,"map of level ",l," has ",m.noVertices()," of ",nf); std::set<std::size_t> used; for (std::size_t i=0;i<nf;++i) if (m[i]!=AM::ISOLATED) { CHECK(m[i]<nc,"aggregate ",m[i]," on level ",l," of ",nc); used.insert(m[i]); } CHECK(used.size()==nc && mat[l+1]->M()==nc,"level ",l+1," has ",nc," rows for ",used.size()," aggregates");
    CHECK(nf>std::size_t(target),"level ",l," was coarsened below the target"); CHECK(double(nf)/nc>=rate,"rate on level ",l); for (auto& x : comp) if (x>=0) x = m[x]==AM::ISOLATED ? -1 : long(m[x]); }
  CHECK((*am)->noVertices()==0,"last map",0); galerkin("built");
  // a hierarchy of vectors and the composed map
  typedef Amg::Hierarchy<X> VH; VH vh(std::make_shared<X>(n)); mh.coarsenVector(vh); CHECK(vh.levels()==L,"vector levels ",vh.levels()); std::size_t l=0; for (auto v=vh.finest();;++v,++l) { CHECK(v->size()==mat[l]->N(),"vector of level ",l); if (v==vh.coarsest()) break; }
  { std::vector<std::size_t> d; mh.getCoarsestAggregatesOnFinest(d); CHECK(d.size()==n,"map to the coarsest level",d.size()); std::map<long,std::size_t> to; std::set<std::size_t> im; for (std::size_t i=0;i<n;++i) if (comp[i]>=0) { auto it=to.emplace(comp[i],d[i]).first; CHECK(it->second==d[i],"unknowns of coarsest aggregate ",comp[i]," are mapped to ",it->second," and ",d[i]); im.insert(d[i]); CHECK(d[i]<mat[L-1]->N(),"coarsest aggregate ",d[i]); } CHECK(im.size()==to.size(),"coarsest aggregates are not distinguished",im.size()); }
  // the values change, the hierarchy follows
  values(r,*A,false,false); std::vector<int> fl; mh.recalculateGalerkin(SI::CopyFlags()); galerkin("recalculated"); }
int main(int argc, char** argv) {
  using D=double; using B1=FieldMatrix<double,1,1>; using B2=FieldMatrix<double,2,2>; using FD=Amg::FirstDiagonal;
  section("dep", depend<B1,FD,true>, 2); section("depu", depend<B1,FD,false>, 2); section("depd", depend<D,FD,true>); section("depdu", depend<D,FD,false>); section("dep2", depend<B2,Amg::Diagonal<1>,true>); section("dep2r", depend<B2,Amg::RowSum,true>); section("dep2ru", depend<B2,Amg::RowSum,false>); section("dep2f", depend<B2,Amg::FrobeniusNorm,true>); section("dep1", depend<B1,Amg::AlwaysOneNorm,true>);
  section("agg", aggregate<B1,FD,true>, 3); section("aggu", aggregate<B1,FD,false>, 3); section("aggd", aggregate<D,FD,true>); section("agg2", aggregate<B2,Amg::RowSum,true>, 2); section("agg2f", aggregate<B2,Amg::FrobeniusNorm,true>); section("agg2u", aggregate<B2,Amg::Diagonal<1>,false>);
  section("hier", hierarchy<B1,FD>, 3); section("hier2", hierarchy<B2,FD>, 2); section("hier2r", hierarchy<B2,Amg::RowSum>, 2); section("hierd", hierarchy<D,FD>);
  return nat::run(argc, argv); }
