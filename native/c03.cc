#include "gen.hh"
using namespace Dune; using namespace nat;
template<class B> double tag(const B& b) { if constexpr (requires { b[0][0]; }) return b[0][0]; else return b; }
template<class M> void probe(M& A, const Pattern& p, std::size_t m, Rng& r) { const M& C=A; std::size_t n=p.size();
  CHECK(C.N()==n && C.M()==m,"sizes ",C.N(),"x",C.M()); std::size_t row=0; for (auto it=C.begin();it!=C.end();++it,++row) CHECK(it.index()==row && &*it==&C[row],"row iterator"); CHECK(row==n,"number of rows visited"); for (auto it=C.beforeEnd();it!=C.beforeBegin();--it) { --row; CHECK(it.index()==row,"reverse row iterator"); }
  for (std::size_t i=0;i<n;++i) { auto& q=p[i]; CHECK(C[i].size()==q.size() && C.getrowsize(i)==q.size(),"row size of ",i); 
    std::size_t k=0; for (auto it=C[i].begin();it!=C[i].end();++it,++k) { CHECK(k<q.size() && it.index()==q[k],"entry ",k," of row ",i); CHECK(tag(*it)==double(i*1000+q[k]),"value at ",i,",",q[k]); CHECK(it.offset()==k,"offset"); } CHECK(k==q.size(),"entries visited in row ",i);
    for (auto it=C[i].beforeEnd();it!=C[i].beforeBegin();--it) { --k; CHECK(it.index()==q[k],"reverse entry ",k," of row ",i); } CHECK(k==0,"entries visited backwards in row ",i);
    for (std::size_t j=0;j<m;++j) { if (m>40 && !r.chance(20)) continue; auto f=std::find(q.begin(),q.end(),j); bool in=f!=q.end(); std::size_t pos=f-q.begin();
      CHECK(C.exists(i,j)==in,"exists(",i,",",j,")"); auto it=C[i].find(j); CHECK((it!=C[i].end())==in,"find(",i,",",j,")"); CHECK(it.offset()==pos,"find offset"); auto mt=A[i].find(j); CHECK((mt!=A[i].end())==in && mt.offset()==pos,"mutable find(",i,",",j,")");
      bool thrown=false; try { double v=tag(C[i][j]); CHECK(in,"operator[] accepted (",i,",",j,")"); CHECK(v==double(i*1000+j),"operator[] value at ",i,",",j," is ",v); CHECK(tag(A[i][j])==v && &A[i][j]==&C[i][j],"mutable operator[]"); CHECK(&*it==&C[i][j] && it.index()==j && mt.index()==j,"find entry"); } catch (const Dune::ISTLError&) { thrown=true; } CHECK(thrown==!in,"operator[] at (",i,",",j,") exception ",thrown); } } }
template<class B> void look(Case& c) { Rng& r=c.rng; std::size_t n=randomSize(r,c.no), m=r.chance(30)?n:randomSize(r,c.no); if (c.no>=40 && r.chance(4)) { n=r.in(1,3); m=r.in(200,600); } auto p=randomPattern(r,n,m); if (m==0) for (auto& q:p) q.clear(); c.desc << n << "x" << m << " pattern " << show(p); 
  BCRSMatrix<B> A; int kind=r.in(0,5); if (kind<=3) buildAny(r,A,p,m); else { std::size_t avg=1; for (auto& q:p) avg=std::max(avg,q.size()); A.setBuildMode(BCRSMatrix<B>::implicit); A.setImplicitBuildModeParameters(kind==4?1:avg, kind==4?double(avg)*2+1:0.5); A.setSize(n,m); std::vector<std::pair<std::size_t,std::size_t>> es; for (std::size_t i=0;i<n;++i) for (auto j:p[i]) es.push_back({i,j}); for (std::size_t k=es.size();k>1;--k) std::swap(es[k-1],es[r.in(0,long(k)-1)]); for (auto& e:es) A.entry(e.first,e.second)=B(0); A.compress(); }
  for (auto i=A.begin();i!=A.end();++i) for (auto j=i->begin();j!=i->end();++j) *j = double(i.index()*1000+j.index());
  probe(A,p,m,r); BCRSMatrix<B> D(A); probe(D,p,m,r); }
void register_sections() { section("double",look<double>,3); section("block2",look<FieldMatrix<double,2,2>>,2); section("block1",look<FieldMatrix<double,1,1>>); section("block3",look<FieldMatrix<double,3,3>>); }
NATIVE_MAIN
