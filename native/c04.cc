#include "gen.hh"
#include <set>
#include <list>
#include <memory>
using namespace Dune; using namespace nat;
using C=std::complex<double>; using S=std::size_t;
template<class B> using Ref = std::map<std::pair<S,S>,B>;
inline S count(const std::vector<std::set<S>>& p) { S k=0; for (auto& s : p) k+=s.size(); return k; }
inline std::string showp(const std::vector<std::set<S>>& p) { std::ostringstream s; for (auto& a : p) { for (auto j : a) s << j << ","; s << ";"; if (s.tellp()>1200) break; } return s.str(); }
// a built matrix has exactly the pattern, reading in every documented way
template<class M> void same(const M& A, const std::vector<std::set<S>>& p, S m, const char* what="") {
  CHECK(A.N()==p.size() && A.M()==m, what, "size ", A.N(), "x", A.M()); CHECK(A.buildStage()==M::built, what, "stage");
  S k=0, rows=0; for (auto i=A.begin(); i!=A.end(); ++i, ++rows) { CHECK(i.index()==rows,what,"row index"); auto& s=p[rows]; auto w=s.begin(); S q=0;
    CHECK(i->size()==s.size(),what,"row ",rows," has ",i->size()," entries, requested ",s.size()); CHECK(A.getrowsize(rows)==s.size(),what,"getrowsize",rows);
    for (auto j=i->begin(); j!=i->end(); ++j,++w,++q,++k) { CHECK(j.index()==*w,what,"row ",rows," entry ",q," in column ",j.index()," requested ",*w); CHECK(j.offset()==q,what,"offset"); CHECK(&A[rows][*w]==&*j,what,"access by index ",rows); } }
  CHECK(rows==p.size(),what,"rows"); CHECK(A.nonzeroes()==k,what,"nonzeroes ",A.nonzeroes()," of ",k);
  for (S i=0;i<p.size();++i) for (S j=0;j<m && j<60;++j) CHECK(A.exists(i,j)==(p[i].count(j)>0),what,"exists ",i," ",j); }
template<class M> void values(const M& A, const Ref<typename M::block_type>& w, const char* what="") { S k=0; for (auto i=A.begin(); i!=A.end(); ++i) for (auto j=i->begin(); j!=i->end(); ++j,++k) { auto it=w.find({i.index(),j.index()}); CHECK(it!=w.end(),what,"entry"); CHECK(*j==it->second,what,"value of ",i.index()," ",j.index()); } CHECK(k==w.size(),what,"entries"); }
template<class M> Ref<typename M::block_type> fill(Rng& r, M& A) { fillm(r,A); Ref<typename M::block_type> w; for (auto i=A.begin(); i!=A.end(); ++i) for (auto j=i->begin(); j!=i->end(); ++j) w[{i.index(),j.index()}]=*j; return w; }
inline std::vector<std::set<S>> pat(Rng& r, S n, S m) { std::vector<std::set<S>> p(n); int d = r.chance(20) ? 100 : r.chance(30) ? 10 : int(r.in(0,80)); bool wide=m>40; for (auto& s : p) { if (r.chance(10)) continue; if (wide) { S k=r.in(0,12); for (S q=0;q<k;++q) s.insert(r.in(0,m-1)); } else for (S j=0;j<m;++j) if (r.in(0,99)<d) s.insert(j); } return p; }
template<class T> void shuffle(Rng& r, std::vector<T>& v) { for (S k=v.size();k>1;--k) std::swap(v[k-1],v[r.in(0,long(k)-1)]); }
template<class E,class F> void throws(F&& f, const char* what) { bool t=false; try { f(); } catch (E&) { t=true; } CHECK(t,what,"no exception"); }
// what a finished matrix must additionally be good for: it can be copied, assigned and used without the copies being tied together
template<class M> void copies2(Case& c, M& A, const std::vector<std::set<S>>& p, S m) { Rng& r=c.rng; auto w=fill(r,A); M B(A); same(B,p,m,"copy "); values(B,w,"copy "); auto v=fill(r,B); values(B,v,"copy "); same(A,p,m,"source after changing the copy "); values(A,w,"source after changing the copy ");
  M D; D=A; same(D,p,m,"assigned "); values(D,w,"assigned "); w=fill(r,A); { Ref<typename M::block_type> q; for (auto i=D.begin(); i!=D.end(); ++i) for (auto j=i->begin(); j!=i->end(); ++j) q[{i.index(),j.index()}]=*j; M& E=D; D=E; same(D,p,m,"self assigned "); values(D,q,"self assigned "); } values(B,v,"copy "); values(A,w,"source "); }
template<class M> void gotsize(Case& c, M& A, S n, S m, S nnz) { Rng& r=c.rng; (void)c; switch (r.in(0,2)) { case 0: A.setBuildMode(M::random); A.setSize(n,m,nnz); break; case 1: A.setSize(n,m,nnz); A.setBuildMode(M::random); break; default: A.setBuildMode(M::row_wise); A.setSize(n,m,nnz); A.setBuildMode(M::random); } }
template<class B> void rnd(Case& c) { using M=BCRSMatrix<B>; Rng& r=c.rng; S n=randomSize(r,c.no), m=r.chance(50)?n:randomSize(r,c.no); if (r.chance(3)) m=r.in(50,5000); auto p=pat(r,n,m); std::vector<S> sz(n); S tot=0; bool over=r.chance(30); for (S i=0;i<n;++i) tot += sz[i]=p[i].size()+(over && r.chance(50)?r.in(0,3):0);
  int how=int(r.in(0,4)); S nnz = how<2?0 : how==2?tot : how==3?tot+r.in(0,5) : (tot>1?S(r.in(1,tot-1)):0); c.desc << n << "x" << m << " sizes"; for (auto s : sz) c.desc << " " << s; c.desc << " nnz=" << nnz << " " << showp(p);
  bool viactor=r.chance(40); std::unique_ptr<M> P(viactor ? nnz ? new M(n,m,nnz,M::random) : new M(n,m,M::random) : new M); M& A=*P; if (!viactor) gotsize(c,A,n,m,nnz);
  std::vector<S> ord(n); for (S i=0;i<n;++i) ord[i]=i; shuffle(r,ord); for (S i : ord) { if (r.chance(40)) { if (r.chance(20)) A.setrowsize(i,17); A.setrowsize(i,sz[i]); } else { S a = sz[i]? S(r.in(0,sz[i])) : 0; A.setrowsize(i,a); if (sz[i]-a==1 && r.chance(50)) A.incrementrowsize(i); else A.incrementrowsize(i,sz[i]-a); } }
  for (S i=0;i<n;++i) CHECK(A.getrowsize(i)==sz[i],"announced size of row ",i);
  if (nnz && nnz<tot) { throws<BCRSMatrixError>([&]{ A.endrowsizes(); },"insufficient number of nonzeroes "); return; } A.endrowsizes();
  std::vector<std::pair<S,S>> e; bool bulk=!over && r.chance(30); std::vector<char> done(n,0);
  if (bulk) for (S i : ord) if (r.chance(60)) { done[i]=1; std::vector<S> v(p[i].begin(),p[i].end()); if (r.chance(50)) A.setIndicesNoSort(i,v.begin(),v.end()); else { shuffle(r,v); if (r.chance(50)) A.setIndices(i,v.begin(),v.end()); else { std::list<S> l(v.begin(),v.end()); A.setIndices(i,l.begin(),l.end()); } } }
  for (S i=0;i<n;++i) if (!done[i]) for (S j : p[i]) { e.emplace_back(i,j); while (r.chance(20)) e.emplace_back(i,j); } shuffle(r,e);
  for (auto& x : e) { A.addindex(x.first,x.second); if (r.chance(3)) { S i=r.in(0,n-1); throws<BCRSMatrixError>([&]{ A.addindex(i,m+r.in(0,2)); },"column index out of range "); } }
  for (S i=0;i<n;++i) if (p[i].size()==sz[i] && r.chance(30)) for (S j=0;j<m;++j) if (!p[i].count(j)) { throws<BCRSMatrixError>([&]{ A.addindex(i,j); },"row too small "); break; }
  for (S i=0;i<n;++i) if (!over && r.chance(5)) { std::vector<S> v(p[i].begin(),p[i].end()); if (r.chance(50) && v.size()) { S last=v.back(); v.pop_back(); throws<BCRSMatrixError>([&]{ A.setIndicesNoSort(i,v.begin(),v.end()); },"too few indices "); v.push_back(last); } else { v.push_back(0); throws<BCRSMatrixError>([&]{ A.setIndices(i,v.begin(),v.end()); },"too many indices "); v.pop_back(); } A.setIndicesNoSort(i,p[i].begin(),p[i].end()); }
  A.endindices(); same(A,p,m); copies2(c,A,p,m); if (r.chance(20)) { auto q=pat(r,n,m); A.setSize(n,m); buildRandom(r,A,[&]{ Pattern t(n); for (S i=0;i<n;++i) t[i].assign(q[i].begin(),q[i].end()); return t; }(),m); } }
template<class B> void roww(Case& c) { using M=BCRSMatrix<B>; Rng& r=c.rng; S n=randomSize(r,c.no), m=r.chance(50)?n:randomSize(r,c.no); if (r.chance(3)) m=r.in(50,5000); auto p=pat(r,n,m); S tot=count(p); int how=int(r.in(0,4)); S nnz = how<2?0 : how==2?tot : how==3?tot+r.in(0,5) : (tot>1?S(r.in(1,tot-1)):0); c.desc << n << "x" << m << " nnz=" << nnz << " " << showp(p);
  bool viactor=r.chance(40); std::unique_ptr<M> P(viactor ? nnz ? new M(n,m,nnz,M::row_wise) : new M(n,m,M::row_wise) : new M); M& A=*P; if (!viactor) { if (r.chance(50)) A.setBuildMode(M::row_wise); A.setSize(n,m,nnz); }
  bool thrown=false; auto it=A.createbegin(); try { for (S i=0; it!=A.createend(); ++it,++i) { CHECK(it.index()==i,"row index"); std::vector<S> v(p[i].begin(),p[i].end()); S u=v.size(); for (S k=0;k<u;++k) if (r.chance(20)) v.push_back(v[k]); shuffle(r,v); std::set<S> in; for (S j : v) { it.insert(j); in.insert(j); CHECK(it.size()==in.size(),"size of the row pattern"); CHECK(it.contains(j),"contains"); } for (S j=0;j<m && j<10;++j) CHECK(it.contains(j)==(p[i].count(j)>0),"contains",j); } } catch (BCRSMatrixError&) { thrown=true; }
  CHECK(thrown==(nnz && nnz<tot),"exception for the number of nonzeroes ",nnz," of ",tot); if (thrown) return; same(A,p,m); throws<BCRSMatrixError>([&]{ ++it; },"matrix already built "); if (n) throws<BCRSMatrixError>([&]{ A.createbegin(); },"creation of a built matrix ");
  copies2(c,A,p,m); if (r.chance(20)) { A.setSize(n,m); auto jt=A.createbegin(); if (n) { jt.insert(0); if (n>1) ++jt; } } }
template<class B> void impl(Case& c) { using M=BCRSMatrix<B>; Rng& r=c.rng; S n=randomSize(r,c.no), m=r.chance(50)?n:randomSize(r,c.no); if (r.chance(3)) m=r.in(50,5000); auto p=pat(r,n,m); S avg=r.chance(10)?0:r.in(0,4); double cb= r.chance(30) ? 0.0 : r.in(0,30)/10.0; c.desc << n << "x" << m << " avg=" << avg << " buffer=" << cb << " " << showp(p);
  int how=int(r.in(0,2)); std::unique_ptr<M> P(how==0 ? new M(n,m,avg,cb,M::implicit) : new M); M& A=*P; if (how==1) { A.setBuildMode(M::implicit); A.setImplicitBuildModeParameters(avg,cb); A.setSize(n,m); } using Bld=ImplicitMatrixBuilder<M>; std::unique_ptr<Bld> b; if (how==2) b.reset(new Bld(A,n,m,avg,cb)); else b.reset(new Bld(A)); CHECK(b->N()==n && b->M()==m,"size of the builder",n);
  if (r.chance(10) && n && m) { // filling that is abandoned leaves nothing behind
    S k=r.in(1,6); for (S q=0;q<k;++q) { B x; fillv(r,x); A.entry(r.in(0,n-1),r.in(0,m-1))=x; } if (r.chance(50)) { S t=r.in(0,3); A.setSize(t,t); } A.setSize(n,m); c.desc << " restarted"; }
  std::vector<std::pair<S,S>> e; for (S i=0;i<n;++i) for (S j : p[i]) { e.emplace_back(i,j); while (r.chance(15)) e.emplace_back(i,j); } if (r.chance(70)) shuffle(r,e); Ref<B> w; for (auto& x : e) { B v; fillv(r,v); if (w.count(x)) { CHECK(A.entry(x.first,x.second)==w[x],"entry while building ",x.first," ",x.second); if (r.chance(50)) { A.entry(x.first,x.second)+=v; w[x]+=v; continue; } } if (r.chance(50)) A.entry(x.first,x.second)=v; else (*b)[x.first][x.second]=v; w[x]=v; }
  for (auto& x : w) if (r.chance(30)) CHECK(A.entry(x.first.first,x.first.second)==x.second,"entry while building ",x.first.first," ",x.first.second);
  if (r.chance(10)) { throws<InvalidStateException>([&]{ M T(A); },"copy of an unfinished matrix "); M T; throws<InvalidStateException>([&]{ T=A; },"assignment of an unfinished matrix "); throws<InvalidStateException>([&]{ A=T; },"assignment to an unfinished matrix "); throws<InvalidStateException>([&]{ A=typename M::field_type(1); },"scalar assignment to an unfinished matrix "); }
  // guaranteed to fit: at most (i+1)*avg + n*avg*buffer entries in the first i+1 rows
  bool must=true; double cum=0; for (S i=0;i<n;++i) { cum+=p[i].size(); if (cum > double(i+1)*avg + std::floor(double(n*avg)*cb)) must=false; }
  bool thrown=false; try { auto st=A.compress(); S mx=0; for (auto& s : p) mx=std::max(mx,s.size()); CHECK(st.maximum==mx,"largest row ",st.maximum," of ",mx); if (n) CHECK(std::abs(st.avg-double(w.size())/n)<1e-12,"average row",st.avg); } catch (ImplicitModeCompressionBufferExhausted&) { thrown=true; }
  CHECK(!(thrown && must),"the buffer is large enough, but compress() throws",n); if (thrown) { if (r.chance(50)) return; c.desc << " reused"; S k=r.in(0,4); std::vector<std::set<S>> q(k); Ref<B> v; A.setSize(k,m); for (S i=0;i<k;++i) for (S j=0;j<m && j<avg;++j) { B x; fillv(r,x); A.entry(i,j)=x; v[{i,j}]=x; q[i].insert(j); } A.compress(); same(A,q,m,"reused "); values(A,v,"reused "); return; }
  same(A,p,m); values(A,w); throws<BCRSMatrixError>([&]{ A.compress(); },"compress a built matrix "); throws<BCRSMatrixError>([&]{ Bld t(A); },"builder of a built matrix "); copies2(c,A,p,m); }
void misuse(Case& c) { using M=BCRSMatrix<double>; Rng& r=c.rng; S n=r.in(1,4), m=r.in(1,4); auto E=[&](auto f, const char* w){ throws<BCRSMatrixError>(f,w); };
  { M A; E([&]{ A.setrowsize(0,1); },"setrowsize without mode "); E([&]{ A.addindex(0,0); },"addindex without mode "); A.setBuildMode(M::random); E([&]{ A.setrowsize(0,1); },"setrowsize before setSize "); E([&]{ A.incrementrowsize(0); },"incrementrowsize before setSize "); E([&]{ A.endrowsizes(); },"endrowsizes before setSize "); E([&]{ A.addindex(0,0); },"addindex before setSize "); E([&]{ A.endindices(); },"endindices before setSize "); E([&]{ A.compress(); },"compress in random mode "); E([&]{ A.createbegin(); },"createbegin in random mode "); }
  { M A(n,m,M::random); E([&]{ A.addindex(0,0); },"addindex before endrowsizes "); E([&]{ A.endindices(); },"endindices before endrowsizes "); E([&]{ A.createbegin(); },"createbegin in random mode "); for (S i=0;i<n;++i) A.setrowsize(i,1); A.endrowsizes(); E([&]{ A.setrowsize(0,1); },"setrowsize after endrowsizes "); E([&]{ A.incrementrowsize(0); },"incrementrowsize after endrowsizes "); E([&]{ A.endrowsizes(); },"endrowsizes twice "); throws<InvalidStateException>([&]{ A.setBuildMode(M::row_wise); },"mode change after endrowsizes "); throws<InvalidStateException>([&]{ M B(A); },"copy of an unfinished matrix "); M T; throws<InvalidStateException>([&]{ T=A; },"assignment of an unfinished matrix "); throws<InvalidStateException>([&]{ A=T; },"assignment to an unfinished matrix ");
    for (S i=0;i<n;++i) A.addindex(i,i%m); A.endindices(); E([&]{ A.addindex(0,0); },"addindex after endindices "); E([&]{ A.endindices(); },"endindices twice "); E([&]{ A.setrowsize(0,1); },"setrowsize after endindices "); E([&]{ A.endrowsizes(); },"endrowsizes after endindices "); throws<InvalidStateException>([&]{ A.setBuildMode(M::row_wise); },"mode change of a built matrix "); std::vector<std::set<S>> p(n); for (S i=0;i<n;++i) p[i].insert(i%m); same(A,p,m); }
  { M A(n,m,M::row_wise); E([&]{ A.setrowsize(0,1); },"setrowsize in row-wise mode "); E([&]{ A.endrowsizes(); },"endrowsizes in row-wise mode "); E([&]{ A.addindex(0,0); },"addindex in row-wise mode "); E([&]{ A.endindices(); },"endindices in row-wise mode "); E([&]{ A.incrementrowsize(0); },"incrementrowsize in row-wise mode "); E([&]{ A.compress(); },"compress in row-wise mode "); throws<InvalidStateException>([&]{ M B(A); },"copy of an unfinished matrix "); }
  { M A; A.setBuildMode(M::implicit); throws<InvalidStateException>([&]{ A.setSize(n,m); },"implicit mode without parameters "); E([&]{ A.setImplicitBuildModeParameters(2,-0.1); },"negative buffer size "); E([&]{ M B(n,m,2,-0.5,M::implicit); },"negative buffer size "); E([&]{ M B(n,m,2,0.5,M::random); },"implicit constructor for another mode "); E([&]{ A.setBuildMode(M::implicit); A.setImplicitBuildModeParameters(2,0.1); A.setSize(n,m,7); },"number of nonzeroes in implicit mode "); E([&]{ A.compress(); },"compress before setSize "); A.setSize(n,m); throws<InvalidStateException>([&]{ A.setImplicitBuildModeParameters(3,0.1); },"parameters after setSize "); throws<InvalidStateException>([&]{ A.setBuildMode(M::random); },"mode change in implicit mode "); E([&]{ A.setrowsize(0,1); },"setrowsize in implicit mode "); A.entry(0,0)=1; A.compress(); throws<InvalidStateException>([&]{ A.setImplicitBuildModeParameters(3,0.1); },"parameters of a built matrix "); using Bld=ImplicitMatrixBuilder<M>; E([&]{ Bld b(A,n,m,2,0.1); },"builder for an allocated matrix "); M Q(n,m,M::random); E([&]{ Bld b(Q); },"builder in random mode "); } c.desc << n << "x" << m; }
template<class I> void mis(Case& c) { Rng& r=c.rng; S n=randomSize(r,c.no), m=r.chance(50)?n:randomSize(r,c.no); if (r.chance(10)) m=r.in(50,5000); auto p=pat(r,n,m); S mv=r.chance(40)?2048:r.in(0,6); bool rs=r.chance(30); MatrixIndexSet s = rs ? MatrixIndexSet(mv) : MatrixIndexSet(n,m,mv); if (rs) { CHECK(s.rows()==0 && s.cols()==0,"fresh index set",0); s.resize(n,m); } c.desc << n << "x" << m << " maxVectorSize " << mv << " " << showp(p);
  std::vector<std::pair<S,S>> e; for (S i=0;i<n;++i) for (S j : p[i]) { e.emplace_back(i,j); while (r.chance(20)) e.emplace_back(i,j); } shuffle(r,e); for (auto& x : e) s.add(x.first,x.second);
  if (r.chance(30) && n && m) { S a=r.in(0,n), b=r.in(0,m); auto q=pat(r,n-a,m-b); Pattern t(n-a); for (S i=0;i<n-a;++i) for (S j : q[i]) { t[i].push_back(j); p[i+a].insert(j+b); } BCRSMatrix<double> B; buildAny(r,B,t,m-b); if (a||b) s.import(B,a,b); else s.import(B); c.desc << " import at " << a << "," << b << " " << show(t); std::vector<std::set<S>> q2(q); same(B,q2,m-b,"imported "); }
  CHECK(s.rows()==n && s.cols()==m,"size of the index set",n); CHECK(s.size()==count(p),"number of indices ",s.size()," of ",count(p)); for (S i=0;i<n;++i) { CHECK(s.rowsize(i)==p[i].size(),"row ",i); std::visit([&](auto& v) { auto w=p[i].begin(); for (auto j : v) { CHECK(w!=p[i].end() && S(j)==*w,"column ",j," of row ",i); ++w; } CHECK(w==p[i].end(),"columns of row",i); }, s.columnIndices(i)); }
  BCRSMatrix<double> A; if (r.chance(30)) { Pattern t(2); t[0]={0}; t[1]={0,1}; buildAny(r,A,t,2); } s.exportIdx(A); same(A,p,m); copies2(c,A,p,m); MatrixIndexSet s2(s); BCRSMatrix<FieldMatrix<double,2,2>> A2; s2.exportIdx(A2); same(A2,p,m); if (n && m) { S i=r.in(0,n-1), j=r.in(0,m-1); s.add(i,j); BCRSMatrix<double> A3; s2.exportIdx(A3); same(A3,p,m); p[i].insert(j); s.exportIdx(A3); same(A3,p,m); } }
// copying and assigning across build modes, sizes and lifetimes
template<class B> void cpy(Case& c) { using M=BCRSMatrix<B>; Rng& r=c.rng; auto mk=[&](M& A, std::vector<std::set<S>>& p, S n, S m){ p=pat(r,n,m); int how=int(r.in(0,4)); c.desc << how << ":" << n << "x" << m << " " << showp(p) << " "; Pattern t(n); for (S i=0;i<n;++i) t[i].assign(p[i].begin(),p[i].end());
    if (how<4) { if (A.buildStage()==M::built && A.buildMode()!=M::implicit) A.setSize(r.in(0,3),r.in(0,3)); buildAny(r,A,t,m); if (how==3) { M X; X=A; A=X; } } else { M X(n,m,std::max<S>(m,1),0.5,M::implicit); B z; fillv(r,z); for (S i=0;i<n;++i) for (S j : p[i]) X.entry(i,j)=z; X.compress(); A=X; } };
  S n=r.in(0,5), m=r.in(0,5), n2=r.chance(50)?n:r.in(0,5), m2=r.chance(50)?m:r.in(0,5); std::unique_ptr<M> a(new M); std::vector<std::set<S>> p,q; mk(*a,p,n,m); auto w=fill(r,*a); M b; if (r.chance(80)) mk(b,q,n2,m2); b=*a; same(b,p,m,"assigned "); values(b,w,"assigned "); same(*a,p,m,"source "); values(*a,w,"source ");
  std::unique_ptr<M> d(new M(*a)); M e(b); auto we=fill(r,e); auto wa=fill(r,*a); values(b,w,"assigned "); values(*d,w,"copy "); values(e,we,"copy of the assigned "); values(*a,wa,"source ");
  switch (r.in(0,3)) { case 0: a.reset(); break; case 1: mk(*a,q,n2,m2); same(*a,q,m2,"rebuilt source "); break; case 2: a->setSize(n2,m2); break; default: *a=M(); CHECK(a->N()==0 && a->M()==0 && a->nonzeroes()==0,"assigned from an empty matrix",a->N()); } same(b,p,m,"assigned after its source is gone "); values(b,w,"assigned after its source is gone "); same(*d,p,m,"copy after its source is gone "); values(*d,w,"copy "); mk(b,q,n2,m2); same(b,q,m2,"rebuilt "); same(*d,p,m,"copy "); values(*d,w,"copy "); same(e,p,m,"copy of the assigned "); values(e,we,"copy of the assigned "); d.reset(); same(e,p,m,"copy of the assigned "); values(e,we,"copy of the assigned "); 
  M x, y(x); x=y; CHECK(x.N()==0 && x.nonzeroes()==0,"empty copy",x.N()); e=x; CHECK(e.N()==0 && e.nonzeroes()==0,"assigned from an empty matrix",e.N()); }
void register_sections() { Dune::dwarn.push(false);
  section("random", rnd<double>,3); section("random2", rnd<FieldMatrix<double,2,2>>); section("randomc", rnd<C>); section("rowwise", roww<double>,3); section("rowwise2", roww<FieldMatrix<double,2,1>>); section("implicit", impl<double>,4); section("implicit2", impl<FieldMatrix<double,2,2>>,2); section("misuse", misuse,1,200); section("indexset", mis<S>,3); section("copies", cpy<double>,2); section("copies2", cpy<FieldMatrix<double,1,2>>); }
NATIVE_MAIN
