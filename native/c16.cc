#include "gen.hh"
#include <dune/common/parametertree.hh>
#include <dune/istl/preconditioners.hh>
#include <dune/istl/operators.hh>
#include <dune/istl/scalarproducts.hh>
#include <dune/istl/solvers.hh>
#include <dune/istl/schwarz.hh>
#include <dune/istl/novlpschwarz.hh>
using namespace Dune; using namespace nat;
template<class B> struct VT { using K=B; using V=B; }; template<class T,int n> struct VT<FieldMatrix<T,n,n>> { using K=T; using V=FieldVector<T,n>; };
template<class K> K dia(Rng& r, double s) { return K(r.chance(50)?s:-s); }
template<class K> void setd(Rng& r, K& d, double s) { d=dia<K>(r,s); }
template<class K,int n> void setd(Rng& r, FieldMatrix<K,n,n>& d, double s) { fillv(r,d); for (int i=0;i<n;++i) d[i][i]=dia<K>(r,s+4*n); }
inline double mag(double x) { return std::abs(x); } template<class R> double mag(std::complex<R> x) { return std::abs(x); } template<class K,int n> double mag(const FieldVector<K,n>& v) { double s=0; for (auto& e:v) s=std::max(s,double(std::abs(e))); return s; }
template<class V> void same(const V& a, const V& b, const char* what, double tol=1e-12) { CHECK(a.size()==b.size(),what,": size"); double s=1; for (auto& e:b) s=std::max(s,mag(e)); for (std::size_t i=0;i<a.size();++i) { auto d=a[i]; d-=b[i]; CHECK(mag(d)<=tol*s,what,": entry ",i," got ",a[i]," want ",b[i]); } }
template<class B> struct Prob { using K=typename VT<B>::K; using V=BlockVector<typename VT<B>::V>; using M=BCRSMatrix<B>; M A,A0; V v,d,v0,d0; Pattern p; std::size_t N;
  void make(Case& c, bool sym=false) { Rng& r=c.rng; N=std::min<std::size_t>(20,std::max<std::size_t>(1,randomSize(r,c.no))); p=randomPattern(r,N,N,true);
    if (sym) { std::vector<std::set<std::size_t>> q(N); for (std::size_t i=0;i<N;++i) for (auto j:p[i]) { q[i].insert(j); q[j].insert(i); } for (std::size_t i=0;i<N;++i) p[i].assign(q[i].begin(),q[i].end()); }
    buildAny(r,A,p,N); fillm(r,A); for (std::size_t i=0;i<N;++i) setd(r,A[i][i],4.0*(1+N)); if (sym) for (std::size_t i=0;i<N;++i) for (auto j=A[i].begin();j!=A[i].end();++j) if (j.index()<i) A[j.index()][i]=*j;
    v.resize(N); d.resize(N); fillv(r,v); fillv(r,d); v0=v; d0=d; A0=A; c.desc << " n=" << N << " p=" << show(p); }
  void unchanged() { for (std::size_t i=0;i<N;++i) for (auto j=A[i].begin();j!=A[i].end();++j) CHECK(*j==A0[i][j.index()],"matrix changed"); for (std::size_t i=0;i<N;++i) CHECK(d[i]==d0[i],"defect changed"); } };
template<class K> K wt(Rng& r) { static const double w[]={1,1,0.5,1.5,0.75,2,0,-1}; return K(w[r.in(0,7)]); }
template<class B> void precs(Case& c) {
  using P=Prob<B>; using M=typename P::M; using V=typename P::V; using K=typename P::K; Rng& r=c.rng; int op=int(r.in(0,8)); P q; q.make(c, op==8); int n=int(r.in(0,4)); double w=wt<double>(r); bool tree=r.chance(40), dflt=tree&&r.chance(30), shared=r.chance(50); static const char* nm[]={"ssor","sor","gs","jac","dilu","ilu","iluw","rich","ildl"}; c.desc << " " << nm[op] << " sweeps " << n << " w " << w << (tree?" tree":"") << (dflt?" default":"");
  ParameterTree t; if (!dflt) { t["iterations"]=std::to_string(n); std::ostringstream s; s.precision(17); s << w; t["relaxation"]=s.str(); t["n"]=std::to_string(n); } bool resort=r.chance(50); if (resort && !dflt) t["resort"]="true"; c.desc << (resort?" resort":"");
  if (dflt) { n=1; w=1; if (op==5||op==6) n=0; if (op==5||op==6) resort=false; }
  auto opr=std::make_shared<MatrixAdapter<M,V,V>>(q.A); std::shared_ptr<const AssembledLinearOperator<M,V,V>> aop=opr; std::shared_ptr<Preconditioner<V,V>> pr; V x=q.v0; const V& d=q.d0; M& A=q.A; bool back=false;
  switch (op) {
    case 0: pr = tree ? (shared?std::make_shared<SeqSSOR<M,V,V>>(aop,t):std::make_shared<SeqSSOR<M,V,V>>(A,t)) : std::make_shared<SeqSSOR<M,V,V>>(A,n,w); for (int i=0;i<n;++i) { bsorf(A,x,d,w); bsorb(A,x,d,w); } break;
    case 1: pr = tree ? (shared?std::make_shared<SeqSOR<M,V,V>>(aop,t):std::make_shared<SeqSOR<M,V,V>>(A,t)) : std::make_shared<SeqSOR<M,V,V>>(A,n,w); back=r.chance(40); for (int i=0;i<n;++i) { if (back) bsorb(A,x,d,w); else bsorf(A,x,d,w); } break;
    case 2: pr = tree ? (shared?std::make_shared<SeqGS<M,V,V>>(aop,t):std::make_shared<SeqGS<M,V,V>>(A,t)) : std::make_shared<SeqGS<M,V,V>>(A,n,w); for (int i=0;i<n;++i) bsorf(A,x,d,w); break;
    case 3: pr = tree ? (shared?std::make_shared<SeqJac<M,V,V>>(aop,t):std::make_shared<SeqJac<M,V,V>>(A,t)) : std::make_shared<SeqJac<M,V,V>>(A,n,w); for (int i=0;i<n;++i) dbjac(A,x,d,w); break;
    case 4: { pr = tree ? (shared?std::make_shared<SeqDILU<M,V,V>>(aop,t):std::make_shared<SeqDILU<M,V,V>>(A,t)) : std::make_shared<SeqDILU<M,V,V>>(A,w); std::vector<B> D(q.N); DILU::blockDILUDecomposition(A,D); DILU::blockDILUBacksolve(A,D,x,d); x*=w; break; }
    case 5: case 6: { if (op==6 && !tree) n=0; pr = tree ? (shared?std::make_shared<SeqILU<M,V,V>>(aop,t):std::make_shared<SeqILU<M,V,V>>(A,t)) : op==6 ? std::make_shared<SeqILU<M,V,V>>(A,w,resort) : std::make_shared<SeqILU<M,V,V>>(A,n,w,resort);
      M F; if (n==0) { F=A; ILU::blockILU0Decomposition(F); } else { F.setBuildMode(M::row_wise); F.setSize(q.N,q.N); ILU::blockILUDecomposition(static_cast<const M&>(A),n,F); } ILU::blockILUBacksolve(F,x,d); x*=w; break; }
    case 7: pr = tree ? std::make_shared<Richardson<V,V>>(t) : std::make_shared<Richardson<V,V>>(w); x=d; x*=w; break;
    case 8: { M D; D.setBuildMode(M::random); D.setSize(q.N,q.N); for (std::size_t i=0;i<q.N;++i) { std::size_t k=0; for (auto j:q.p[i]) k+=j<=i; D.setrowsize(i,k); } D.endrowsizes(); for (std::size_t i=0;i<q.N;++i) for (auto j:q.p[i]) if (j<=i) D.addindex(i,j); D.endindices(); for (std::size_t i=0;i<q.N;++i) for (auto j:q.p[i]) if (j<=i) D[i][j]=A[i][j];
      pr = tree ? (shared?std::make_shared<SeqILDL<M,V,V>>(aop,t):std::make_shared<SeqILDL<M,V,V>>(A,t)) : std::make_shared<SeqILDL<M,V,V>>(A,w); bildl_decompose(D); bildl_backsolve(D,x,d,true); x*=w; break; } }
  CHECK(pr->category()==SolverCategory::sequential,"category"); V& dd=q.d; pr->pre(q.v,dd); same(q.v,q.v0,"pre changed the vector"); q.unchanged();
  if (op==1 && back) static_cast<SeqSOR<M,V,V>&>(*pr).template apply<false>(q.v,dd); else if (op==1 && r.chance(20)) static_cast<SeqSOR<M,V,V>&>(*pr).template apply<true>(q.v,dd); else pr->apply(q.v,dd);
  same(q.v,x,nm[op]); q.unchanged(); pr->post(q.v); same(q.v,x,"post changed the vector"); q.unchanged();
  // a second application starts afresh
  if (op>=4) { V y=q.v0; pr->apply(y,q.d); same(y,x,"second application"); q.unchanged(); }
}
template<class B> void adapters(Case& c) { using P=Prob<B>; using M=typename P::M; using V=typename P::V; using K=typename P::K; Rng& r=c.rng; P q; q.make(c); K al=RandK<K>::get(r); V y; y.resize(q.N); fillv(r,y); V w=y, x0=q.d; c.desc << " alpha " << al;
  std::shared_ptr<LinearOperator<V,V>> o = r.chance(50) ? std::make_shared<MatrixAdapter<M,V,V>>(q.A) : std::make_shared<MatrixAdapter<M,V,V>>(std::make_shared<const M>(q.A)); CHECK(o->category()==SolverCategory::sequential,"category");
  if (r.chance(50)) { o->apply(q.d,y); q.A.mv(q.d0,w); same(y,w,"apply",0); } else { o->applyscaleadd(al,q.d,y); q.A.usmv(al,q.d0,w); same(y,w,"applyscaleadd",0); } q.unchanged();
  SeqScalarProduct<V> s; const ScalarProduct<V>& sp=s; CHECK(sp.dot(q.v,q.d)==q.v.dot(q.d),"scalar product"); CHECK(sp.norm(q.v)==q.v.two_norm(),"norm"); CHECK(sp.category()==SolverCategory::sequential,"category"); same(q.v,q.v0,"operand",0); q.unchanged(); }
// a solver that destroys its right hand side and counts its runs
template<class V> struct Rec : InverseOperator<V,V> { int calls=0, red=0; V seen, start; using F=typename V::field_type; void apply(V& x, V& b, InverseOperatorResult& res) override { ++calls; seen=b; start=x; x=b; x*=F(3); b=F(7); res.converged=true; } void apply(V& x, V& b, double, InverseOperatorResult& res) override { ++red; apply(x,b,res); } SolverCategory::Category category() const override { return SolverCategory::sequential; } };
template<class B> void inverse(Case& c) { using P=Prob<B>; using M=typename P::M; using V=typename P::V; P q; q.make(c); Rec<V> s; InverseOperator2Preconditioner<Rec<V>> ad(s); Preconditioner<V,V>& p=ad; p.pre(q.v,q.d); same(q.v,q.v0,"pre",0); p.apply(q.v,q.d); CHECK(s.calls==1 && s.red==0,"runs ",s.calls); same(s.seen,q.d0,"defect given to the solver",0); same(s.start,q.v0,"start vector",0); q.unchanged(); V w=q.d0; w*=typename P::K(3); same(q.v,w,"result",0); p.post(q.v); same(q.v,w,"post",0); q.unchanged();
  MatrixAdapter<M,V,V> op(q.A); Richardson<V,V> ri(1.0); RestartedGMResSolver<V> g(op,ri,1e-10,50,200,0); InverseOperator2Preconditioner<RestartedGMResSolver<V>> ag(g); V z=q.v0; z=0; ag.pre(z,q.d); try { ag.apply(z,q.d); } catch (SolverAbort&) { q.unchanged(); return; } q.unchanged(); ag.post(z); V res=q.d0; q.A.mmv(z,res); CHECK(res.two_norm()<=1e-7*(1+q.d0.two_norm()),"inner solver: defect ",res.two_norm()); }
// parallel adapters around a communication that leaves a trace
struct Com { mutable std::string log; template<class V> void project(V& y) const { log+="p"; y*=2.0; } template<class V> void copyOwnerToAll(const V& x, V& y) const { log+="c"; CHECK(&x==&y,"exchange in place"); y*=3.0; } template<class V> void addOwnerCopyToOwnerCopy(const V& x, V& y) const { log+="a"; CHECK(&x==&y,"exchange in place"); y*=5.0; } template<class V,class K> void dot(const V& x, const V& y, K& r) const { log+="d"; r=K(11)*x.dot(y); } template<class V> double norm(const V& x) const { log+="n"; return 13*x.two_norm(); } };
template<class B> void parallel(Case& c) { using P=Prob<B>; using M=typename P::M; using V=typename P::V; using K=typename P::K; Rng& r=c.rng; P q; q.make(c); Com com; int op=int(r.in(0,5)), n=int(r.in(0,3)); K w=K(wt<double>(r)), al=RandK<K>::get(r); c.desc << " parallel " << op << " n=" << n << " w=" << w; V x=q.v0;
  if (op==0) { OverlappingSchwarzOperator<M,V,V,Com> o(q.A,com); o.apply(q.d,q.v); q.A.mv(q.d0,x); x*=2.0; same(q.v,x,"OverlappingSchwarzOperator"); CHECK(com.log=="p",com.log); CHECK(o.category()==SolverCategory::overlapping,"category"); }
  else if (op==1) { OverlappingSchwarzOperator<M,V,V,Com> o(q.A,com); o.applyscaleadd(al,q.d,q.v); q.A.usmv(al,q.d0,x); x*=2.0; same(q.v,x,"OverlappingSchwarzOperator"); CHECK(com.log=="p",com.log); }
  else if (op==2) { ParSSOR<M,V,V,Com> p(q.A,n,w,com); p.pre(q.v,q.d); V t=q.v0; t*=3.0; same(q.v,t,"pre"); q.v=q.v0; p.apply(q.v,q.d); for (int i=0;i<n;++i) { bsorf(q.A,x,q.d0,w); bsorb(q.A,x,q.d0,w); } x*=3.0; same(q.v,x,"ParSSOR"); CHECK(com.log=="cc",com.log); CHECK(p.category()==SolverCategory::overlapping,"category"); }
  else if (op==3) { SeqJac<M,V,V> s(q.A,1,1.0); BlockPreconditioner<V,V,Com> p(s,com); p.pre(q.v,q.d); V t=q.v0; t*=3.0; same(q.v,t,"pre"); q.v=q.v0; p.apply(q.v,q.d); s.apply(x,q.d0); x*=3.0; same(q.v,x,"BlockPreconditioner"); CHECK(com.log=="cc",com.log); p.post(q.v); same(q.v,x,"post"); CHECK(p.category()==SolverCategory::overlapping,"category"); }
  else if (op==4) { SeqSOR<M,V,V> s(q.A,n,1.0); NonoverlappingBlockPreconditioner<Com,SeqSOR<M,V,V>> p(s,com); p.pre(q.v,q.d); same(q.v,q.v0,"pre"); bool f=r.chance(50); if (r.chance(50)) { p.apply(q.v,q.d); f=true; } else if (f) p.template apply<true>(q.v,q.d); else p.template apply<false>(q.v,q.d); if (f) s.template apply<true>(x,q.d0); else s.template apply<false>(x,q.d0); x*=5.0; same(q.v,x,"NonoverlappingBlockPreconditioner"); CHECK(com.log=="a",com.log); p.post(q.v); same(q.v,x,"post"); CHECK(p.category()==SolverCategory::nonoverlapping,"category"); }
  else { int k=int(r.in(0,2)); auto cat=SolverCategory::Category(k); auto s=createScalarProduct<V>(com,cat); CHECK(s->category()==cat,"category"); K want=q.v0.dot(q.d0); double nw=q.v0.two_norm(); if (k) { want*=K(11); nw*=13; } CHECK(s->dot(q.v,q.d)==want,"dot"); CHECK(s->norm(q.v)==nw,"norm"); CHECK(com.log==(k?"dn":""),com.log); same(q.v,q.v0,"operand",0); OverlappingSchwarzScalarProduct<V,Com> a(com); NonoverlappingSchwarzScalarProduct<V,Com> b(com); CHECK(a.category()==SolverCategory::overlapping && b.category()==SolverCategory::nonoverlapping,"categories"); }
  q.unchanged(); }
void register_sections() { using FM=FieldMatrix<double,2,2>; using C=std::complex<double>;
  section("double", precs<double>, 3); section("fm22", precs<FM>, 3); section("complex", precs<FieldMatrix<C,1,1>>); section("adapt", adapters<double>); section("adapt22", adapters<FM>); section("adaptc", adapters<FieldMatrix<C,1,1>>); section("inverse", inverse<double>); section("inverse22", inverse<FM>); section("par", parallel<double>, 2); section("parc", parallel<FieldMatrix<C,1,1>>); section("par22", parallel<FM>); }
NATIVE_MAIN
