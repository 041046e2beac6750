#include "gen.hh"
#include <dune/istl/eigenvalue/poweriteration.hh>
using namespace Dune; using namespace nat; using S=std::size_t;
typedef long double LD;
// dense solve with the operator (or the matrix) given; refuses singular systems
template<class V> struct Base : InverseOperator<V,V> { double err=0; Rng* r=nullptr; int calls=0; using InverseOperator<V,V>::apply;
  static std::vector<double*> flat(V& v) { std::vector<double*> o; for (auto& b : v) for (auto& x : b) o.push_back(&x); return o; }
  void dense(std::vector<std::vector<LD>> a, V& x, V& b) { ++calls; auto X=flat(x), B=flat(b); S n=X.size(); std::vector<LD> y(n); for (S i=0;i<n;++i) y[i]=*B[i];
    for (S k=0;k<n;++k) { S p=k; for (S i=k;i<n;++i) if (std::abs(a[i][k])>std::abs(a[p][k])) p=i; if (std::abs(a[p][k])<1e-13L) DUNE_THROW(ISTLError,"singular"); std::swap(a[k],a[p]); std::swap(y[k],y[p]);
      for (S i=k+1;i<n;++i) { LD f=a[i][k]/a[k][k]; for (S j=k;j<n;++j) a[i][j]-=f*a[k][j]; y[i]-=f*y[k]; } }
    for (S k=n;k-->0;) { for (S j=k+1;j<n;++j) y[k]-=a[k][j]*y[j]; y[k]/=a[k][k]; }
    LD nn=0; for (S i=0;i<n;++i) nn+=y[i]*y[i]; nn=std::sqrt(nn); for (S i=0;i<n;++i) *X[i]=double(y[i]+(err?err*nn*r->in(-100,100)/100.0L:0)); for (auto q : B) *q=0; }
  void apply(V& x, V& b, double, InverseOperatorResult& s) override { static_cast<InverseOperator<V,V>&>(*this).apply(x,b,s); }
  SolverCategory::Category category() const override { return SolverCategory::sequential; } };
template<class V, class O> struct OpSolver : Base<V> { O& op; OpSolver(O& o) : op(o) {} using Base<V>::apply;
  void apply(V& x, V& b, InverseOperatorResult& s) override { V e(x), f(x); auto E=this->flat(e); S n=E.size(); std::vector<std::vector<LD>> a(n,std::vector<LD>(n)); bool scaled=n%2; for (S j=0;j<n;++j) { for (auto q : E) *q=0; *E[j]=1; if (scaled) { f=0; op.applyscaleadd(1.0,e,f); } else op.apply(e,f); auto F=this->flat(f); for (S i=0;i<n;++i) a[i][j]=*F[i]; } this->dense(a,x,b); s.converged=true; } };
template<class V, class M> struct MatSolver : Base<V> { std::vector<std::vector<LD>> a; MatSolver(const M& m) { setMatrix(m); } using Base<V>::apply;
  void setMatrix(const M& m) { constexpr int b=M::block_type::rows; S n=m.N()*b; a.assign(n,std::vector<LD>(n)); for (auto i=m.begin();i!=m.end();++i) for (auto j=i->begin();j!=i->end();++j) for (int k=0;k<b;++k) for (int l=0;l<b;++l) a[i.index()*b+k][j.index()*b+l]=(*j)[k][l]; }
  void apply(V& x, V& b, InverseOperatorResult& s) override { this->dense(a,x,b); s.converged=true; } };
namespace Dune { template<class V,class M> struct IsDirectSolver<MatSolver<V,M>> { enum { value=true }; }; }
template<int b> struct Sys { using M=BCRSMatrix<FieldMatrix<double,b,b>>; using V=BlockVector<FieldVector<double,b>>;
  M A; S n; std::vector<std::vector<LD>> d; LD norm=0;
  Sys(Case& c) { Rng& r=c.rng; n=r.in(1,5); int kind=int(r.in(0,4)); std::vector<std::set<S>> p(n); bool dense=r.chance(60); for (S i=0;i<n;++i) for (S j=0;j<n;++j) if (i==j || dense || r.chance(40)) { p[i].insert(j); p[j].insert(i); }
    Pattern q(n); for (S i=0;i<n;++i) q[i].assign(p[i].begin(),p[i].end()); buildAny(r,A,q,n); c.desc << " n=" << n << " b=" << b << " kind=" << kind << " dense=" << dense; d.assign(n*b,std::vector<LD>(n*b)); S N=n*b;
    for (auto i=A.begin();i!=A.end();++i) for (auto j=i->begin();j!=i->end();++j) for (int k=0;k<b;++k) for (int l=0;l<b;++l) (*j)[k][l]=r.in(-6,6)/2.0;
    if (kind<3) for (S i=0;i<N;++i) for (S j=0;j<i;++j) if (p[i/b].count(j/b)) A[j/b][i/b][j%b][i%b]=A[i/b][j/b][i%b][j%b];
    if (kind==1) for (S i=0;i<N;++i) A[i/b][i/b][i%b][i%b]+=8*N;
    if (kind==2) for (S i=0;i<N;++i) for (S j=0;j<N;++j) if (p[i/b].count(j/b)) A[i/b][j/b][i%b][j%b]= i==j ? double(i)-1 : 0;                // diagonal, with a kernel
    for (S i=0;i<N;++i) for (S j=0;j<N;++j) if (p[i/b].count(j/b)) { d[i][j]=A[i/b][j/b][i%b][j%b]; norm+=std::abs(d[i][j]); } }
  V start(Rng& r) { V x(n); bool unit=r.chance(15); S z=r.in(0,n-1); for (S i=0;i<n;++i) for (int k=0;k<b;++k) x[i][k]= unit ? (i==z && k==0) : r.in(-8,8)/4.0; if (!(x.two_norm()>0)) x[0][0]=1; return x; }
  // the returned pair is an eigenpair up to the tolerance
  void check(const V& x, double lambda, double eps, double mu=0, bool quotient=true) { S N=n*b; std::vector<LD> v; for (auto& q : x) for (auto e : q) v.push_back(e); CHECK(v.size()==N,"size",v.size()); LD nn=0, rr=0, q=0; for (auto e : v) nn+=e*e;
    CHECK(std::abs(nn-1)<1e-9L,"the vector has norm ",(double)std::sqrt(nn)); for (S i=0;i<N;++i) { LD t=0; for (S j=0;j<N;++j) t+=d[i][j]*v[j]; q+=v[i]*t; rr+=(t-LD(lambda)*v[i])*(t-LD(lambda)*v[i]); }
    LD slack=1e-8L*(1+norm+std::abs(mu)); rr=std::sqrt(rr); CHECK(rr<=eps+slack,"residual ",(double)rr," tolerance ",eps," lambda ",lambda); if (quotient) CHECK(std::abs(q-LD(lambda))<=slack,"Rayleigh quotient ",(double)q," returned value ",lambda); } };
template<int b> void run(Case& c) { Rng& r=c.rng; Sys<b> s(c); using M=typename Sys<b>::M; using V=typename Sys<b>::V; M A0(s.A); struct Open : PowerIteration_Algorithms<M,V> { using Base_=PowerIteration_Algorithms<M,V>; using Base_::Base_; };
  Open p(s.A,unsigned(r.in(1,60))); using O=typename Open::IterationOperator; O& op=p.getIterationOperator(); OpSolver<V,O> os(op); std::unique_ptr<MatSolver<V,M>> ms; if (r.chance(40)) { ms=std::make_unique<MatSolver<V,M>>(p.getIterationMatrix()); c.desc << " early matrix"; } double lambda=0;
  bool t=false; try { p.getIterationCount(); } catch (const ISTLError&) { t=true; } CHECK(t,"getIterationCount before the first run",0);
  int calls=int(r.in(1,4)); bool wasdirect=true; for (int k=0;k<calls;++k) { int alg=int(r.in(0,4)); bool crime=r.chance(50), direct=r.chance(50); double eps=r.chance(20)?0.5:r.chance(50)?1e-3:1e-6; double gamma=r.chance(20)?0:r.in(-20,20)/3.0; bool fresh=direct && (!ms || (k && !wasdirect)); wasdirect=direct; if (fresh) { ms=std::make_unique<MatSolver<V,M>>(p.getIterationMatrix()); c.desc << " late matrix"; }
    if (alg==1) gamma=0; if (r.chance(30)) lambda=r.in(-20,20)/3.0; os.err=crime?0:(r.chance(30)?1e-2:0); os.r=&r; if (ms) { ms->err=os.err; ms->r=&r; } V x=s.start(r); c.desc << " [" << alg << (crime?" ":" exact-residual ") << (direct?"direct":"operator") << " eps " << eps << " gamma " << gamma << " err " << os.err << "]";
    auto call=[&](auto& sol) { using T=std::decay_t<decltype(sol)>; bool ex; double eta=r.in(1,20)/4.0; S m=S(r.in(0,6));
      switch (alg) { case 0: p.applyPowerIteration(eps,x,lambda); break;
        case 1: if (crime) p.applyInverseIteration(eps,sol,x,lambda); else p.template applyInverseIteration<T,true>(eps,sol,x,lambda); break;
        case 2: if (crime) p.applyInverseIteration(gamma,eps,sol,x,lambda); else p.template applyInverseIteration<T,true>(gamma,eps,sol,x,lambda); break;
        case 3: if (crime) p.applyRayleighQuotientIteration(eps,sol,x,lambda); else p.template applyRayleighQuotientIteration<T,true>(eps,sol,x,lambda); break;
        default: if (crime) p.applyTLIMEIteration(gamma,eta,eps,sol,1e-2,m,ex,x,lambda); else p.template applyTLIMEIteration<T,true>(gamma,eta,eps,sol,1e-2,m,ex,x,lambda); } };
    try { if (direct) call(*ms); else call(os); } catch (const ISTLError&) { c.desc << " throws"; lambda=r.in(-9,9); continue; }
    CHECK(p.getIterationCount()>=1,"iterations",p.getIterationCount()); s.check(x,lambda,eps,gamma); }
  for (auto i=A0.begin();i!=A0.end();++i) for (auto j=i->begin();j!=i->end();++j) CHECK(s.A[i.index()][j.index()]==*j,"the matrix is modified at ",i.index()); }
// the operator and the matrix handed to the solvers are A - mu I
template<int b> void shift(Case& c) { Rng& r=c.rng; Sys<b> s(c); using M=typename Sys<b>::M; using V=typename Sys<b>::V; PowerIteration_Algorithms<M,V> p(s.A,1000); double mu=r.in(-40,40)/3.0; bool early=r.chance(50); const M* I=early?&p.getIterationMatrix():nullptr; OpSolver<V,typename PowerIteration_Algorithms<M,V>::IterationOperator> os(p.getIterationOperator()); V x=s.start(r); double lambda=0;
  int k=int(r.in(0,2)); for (int i=0;i<k;++i) { mu=r.in(-40,40)/3.0; try { p.applyInverseIteration(mu,1e300,os,x,lambda); } catch (const ISTLError&) {} } if (!k) mu=0; c.desc << " mu=" << mu << " early=" << early << " shifts=" << k; if (!I) I=&p.getIterationMatrix(); S n=s.n; CHECK(I->N()==n && I->M()==n && I->nonzeroes()==s.A.nonzeroes(),"size",I->N());
  for (auto i=s.A.begin();i!=s.A.end();++i) for (auto j=i->begin();j!=i->end();++j) for (int g=0;g<b;++g) for (int h=0;h<b;++h) { double w=(*j)[g][h]-(i.index()==j.index()&&g==h?mu:0); CHECK((*I)[i.index()][j.index()][g][h]==w,"iteration matrix (",i.index(),",",j.index(),") is ",(*I)[i.index()][j.index()][g][h]," wanted ",w); }
  V y(n), w(n); x=s.start(r); double al=r.in(-8,8)/4.0; for (S i=0;i<n;++i) for (int g=0;g<b;++g) y[i][g]=r.in(-8,8)/4.0; for (int op=0;op<2;++op) { w=y; if (op) p.getIterationOperator().applyscaleadd(al,x,w); else p.getIterationOperator().apply(x,w);
    for (S i=0;i<n;++i) for (int g=0;g<b;++g) { LD t=-LD(mu)*x[i][g]; for (S j=0;j<n;++j) for (int h=0;h<b;++h) t+=s.d[i*b+g][j*b+h]*x[j][h]; if (op) t=y[i][g]+al*t; CHECK(std::abs(t-w[i][g])<=1e-10*(1+s.norm+std::abs(mu))*20,"operator ",op," at ",i," is ",w[i][g]," wanted ",(double)t); } } 
  CHECK(p.getIterationOperator().category()==SolverCategory::sequential,"category",0); }
// non-square matrices are rejected
void square(Case& c) { Rng& r=c.rng; S n=r.in(1,4), m=r.in(1,4); using M=BCRSMatrix<FieldMatrix<double,2,2>>; using V=BlockVector<FieldVector<double,2>>; M A; auto p=randomPattern(r,n,m); buildAny(r,A,p,m); c.desc << n << "x" << m; bool t=false; try { PowerIteration_Algorithms<M,V> q(A); } catch (const ISTLError&) { t=true; } CHECK(t==(n!=m),"exception ",t); }
void register_sections() { section("run1", run<1>,4); section("run2", run<2>,2); section("run3", run<3>,1); section("shift1", shift<1>,1); section("shift2", shift<2>,1); section("square", square,1,40); }
NATIVE_MAIN
