#include "solv.hh"
using namespace Dune; using namespace nat;
template<template<class> class S, class K, bool hr, bool ae, int id> void proto(Case& c) {
  using SY=Sys<K>; using V=typename SY::V; Rng& r=c.rng; bool needsym = id==1||id==2||id==4||id>=7; SY s; s.make(c, needsym || r.chance(30));
  RecOp<K> op(s.A); RecSp<K> sp; int pk=int(r.in(0,5)); if (id==4 && (pk==5||pk==4)) pk=2; std::uint64_t ps=r.next(); RecPrec<K> pr(s,pk,ps);
  double red = r.chance(10) ? 0 : r.chance(10) ? 1 : r.chance(5) ? 1e9 : std::pow(10.,-double(r.in(0,10))); double conf = r.chance(50) ? 1e-3 : std::pow(10.,-double(r.in(0,10))); bool once=r.chance(50);
  int restart = int(r.in(id==7?2:1,5)), maxit=int(r.in(0,12)); if (r.chance(20)) maxit=50;
  int opb=-1, prb=-1; if (r.chance(15)) { if (r.chance(50)) opb=int(r.in(1,12)); else prb=int(r.in(1,10)); } op.boom=opb; pr.boom=prb;
  c.desc << " prec=" << pk << " red=" << red << (once?" one-off, configured ":" configured ") << conf << " restart=" << restart << " maxit=" << maxit << " boom=" << opb << "/" << prb; c.sig=c.desc.str();
  auto so=Mk<S,K,hr,ae>::get(op,sp,pr,once?conf:red,restart,maxit); V x(s.x0), b(s.b0); InverseOperatorResult res; res.iterations=99; res.converged=true; bool thrown=false;
  double before=so->red();
  try { if (once) so->apply(x,b,red,res); else so->apply(x,b,res); } catch (Boom&) { thrown=true; } catch (SolverAbort&) { thrown=true; }
  CHECK(so->red()==before,"the configured reduction is ",so->red()," after the solve, was ",before,thrown?" (the solve threw)":"");
  CHECK(!pr.bad,pr.why); CHECK(pr.pre_==1 && (thrown ? pr.post_<=1 : pr.post_==1),"pre ",pr.pre_," post ",pr.post_);
  if (thrown) return;
  CHECK(res.iterations>=0 && res.iterations<=maxit,"iterations ",res.iterations," maximum ",maxit);
  if (id<4 || id>6) {          // the norms of the defect are the ones the scalar product gave
    CHECK(!sp.norms.empty(),"no defect norm was computed"); double f=sp.norms.front(), l=sp.norms.back();
    bool want = l<f*red || l<1e-30; CHECK(bool(res.converged)==want,"converged ",bool(res.converged)," first ",f," last ",l," reduction ",red);
    if (f>0 && std::isfinite(l)) CHECK(std::abs(res.reduction-l/f)<=1e-12*std::abs(l/f),"reduction ",res.reduction," want ",l/f);
  } else if (!sp.norms.empty() && sp.norms.front()>0 && std::isfinite(res.reduction)) { double f=sp.norms.front(); 
    if (res.reduction < red*(1-1e-12)) CHECK(res.converged,"not converged at reduction ",res.reduction," asked ",red); 
    if (res.reduction*f > 1.1e-30 && res.reduction > red*(1+1e-12)) CHECK(!res.converged,"converged at reduction ",res.reduction," asked ",red); }
  // a one-off reduction has the effect of a solver configured with it, and the next solve is the one of a fresh solver
  if (opb<0 && prb<0) { RecOp<K> op2(s.A); RecSp<K> sp2; RecPrec<K> pr2(s,pk,ps); auto s2=Mk<S,K,hr,ae>::get(op2,sp2,pr2,red,restart,maxit); V x2(s.x0), b2(s.b0); InverseOperatorResult r2; s2->apply(x2,b2,r2);
    CHECK(bool(r2.converged)==bool(res.converged) && r2.iterations==res.iterations,"a solver configured with the reduction does ",r2.iterations," iterations, this one ",res.iterations); for (std::size_t i=0;i<s.n;++i) CHECK(x2[i]==x[i] || !(std::abs(x[i][0])<1e300),"iterates differ at ",i);
    if (once) { pr.pre_=pr.post_=pr.applies=0; pr.rng=Rng(ps); RecPrec<K> pr3(s,pk,ps); auto s3=Mk<S,K,hr,ae>::get(op2,sp2,pr3,conf,restart,maxit); V x3(s.x0), b3(s.b0), x4(s.x0), b4(s.b0); InverseOperatorResult r3, r4; bool t3=false, t4=false;
      try { s3->apply(x3,b3,r3); } catch (SolverAbort&) { t3=true; } try { so->apply(x4,b4,r4); } catch (SolverAbort&) { t4=true; }
      CHECK(t3==t4 && (t3 || (r3.iterations==r4.iterations && bool(r3.converged)==bool(r4.converged))),"the solve after the one-off reduction differs from the one of a fresh solver: ",r4.iterations," iterations, want ",r3.iterations); } }
}
void register_sections() {
#define S1(S,K,a,b,id) section(#S "<" #K ">", [](Case& c){ proto<S,K,a,b,id>(c); });
  FOR_SOLVERS(double,S1)
  using cplx=std::complex<double>;
  FOR_SOLVERS(cplx,S1)
}
NATIVE_MAIN
