#include "solv.hh"
using namespace Dune; using namespace nat;
template<class V> bool finite(const V& v) { return std::isfinite(v.two_norm()); }
template<template<class> class S, class K, bool hr, bool ae, int id> void solve(Case& c) {
  using SY=Sys<K>; using V=typename SY::V; Rng& r=c.rng; bool needsym = id==1||id==2||id==4||id>=7; SY s; s.make(c, needsym || r.chance(30));
  RecOp<K> op(s.A); RecSp<K> sp; int pk=int(r.in(0,5)); if (id==4 && (pk==5||pk==4)) pk=2; RecPrec<K> pr(s,pk,r.next());
  double red = r.chance(15) ? 0 : std::pow(10.,-double(r.in(0,12))); if (id>=4 && id<=6 && red<1e-8) red=1e-8;
  int restart = int(r.in(id==7?2:1,6)), maxit=int(r.in(r.chance(20)?0:1,14)); if (r.chance(20)) { restart=int(s.n)+int(r.in(id==7?1:0,1)); maxit=60; }
  if (r.chance(10)) { if (r.chance(50)) op.boom=int(r.in(1,12)); else pr.boom=int(r.in(1,10)); }
  c.desc << " prec=" << pk << " red=" << red << " restart=" << restart << " maxit=" << maxit << " boom=" << op.boom << "/" << pr.boom; c.sig=c.desc.str();
  auto so=Mk<S,K,hr,ae>::get(op,sp,pr,red,restart,maxit); V x(s.x0), b(s.b0); InverseOperatorResult res; bool thrown=false;
  try { so->apply(x,b,res); } catch (Boom&) { thrown=true; } catch (SolverAbort&) { thrown=true; }
  double top=std::max(1.0,std::max(op.top,std::max(s.x0.infinity_norm(),s.b0.infinity_norm()))); if (!finite(x) || !finite(b)) { CHECK(!res.converged || thrown || pk==3 || pk==5, "converged with a solution that is not finite"); return; }
  top=std::max(top,double(x.infinity_norm())); double tol=1e-9*top*s.A.infinity_norm()*(1+res.iterations);
  if (pk==3) for (std::size_t i=1;i<s.n;i+=2) CHECK(std::abs(x[i][0]-s.x0[i][0])<=tol,"component ",i," is outside the corrections the preconditioner made: ",x[i][0]," was ",s.x0[i][0]);
  if (thrown) return;
  V d(s.b0); s.A.mmv(x,d);                              // true defect
  if (id!=4 && id!=5 && id!=6) { V e(d); e-=b; CHECK(e.infinity_norm()<=tol,"b is not b-Ax: off by ",e.infinity_norm()," after ",res.iterations," steps (tol ",tol,")"); }
  // the defect norm a solver reports is the one of the x it returns (constant preconditioners, moderate accuracy)
  V d0(s.b0); s.A.mmv(s.x0,d0);
  if ((id==5 && pk!=4 && pk!=5 && pk!=3) || (id==4 && pk<=2) || (id==6 && pk!=5)) if (res.iterations>0 && d0.two_norm()>1e-6) {
    auto pnorm=[&](const V& w) { double f = pk==1?0.5:1, t=0; for (std::size_t i=0;i<s.n;++i) { double m=std::abs(w[i][0]), q = pk==2 ? 1/std::abs(s.A[i][i][0][0]) : f; t += id==5 ? m*m*q*q : id==4 ? m*m*q : m*m; } return std::sqrt(t); };
    double n0=pnorm(d0); if (id==4) { n0=0; for (std::size_t i=0;i<s.n;++i) { double q = pk==2 ? 1/std::abs(s.A[i][i][0][0]) : pk==1?0.5:1, m=std::abs(d0[i][0])*q; n0+=m*m; } n0=std::sqrt(n0); }  // MINRES measures the first defect differently
    double want=pnorm(d), got=res.reduction*n0; if (id==6 && pk==3) return;
    CHECK(std::abs(want-got)<=1e-6*std::max(pnorm(d0),top), "reported defect ",got," but x has ",want," after ",res.iterations," iterations"); }
}
void register_sections() {
#define S1(S,K,a,b,id) section(#S "<" #K ">", [](Case& c){ solve<S,K,a,b,id>(c); });
  FOR_SOLVERS(double,S1)
  using cplx=std::complex<double>;
  FOR_SOLVERS(cplx,S1)
}
NATIVE_MAIN
