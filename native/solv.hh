// Random linear systems with recording operators, preconditioners and scalar products for the solver contracts.
#pragma once
#include "gen.hh"
#include <dune/istl/operators.hh>
#include <dune/istl/scalarproducts.hh>
#include <dune/istl/preconditioners.hh>
#include <dune/istl/solvers.hh>
#include <cmath>
namespace nat {
using namespace Dune;
struct Boom { };
template<class K> struct Sys {
  using M = BCRSMatrix<FieldMatrix<K,1,1>>; using V = BlockVector<FieldVector<K,1>>; using R = typename FieldTraits<K>::real_type;
  std::size_t n=0; M A; V x0, b0; bool sym=false; int kind=0;
  template<class T> static T conj_(T x) { return x; }
  template<class T> static std::complex<T> conj_(std::complex<T> x) { return std::conj(x); }
  void make(Case& c, bool symmetric) {
    Rng& r=c.rng; n=std::size_t(r.in(1, c.no<60 ? 4 : 10)); sym=symmetric; kind=int(r.in(0,5));
    Pattern p(n); std::vector<std::vector<K>> D(n, std::vector<K>(n,K(0)));
    for (std::size_t i=0;i<n;++i) for (std::size_t j=0;j<i;++j) if (kind!=0 && r.chance(60)) { K v=RandK<K>::get(r); D[i][j]=v; D[j][i] = sym ? conj_(v) : (r.chance(60)?RandK<K>::get(r):K(0)); }
    for (std::size_t i=0;i<n;++i) { double s=0; for (std::size_t j=0;j<n;++j) if (j!=i) s+=std::abs(D[i][j])+ (sym?0:std::abs(D[j][i])); D[i][i]=K(kind==0 ? 2.0 : s+double(r.in(1,5))); }
    for (std::size_t i=0;i<n;++i) for (std::size_t j=0;j<n;++j) if (i==j || D[i][j]!=K(0)) p[i].push_back(j);
    buildRandom(r,A,p,n); for (std::size_t i=0;i<n;++i) for (auto j : p[i]) A[i][j]=D[i][j];
    x0.resize(n); b0.resize(n); fillv(r,x0); fillv(r,b0);
    if (r.chance(10)) A.mv(x0,b0);                              // the initial guess is the solution
    else if (r.chance(30)) { x0=0; if (r.chance(30)) { b0=0; b0[r.in(0,long(n)-1)]=K(1); } }
    c.desc << " n=" << n << " kind=" << kind << (sym?" hermitian":"");
  }
};
template<class K> struct RecOp : MatrixAdapter<typename Sys<K>::M,typename Sys<K>::V,typename Sys<K>::V> {
  using V=typename Sys<K>::V; using Base=MatrixAdapter<typename Sys<K>::M,V,V>; mutable double top=0; mutable int calls=0; int boom=-1; RecOp(const typename Sys<K>::M& A) : Base(A) {}
  void rec(const V& x) const { if (++calls==boom) throw Boom(); double t=x.infinity_norm(); if (t>top) top=t; }
  void apply(const V& x, V& y) const override { rec(x); Base::apply(x,y); double t=y.infinity_norm(); if (t>top) top=t; }
  void applyscaleadd(typename Base::field_type a, const V& x, V& y) const override { rec(x); Base::applyscaleadd(a,x,y); } };
template<class K> struct RecSp : SeqScalarProduct<typename Sys<K>::V> {
  using V=typename Sys<K>::V; using R=typename FieldTraits<K>::real_type; mutable std::vector<R> norms; 
  R norm(const V& x) const override { R d=SeqScalarProduct<V>::norm(x); norms.push_back(d); return d; } };
// kinds: 0 identity, 1 scaled identity, 2 Jacobi (hermitian positive), 3 projected on the even components, 4 varies from call to call, 5 arbitrary
template<class K> struct RecPrec : Preconditioner<typename Sys<K>::V,typename Sys<K>::V> {
  using V=typename Sys<K>::V; const Sys<K>& s; int kind; Rng rng; int pre_=0, post_=0, applies=0, boom=-1; bool bad=false; std::string why;
  RecPrec(const Sys<K>& s_, int k, std::uint64_t seed) : s(s_), kind(k), rng(seed) {}
  void note(const char* m) { if (!bad) { bad=true; why=m; } }
  void pre(V&,V&) override { if (pre_||post_||applies) note("pre is not the first call or is repeated"); ++pre_; }
  void post(V&) override { if (pre_!=1||post_) note("post without pre or repeated"); ++post_; }
  void apply(V& v, const V& d) override { if (pre_!=1||post_) note("apply outside pre/post"); if (++applies==boom) throw Boom();
    double f = kind==1 ? 0.5 : kind==4 ? 0.25*double(rng.in(1,8)) : 1;
    for (std::size_t i=0;i<s.n;++i) { if (kind==3 && i%2) { v[i]=K(0); continue; } K t=d[i][0]; if (kind==5) { t*=K(rng.nz()); } v[i]=K(f)*t; if (kind==2) v[i]/=s.A[i][i][0][0]; } }
  SolverCategory::Category category() const override { return SolverCategory::sequential; } };
// one solver type each; `restart` as far as it has one
template<class S> struct Open : S { using S::S; double red() const { return double(this->IterativeSolver<typename S::domain_type,typename S::range_type>::_reduction); } };
template<template<class> class S, class K, bool hasRestart, bool atEnd> struct Mk {
  using V=typename Sys<K>::V; using T=Open<S<V>>;
  static std::unique_ptr<T> get(RecOp<K>& op, RecSp<K>& sp, RecPrec<K>& pr, double red, int restart, int maxit) {
    if constexpr (!hasRestart) return std::make_unique<T>(op,sp,pr,red,maxit,0);
    else if constexpr (atEnd) return std::make_unique<T>(op,sp,pr,red,maxit,0,restart);
    else return std::make_unique<T>(op,sp,pr,red,restart,maxit,0); } };
template<class V> using GMRes1 = RestartedGMResSolver<V>;
template<class V> using FGMRes1 = RestartedFlexibleGMResSolver<V>;
}
#define FOR_SOLVERS(K, X) X(LoopSolver,K,false,false,0) X(GradientSolver,K,false,false,1) X(CGSolver,K,false,false,2) X(BiCGSTABSolver,K,false,false,3) X(MINRESSolver,K,false,false,4) X(GMRes1,K,true,false,5) X(FGMRes1,K,true,false,6) X(GeneralizedPCGSolver,K,true,true,7) X(RestartedFCGSolver,K,true,true,8) X(CompleteFCGSolver,K,true,true,9)
