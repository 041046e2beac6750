#include <config.h>
#include <cstddef>
#include <dune/common/fmatrix.hh>
#include <dune/common/fvector.hh>
#include <dune/istl/bcrsmatrix.hh>
#include <dune/istl/bvector.hh>
extern "C" { double vc_real(); void vc_assert(bool, const char*); void vc_assume(bool); }
#include <dune/istl/eigenvalue/poweriteration.hh>
#include "layout.hh"
using namespace Dune; typedef std::size_t S;
#if VARIANT<=1
// A vector of arbitrary dimension, given by its coordinates (a,b) with respect to a pair of vectors (e, A e); the pair is known through its scalar products.
struct Gram { double g11, g12, g22; long ep; } vc_g;
struct OV { using field_type=double; using block_type=FieldVector<double,1>; using size_type=S; double a, b; long ep;
  struct const_iterator { const FieldVector<double,1>& operator*() const; const FieldVector<double,1>* operator->() const; const_iterator& operator++(); bool operator!=(const const_iterator&) const; S index() const; };
  using ConstIterator=const_iterator; const_iterator begin() const; const_iterator end() const; S N() const; S size() const; S dim() const;
  void known() const { vc_assert(ep==vc_g.ep, "a vector of an earlier iteration is used"); }
  double quad() const { return a*a*vc_g.g11+2*a*b*vc_g.g12+b*b*vc_g.g22; }
  OV& operator*=(double s) { a*=s; b*=s; return *this; }
  OV& axpy(double s, const OV& y) { known(); y.known(); a+=s*y.a; b+=s*y.b; return *this; }
  double operator*(const OV& y) const { known(); y.known(); return a*y.a*vc_g.g11+(a*y.b+b*y.a)*vc_g.g12+b*y.b*vc_g.g22; }
  double dot(const OV& y) const { return *this*y; }
  double two_norm() const { known(); double r=vc_real(); vc_assume(r>=0); vc_assume(r*r==quad()); return r; }
};
static std::ostream& operator<<(std::ostream& s, const OV&) { return s; }
// the pair of vectors is replaced: e is a vector of squared length q, everything known about other vectors is forgotten
static void rebase() { vc_g.ep=vc_g.ep+1; vc_g.g11=vc_real(); vc_g.g12=vc_real(); vc_g.g22=vc_real(); vc_assume(vc_g.g11>0); vc_assume(vc_g.g22>0); }
struct OM { using block_type=FieldMatrix<double,1,1>; using field_type=double; using size_type=S; struct Row { block_type& operator[](S); const block_type& operator[](S) const; }; Row& operator[](S); const Row& operator[](S) const; S N() const; S M() const;
#if VARIANT==0
  void mv(const OV& x, OV& y) const { x.known(); double q=x.quad(); rebase(); vc_assume(vc_g.g11==q); OV& z=const_cast<OV&>(x); z.a=1; z.b=0; z.ep=vc_g.ep; y.a=0; y.b=1; y.ep=vc_g.ep; }
#else
  void mv(const OV& x, OV& y) const { x.known(); vc_assert(x.b==0, "only A e is known"); y.a=0; y.b=x.a; y.ep=vc_g.ep; }
#endif
  void usmv(double s, const OV& x, OV& y) const { x.known(); y.known(); vc_assert(x.b==0, "only A e is known"); y.b+=s*x.a; }
};
using PI=PowerIteration_Algorithms<OM,OV>;
// a solver for (A - mu I) y = b with the shift of the iteration operator
template<bool exact> struct Sol : InverseOperator<OV,OV> { OV& x; const PI& p; Sol(OV& x_, const PI& p_) : x(x_), p(p_) {}
  void apply(OV& y, OV& b, InverseOperatorResult&) override { x.known(); b.known(); vc_assert(b.a==x.a && b.b==x.b, "the right hand side is x"); double q=x.quad(), mu=p.mu_; rebase(); y.a=1; y.b=0; y.ep=vc_g.ep; b.ep=-1;
    if (exact) { vc_assume(vc_g.g22-2*mu*vc_g.g12+mu*mu*vc_g.g11==q); x.a=-mu; x.b=1; x.ep=vc_g.ep; } else x.ep=-1; }
  void apply(OV& y, OV& b, double, InverseOperatorResult& r) override { apply(y,b,r); }
  SolverCategory::Category category() const override { return SolverCategory::sequential; } };
LAY(pi_m, PI, m_) LAY(pi_max, PI, nIterationsMax_) LAY(pi_verb, PI, verbosity_level_) LAY(pi_mu, PI, mu_) LAY(pi_it, PI, itMatrix_) LAY(pi_n, PI, nIterations_)
#if VARIANT==0
extern "C" void c_run(PI& p, double eps, OV& x, double& lambda, double, double, double, S, bool&) { p.applyPowerIteration(eps,x,lambda); }
#else
#define ALG(nm, E, ...) void nm(PI& p, double eps, OV& x, double& lambda, double gamma, double eta, double delta, S m, bool& ex) { typedef Sol<E> T; T s(x,p); __VA_ARGS__; }
extern "C" {
ALG(c_inv_exact, true, p.applyInverseIteration(gamma,eps,s,x,lambda))
ALG(c_inv_any, false, p.applyInverseIteration<T,true>(gamma,eps,s,x,lambda))
ALG(c_inv0_exact, true, p.applyInverseIteration(eps,s,x,lambda))
ALG(c_inv0_any, false, p.applyInverseIteration<T,true>(eps,s,x,lambda))
ALG(c_rqi_exact, true, p.applyRayleighQuotientIteration(eps,s,x,lambda))
ALG(c_rqi_any, false, p.applyRayleighQuotientIteration<T,true>(eps,s,x,lambda))
ALG(c_tlime_exact, true, p.applyTLIMEIteration(gamma,eta,eps,s,delta,m,ex,x,lambda))
ALG(c_tlime_any, false, p.applyTLIMEIteration<T,true>(gamma,eta,eps,s,delta,m,ex,x,lambda))
}
#endif
LAY(g_11, Gram, g11) LAY(g_12, Gram, g12) LAY(g_22, Gram, g22) LAY(g_ep, Gram, ep)
extern "C" unsigned long c_count(PI& p) { return p.getIterationCount(); }
#endif
#if VARIANT==1
extern "C" {
// the operator handed to matrix-free solvers is A - mu I, for the shift in use when it is applied
void c_op(const OM& m, OV& x, OV& y, double mu) { PI p(m,10,0); auto& op=p.getIterationOperator(); p.mu_=mu; op.apply(x,y); }
void c_opadd(const OM& m, OV& x, OV& y, double mu, double al) { PI p(m,10,0); auto& op=p.getIterationOperator(); p.mu_=mu; op.applyscaleadd(al,x,y); }
}
#endif
#if VARIANT>=2
constexpr int b=VARIANT-1; typedef BCRSMatrix<FieldMatrix<double,b,b>> M; typedef BlockVector<FieldVector<double,b>> V; typedef PowerIteration_Algorithms<M,V> PI;
extern "C" void vc_setmatrix(const M*);
struct Direct : InverseOperator<V,V> { void setMatrix(const M& m) { vc_setmatrix(&m); } void apply(V&,V&,InverseOperatorResult&) override {} void apply(V&,V&,double,InverseOperatorResult&) override {} SolverCategory::Category category() const override { return SolverCategory::sequential; } };
namespace Dune { template<> struct IsDirectSolver<Direct> { enum { value=true }; }; }
LAY_BCRS(M)
LAY(pi_m, PI, m_) LAY(pi_max, PI, nIterationsMax_) LAY(pi_verb, PI, verbosity_level_) LAY(pi_mu, PI, mu_) LAY(pi_it, PI, itMatrix_) LAY(pi_n, PI, nIterations_)
extern "C" void c_shift(PI& p, double mu) { Direct d; p.updateShiftMu(mu,d); }
#endif
