// Opaque vector type for the solver contracts. A vector of arbitrary dimension is seen through three linear functionals:
//   u: one fixed (arbitrary) component,  w: the same component of the image under the operator,
//   z: an arbitrary functional that vanishes on everything the preconditioner returns.
// Norms and scalar products are arbitrary reals. Everything the solver does to a vector is linear in these three numbers.
#pragma once
#include <config.h>
#include <cstddef>
#include <ostream>
#include <dune/common/ftraits.hh>
#include <memory>
struct OV;
// GeneralizedPCG keeps its search directions in std::shared_ptr<X>, one owner each: the handle is represented by its pointee (copying is deleted).
template<> class std::shared_ptr<OV> { OV* p() const; struct Buf { double u=0, w=0, z=0; } b; public: shared_ptr() = default; shared_ptr(const shared_ptr&) = delete; shared_ptr(shared_ptr&&) = delete;
  void reset(OV* q); OV& operator*() { return *reinterpret_cast<OV*>(&b); } OV* operator->() { return reinterpret_cast<OV*>(&b); } };
#include <dune/istl/solvers.hh>
#include <dune/istl/preconditioners.hh>
extern "C" { double vc_real(); std::size_t vc_size(); bool vc_bool(); void vc_assert(bool, const char*); void vc_assume(bool);
}
// the protocol of the preconditioner is asserted by C09 only
#if PROTO
#define PROTO_ASSERT(c, m) vc_assert(c, m)
#else
#define PROTO_ASSERT(c, m) do {} while(0)
#endif
// ghost state: protocol of the preconditioner, defect norms seen by the scalar product
struct OVState { int pre=0, post=0, norms=0; double first=0, last=0; };
struct OV { using field_type = double; using block_type = double; using size_type = std::size_t; double u, w, z;
  OV() : u(0), w(0), z(0) {}
  OV& operator=(double s) { (void)s; u = s; w = s; z = s; return *this; }       // only used with 0
  OV& operator+=(const OV& y) { u += y.u; w += y.w; z += y.z; return *this; }
  OV& operator-=(const OV& y) { u -= y.u; w -= y.w; z -= y.z; return *this; }
  OV& operator*=(double s) { u *= s; w *= s; z *= s; return *this; }
  OV& operator/=(double s) { u /= s; w /= s; z /= s; return *this; }
  OV& axpy(double a, const OV& y) { u += a*y.u; w += a*y.w; z += a*y.z; return *this; }
  double dot(const OV&) const { return vc_real(); }
  double two_norm() const { return vc_real(); }
};
inline std::ostream& operator<<(std::ostream& s, const OV&) { return s; }
inline void std::shared_ptr<OV>::reset(OV* q) { b.u = q->u; b.w = q->w; b.z = q->z; delete q; }
struct OVOp : Dune::LinearOperator<OV,OV> {
  Dune::SolverCategory::Category cat; explicit OVOp(int c=0) : cat(Dune::SolverCategory::Category(c)) {}
  void apply(const OV& x, OV& y) const override { y.u = x.w; y.w = vc_real(); y.z = vc_real(); }
  void applyscaleadd(double a, const OV& x, OV& y) const override { y.u += a*x.w; y.w = vc_real(); y.z = vc_real(); }
  Dune::SolverCategory::Category category() const override { return cat; } };
struct OVPrec : Dune::Preconditioner<OV,OV> {
  OVState* g; Dune::SolverCategory::Category cat; explicit OVPrec(OVState& s, int c=0) : g(&s), cat(Dune::SolverCategory::Category(c)) {}
  void pre(OV&, OV&) override { PROTO_ASSERT(g->pre==0 && g->post==0, "pre is called once, before everything else"); ++g->pre; }
  void apply(OV& v, const OV&) override { PROTO_ASSERT(g->pre==1 && g->post==0, "apply is called between pre and post"); v.u = vc_real(); v.w = vc_real(); v.z = 0; }
  void post(OV&) override { PROTO_ASSERT(g->pre==1 && g->post==0, "post is called once, after pre"); ++g->post; }
  Dune::SolverCategory::Category category() const override { return cat; } };
struct OVSp : Dune::ScalarProduct<OV> {
  OVState* g; Dune::SolverCategory::Category cat; explicit OVSp(OVState& s, int c=0) : g(&s), cat(Dune::SolverCategory::Category(c)) {}
  double dot(const OV&, const OV&) const override { return vc_real(); }
  double norm(const OV&) const override { double d = vc_real(); if (g->norms==0) g->first = d; g->norms = 1; g->last = d; return d; }
  Dune::SolverCategory::Category category() const override { return cat; } };
