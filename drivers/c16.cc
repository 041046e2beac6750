// Adapters and n-step preconditioners around kernels that are only known by their contract: each kernel is an uninterpreted function of what it is given.
#include <config.h>
#include <cstddef>
#include <memory>
#include <vector>
#include <ostream>
#include <dune/common/ftraits.hh>
extern "C" { double vc_fun(int tag, double a, double b, double c, double d); std::size_t vc_ifun(int tag, std::size_t a, std::size_t b); double vc_real(); void vc_assert(bool, const char*); }
namespace stub {
struct V { using field_type = double; using block_type = double; using size_type = std::size_t; double u; V() : u(0) {}
  V& operator=(double s) { u = s; return *this; } V& operator*=(double s) { u *= s; return *this; } V& operator+=(const V& y) { u += y.u; return *this; } V& operator-=(const V& y) { u -= y.u; return *this; } V& axpy(double a, const V& y) { u += a*y.u; return *this; }
  double dot(const V& y) const { return vc_fun(13, u, y.u, 0, 0); } double two_norm() const { return vc_fun(14, u, 0, 0, 0); } };
struct B { using field_type = double; };
}
template<> class std::vector<stub::B, std::allocator<stub::B>> { public: std::size_t id = 0, n = 0; vector() = default; void resize(std::size_t k) { n = k; } std::size_t size() const { return n; } };
namespace stub {
struct M { using field_type = double; using block_type = B; using size_type = std::size_t; using allocator_type = std::allocator<B>; enum BuildMode { row_wise, random, implicit, unknown };
  std::size_t id, n; M(std::size_t i, std::size_t k) : id(i), n(k) {} M(std::size_t k, std::size_t, BuildMode) : id(0), n(k) {} M(const M&) = default; std::size_t N() const { return n; }
  std::size_t M_() const { return n; }
  void mv(const V& x, V& y) const { y.u = vc_fun(11, double(id), x.u, 0, 0); }
  void umv(const V& x, V& y) const { y.u = vc_fun(15, double(id), x.u, y.u, 0); }
  void usmv(double a, const V& x, V& y) const { y.u = vc_fun(12, double(id), a, x.u, y.u); } };
struct MM : M { using M::M; MM(const M& o) : stub::M(o) {} std::size_t M() const { return n; } };
}
#include <dune/istl/gsetc.hh>
#include <dune/istl/ilu.hh>
#include <dune/istl/dilu.hh>
// the kernels, called by their unqualified (argument dependent) or qualified names
namespace stub {
#define KERNEL(name, tag) inline void name(const MM& A, V& v, const V& d, const double& w, Dune::BL<1>) { v.u = vc_fun(tag, v.u, d.u, w, double(A.id)); }
#define KERNEL4(name, tag) inline void name(const MM& A, V& v, const V& d, const double& w) { v.u = vc_fun(tag, v.u, d.u, w, double(A.id)); }
KERNEL4(bsorf,1) KERNEL4(bsorb,2)
KERNEL(bsorf,1) KERNEL(bsorb,2) KERNEL(dbjac,3) KERNEL(dbgs,4)
}
namespace Dune::ILU {
using SCRS = CRS<stub::B, std::allocator<stub::B>>; using SInv = std::vector<stub::B, std::allocator<stub::B>>;
inline void blockILU0Decomposition(stub::MM& A) { A.id = vc_ifun(5, A.id, 0); }
inline void blockILUDecomposition(const stub::MM& A, int n, stub::MM& I) { I.id = vc_ifun(6, A.id, n); }
inline void convertToCRS(const stub::MM& A, SCRS& l, SCRS& u, SInv& i) { l.nRows_ = vc_ifun(7, A.id, 0); u.nRows_ = vc_ifun(8, A.id, 0); i.id = vc_ifun(9, A.id, 0); }
inline void blockILUBacksolve(const stub::MM& A, stub::V& v, const stub::V& d) { v.u = vc_fun(21, double(A.id), d.u, 0, 0); }
inline void blockILUBacksolve(const SCRS& l, const SCRS& u, const SInv& i, stub::V& v, const stub::V& d) { v.u = vc_fun(22, double(l.nRows_), double(u.nRows_), double(i.id), d.u); }
}
namespace Dune::DILU {
inline void blockDILUDecomposition(const stub::MM& A, std::vector<stub::B>& D) { vc_assert(D.n == A.n, "one pivot for every row"); D.id = vc_ifun(10, A.id, 0); }
inline void blockDILUBacksolve(const stub::MM& A, const std::vector<stub::B>& D, stub::V& v, const stub::V& d) { v.u = vc_fun(23, double(A.id), double(D.id), d.u, 0); }
}
#include <dune/istl/preconditioners.hh>
#include <dune/istl/operators.hh>
#include <dune/istl/scalarproducts.hh>
#include <dune/istl/solver.hh>
#include <dune/istl/schwarz.hh>
#include <dune/istl/novlpschwarz.hh>
#include "layout.hh"
using namespace Dune; using stub::V; using stub::MM;
template<class P> void run(P&& p, V& v, V& d) { Preconditioner<V,V>& q = p; q.pre(v,d); q.apply(v,d); q.post(v); }
struct G { int calls; };
// exchange between processes: an arbitrary function of the vector (source and target are the same object in all calls)
struct Com { std::size_t id; void project(V& y) const { y.u = vc_fun(41, double(id), y.u, 0, 0); } void copyOwnerToAll(const V& x, V& y) const { y.u = vc_fun(42, double(id), x.u, 0, 0); } void addOwnerCopyToOwnerCopy(const V& x, V& y) const { y.u = vc_fun(43, double(id), x.u, 0, 0); }
  void dot(const V& x, const V& y, double& r) const { r = vc_fun(44, double(id), x.u, y.u, 0); } double norm(const V& x) const { return vc_fun(45, double(id), x.u, 0, 0); } };
struct Prec : Preconditioner<V,V> { void pre(V& x, V& b) override { x.u = vc_fun(51, x.u, b.u, 0, 0); } void apply(V& v, const V& d) override { v.u = vc_fun(52, v.u, d.u, 0, 0); } void post(V& x) override { x.u = vc_fun(53, x.u, 0, 0, 0); } SolverCategory::Category category() const override { return SolverCategory::sequential; } 
  template<bool f> void apply(V& v, const V& d) { v.u = vc_fun(f ? 54 : 55, v.u, d.u, 0, 0); } };
struct Inv : InverseOperator<V,V> { G* g; double v0, d0; Inv(G& g_, double a, double b) : g(&g_), v0(a), d0(b) {}
  void apply(V& x, V& b, InverseOperatorResult& res) override { ++g->calls; vc_assert(b.u == d0, "the solver is given the defect"); vc_assert(x.u == v0, "the solver starts from the given update"); x.u = vc_fun(31, x.u, b.u, 0, 0); b.u = vc_real(); res.iterations = 1; }
  void apply(V&, V&, double, InverseOperatorResult&) override { vc_assert(false, "the configured reduction is used"); }
  SolverCategory::Category category() const override { return SolverCategory::sequential; } };
extern "C" {
void c_ssor(const MM& A, V& v, V& d, int n, double w) { run(SeqSSOR<MM,V,V>(A,n,w),v,d); }
void c_sor(const MM& A, V& v, V& d, int n, double w) { run(SeqSOR<MM,V,V>(A,n,w),v,d); }
void c_sorf(const MM& A, V& v, V& d, int n, double w) { SeqSOR<MM,V,V> p(A,n,w); p.pre(v,d); p.template apply<true>(v,d); p.post(v); }
void c_sorb(const MM& A, V& v, V& d, int n, double w) { SeqSOR<MM,V,V> p(A,n,w); p.pre(v,d); p.template apply<false>(v,d); p.post(v); }
void c_gs(const MM& A, V& v, V& d, int n, double w) { run(SeqGS<MM,V,V>(A,n,w),v,d); }
void c_jac(const MM& A, V& v, V& d, int n, double w) { run(SeqJac<MM,V,V>(A,n,w),v,d); }
void c_dilu(const MM& A, V& v, V& d, int, double w) { run(SeqDILU<MM,V,V>(A,w),v,d); }
void c_ilu(const MM& A, V& v, V& d, int n, double w) { run(SeqILU<MM,V,V>(A,n,w,false),v,d); }
void c_ilur(const MM& A, V& v, V& d, int n, double w) { run(SeqILU<MM,V,V>(A,n,w,true),v,d); }
void c_ilu0(const MM& A, V& v, V& d, int, double w) { run(SeqILU<MM,V,V>(A,w),v,d); }
void c_ilu0r(const MM& A, V& v, V& d, int, double w) { run(SeqILU<MM,V,V>(A,w,true),v,d); }
void c_rich(const MM&, V& v, V& d, int, double w) { run(Richardson<V,V>(w),v,d); }
void c_inv(V& v, V& d, G& g) { Inv s(g,v.u,d.u); run(InverseOperator2Preconditioner<Inv>(s),v,d); }
void c_mv(const MM& A, const V& x, V& y) { MatrixAdapter<MM,V,V> a(A); const LinearOperator<V,V>& o = a; o.apply(x,y); }
void c_usmv(const MM& A, const V& x, V& y, double al) { MatrixAdapter<MM,V,V> a(A); const LinearOperator<V,V>& o = a; o.applyscaleadd(al,x,y); }
void c_mvs(const MM& A, const V& x, V& y) { MatrixAdapter<MM,V,V> a(stackobject_to_shared_ptr(A)); const LinearOperator<V,V>& o = a; o.apply(x,y); }
void c_usmvs(const MM& A, const V& x, V& y, double al) { MatrixAdapter<MM,V,V> a(stackobject_to_shared_ptr(A)); const LinearOperator<V,V>& o = a; o.applyscaleadd(al,x,y); }
const MM* c_getmat(const MM& A) { MatrixAdapter<MM,V,V> a(A); const AssembledLinearOperator<MM,V,V>& o = a; return &o.getmat(); }
int c_opcat(const MM& A) { MatrixAdapter<MM,V,V> a(A); const LinearOperator<V,V>& o = a; return int(o.category()); }
double c_dot(const V& x, const V& y) { SeqScalarProduct<V> s; const ScalarProduct<V>& o = s; return o.dot(x,y); }
double c_norm(const V& x) { SeqScalarProduct<V> s; const ScalarProduct<V>& o = s; return o.norm(x); }
void c_osop(const MM& A, const V& x, V& y, const Com& c) { OverlappingSchwarzOperator<MM,V,V,Com> a(A,c); const LinearOperator<V,V>& o = a; o.apply(x,y); }
void c_osops(const MM& A, const V& x, V& y, const Com& c, double al) { OverlappingSchwarzOperator<MM,V,V,Com> a(A,c); const LinearOperator<V,V>& o = a; o.applyscaleadd(al,x,y); }
int c_oscat(const MM& A, const Com& c) { OverlappingSchwarzOperator<MM,V,V,Com> a(A,c); const LinearOperator<V,V>& o = a; return int(o.category()); }
void c_pssor(const MM& A, V& v, V& d, int n, double w, const Com& c) { ParSSOR<MM,V,V,Com> p(A,n,w,c); p.apply(v,d); }
void c_pssor_pre(V& v, V& d, const Com& c, const MM& A) { ParSSOR<MM,V,V,Com> p(A,1,1.0,c); p.pre(v,d); }
void c_bp_pre(V& v, V& d, const Com& c) { Prec q; BlockPreconditioner<V,V,Com,Prec> p(q,c); p.pre(v,d); }
void c_bp_apply(V& v, V& d, const Com& c) { Prec q; BlockPreconditioner<V,V,Com,Prec> p(q,c); Preconditioner<V,V>& b = p; b.apply(v,d); }
void c_bp_fwd(V& v, V& d, const Com& c) { Prec q; BlockPreconditioner<V,V,Com,Prec> p(q,c); p.template apply<true>(v,d); }
void c_bp_bwd(V& v, V& d, const Com& c) { Prec q; BlockPreconditioner<V,V,Com,Prec> p(q,c); p.template apply<false>(v,d); }
void c_bp_post(V& v, V& d, const Com& c) { Prec q; BlockPreconditioner<V,V,Com,Prec> p(q,c); p.post(v); }
void c_nbp_pre(V& v, V& d, const Com& c) { Prec q; NonoverlappingBlockPreconditioner<Com,Prec> p(q,c); p.pre(v,d); }
void c_nbp_apply(V& v, V& d, const Com& c) { Prec q; NonoverlappingBlockPreconditioner<Com,Prec> p(q,c); Preconditioner<V,V>& b = p; b.apply(v,d); }
void c_nbp_fwd(V& v, V& d, const Com& c) { Prec q; NonoverlappingBlockPreconditioner<Com,Prec> p(q,c); p.template apply<true>(v,d); }
void c_nbp_bwd(V& v, V& d, const Com& c) { Prec q; NonoverlappingBlockPreconditioner<Com,Prec> p(q,c); p.template apply<false>(v,d); }
void c_nbp_post(V& v, V& d, const Com& c) { Prec q; NonoverlappingBlockPreconditioner<Com,Prec> p(q,c); p.post(v); }
int c_pcat(int k, const MM& A, const Com& c) { Prec q; if (k==0) { ParSSOR<MM,V,V,Com> p(A,1,1.0,c); return int(p.category()); } if (k==1) { BlockPreconditioner<V,V,Com,Prec> p(q,c); return int(p.category()); } NonoverlappingBlockPreconditioner<Com,Prec> p(q,c); return int(p.category()); }
double c_pdot(const V& x, const V& y, const Com& c, int k) { ParallelScalarProduct<V,Com> s(c,SolverCategory::Category(k)); const ScalarProduct<V>& o = s; vc_assert(int(o.category())==k, "the category is the given one"); return o.dot(x,y); }
double c_pnorm(const V& x, const Com& c, int k) { ParallelScalarProduct<V,Com> s(c,SolverCategory::Category(k)); const ScalarProduct<V>& o = s; return o.norm(x); }
int c_nspcat(const Com& c) { NonoverlappingSchwarzScalarProduct<V,Com> s(c); const ScalarProduct<V>& o = s; return int(o.category()); }
int c_ospcat(const Com& c) { OverlappingSchwarzScalarProduct<V,Com> s(c); const ScalarProduct<V>& o = s; return int(o.category()); }
double c_mdot(const V& x, const V& y, const Com& c, int k) { auto s = createScalarProduct<V>(c,SolverCategory::Category(k)); vc_assert(int(s->category())==k, "the category is the given one"); return s->dot(x,y); }
double c_mnorm(const V& x, const Com& c, int k) { auto s = createScalarProduct<V>(c,SolverCategory::Category(k)); return s->norm(x); }
int c_spcat() { SeqScalarProduct<V> s; const ScalarProduct<V>& o = s; return int(o.category()); }
}
