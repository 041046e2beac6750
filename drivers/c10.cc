#define PROTO 0
#include "ov.hh"
#include "layout.hh"
using namespace Dune;
// a linear operator, preconditioner, scalar product of any category
#define ALL(X) X(loop,LoopSolver<OV>,) X(grad,GradientSolver<OV>,) X(cg,CGSolver<OV>,) X(bicgstab,BiCGSTABSolver<OV>,) X(minres,MINRESSolver<OV>,) X(gpcg,GeneralizedPCGSolver<OV>,) X(rfcg,RestartedFCGSolver<OV>,) X(cfcg,CompleteFCGSolver<OV>,)
template<class S, class... A> void mk3(int co, int cp, OVState& g, A... a) { OVOp op(co); OVPrec pr(g,cp); S s(op,pr,1e-8,a...); }
template<class S, class... A> void mk4(int co, int cs, int cp, OVState& g, A... a) { OVOp op(co); OVSp sp(g,cs); OVPrec pr(g,cp); S s(op,sp,pr,1e-8,a...); }
template<class S, class... A> void mk5(int co, int cs, int cp, OVState& g, A... a) { OVOp op(co); OVSp sp(g,cs); OVPrec pr(g,cp);
  S s(stackobject_to_shared_ptr(static_cast<const LinearOperator<OV,OV>&>(op)), stackobject_to_shared_ptr(static_cast<ScalarProduct<OV>&>(sp)), stackobject_to_shared_ptr(static_cast<Preconditioner<OV,OV>&>(pr)),1e-8,a...); }
struct AnyInv : InverseOperator<OV,OV> { SolverCategory::Category cat; AnyInv(int c) : cat(SolverCategory::Category(c)) {} void apply(OV&, OV&, InverseOperatorResult&) override {} void apply(OV&, OV&, double, InverseOperatorResult&) override {} SolverCategory::Category category() const override { return cat; } };
extern "C" {
#if VARIANT==0
#define X(n,...) void c_##n##_3(int o, int, int p, OVState& g) { mk3<__VA_ARGS__>(o,p,g,10,0); }
#define Y(n,S,d) void c_##n##_3(int o, int, int p, OVState& g) { mk3<S>(o,p,g,10,0); } void c_##n##_4(int o, int s, int p, OVState& g) { mk4<S>(o,s,p,g,10,0); } void c_##n##_5(int o, int s, int p, OVState& g) { mk5<S>(o,s,p,g,10,0); }
ALL(Y)
#define Z(n,S) void c_##n##_3(int o, int, int p, OVState& g) { mk3<S>(o,p,g,10,10,0); } void c_##n##_4(int o, int s, int p, OVState& g) { mk4<S>(o,s,p,g,10,10,0); } void c_##n##_5(int o, int s, int p, OVState& g) { mk5<S>(o,s,p,g,10,10,0); }
Z(gmres,RestartedGMResSolver<OV>) Z(fgmres,RestartedFlexibleGMResSolver<OV>)
void c_cgce_3(int o, int, int p, OVState& g) { mk3<CGSolver<OV>>(o,p,g,10,0,false); } void c_cgce_4(int o, int s, int p, OVState& g) { mk4<CGSolver<OV>>(o,s,p,g,10,0,false); } void c_cgce_5(int o, int s, int p, OVState& g) { mk5<CGSolver<OV>>(o,s,p,g,10,0,false); }
void c_gpcgr_3(int o, int, int p, OVState& g) { mk3<GeneralizedPCGSolver<OV>>(o,p,g,10,0,5); } void c_gpcgr_4(int o, int s, int p, OVState& g) { mk4<GeneralizedPCGSolver<OV>>(o,s,p,g,10,0,5); } void c_gpcgr_5(int o, int s, int p, OVState& g) { mk5<GeneralizedPCGSolver<OV>>(o,s,p,g,10,0,5); }
void c_rfcgr_3(int o, int, int p, OVState& g) { mk3<RestartedFCGSolver<OV>>(o,p,g,10,0,5); } void c_rfcgr_4(int o, int s, int p, OVState& g) { mk4<RestartedFCGSolver<OV>>(o,s,p,g,10,0,5); } void c_rfcgr_5(int o, int s, int p, OVState& g) { mk5<RestartedFCGSolver<OV>>(o,s,p,g,10,0,5); }
// the category a solver announces is the common one
int c_cat(int o, int s, int p, OVState& g) { OVOp op(o); OVSp sp(g,s); OVPrec pr(g,p); CGSolver<OV> so(op,sp,pr,1e-8,10,0); return int(so.category()); }
int c_cat3(int o, int, int p, OVState& g) { OVOp op(o); OVPrec pr(g,p); CGSolver<OV> so(op,pr,1e-8,10,0); return int(so.category()); }
#else
int c_inv_any(int o, int, int, OVState&) { AnyInv a(o); InverseOperator2Preconditioner<AnyInv> q(a); return int(q.category()); }
int c_inv_0(int o, int, int, OVState&) { AnyInv a(o); InverseOperator2Preconditioner<AnyInv,0> q(a); return int(q.category()); }
int c_inv_1(int o, int, int, OVState&) { AnyInv a(o); InverseOperator2Preconditioner<AnyInv,1> q(a); return int(q.category()); }
int c_inv_2(int o, int, int, OVState&) { AnyInv a(o); InverseOperator2Preconditioner<AnyInv,2> q(a); return int(q.category()); }
#endif
}
