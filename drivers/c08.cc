#include "ov.hh"
#include "layout.hh"
using namespace Dune;
#if VARIANT==0
using Base = LoopSolver<OV>;
#define ARGS op,sp,pr,red,maxit,0
#elif VARIANT==1
using Base = GradientSolver<OV>;
#define ARGS op,sp,pr,red,maxit,0
#elif VARIANT==2
using Base = CGSolver<OV>;
#define ARGS op,sp,pr,red,maxit,0
#elif VARIANT==3
using Base = BiCGSTABSolver<OV>;
#define ARGS op,sp,pr,red,maxit,0
#elif VARIANT==4
using Base = MINRESSolver<OV>;
#define ARGS op,sp,pr,red,maxit,0
#elif VARIANT==5
using Base = RestartedGMResSolver<OV>;
#define ARGS op,sp,pr,red,restart,maxit,0
#elif VARIANT==6
using Base = RestartedFlexibleGMResSolver<OV>;
#define ARGS op,sp,pr,red,restart,maxit,0
#elif VARIANT==7
using Base = GeneralizedPCGSolver<OV>;
#define ARGS op,sp,pr,red,maxit,0,restart
#elif VARIANT==8
using Base = RestartedFCGSolver<OV>;
#define ARGS op,sp,pr,red,maxit,0,restart
#elif VARIANT==9
using Base = CompleteFCGSolver<OV>;
#define ARGS op,sp,pr,red,maxit,0,restart
#endif
LAYSIZE(res_size,InverseOperatorResult) LAY(res_it,InverseOperatorResult,iterations) LAY(res_red,InverseOperatorResult,reduction) LAY(res_conv,InverseOperatorResult,converged) LAY(res_rate,InverseOperatorResult,conv_rate) LAY(res_el,InverseOperatorResult,elapsed) LAY(res_ce,InverseOperatorResult,condition_estimate)
extern "C" {
void c_solve(OV& x, OV& b, double red, int maxit, int restart, InverseOperatorResult& res, OVState& g) {
  OVOp op(0); OVSp sp(g,0); OVPrec pr(g,0);
  Base s(ARGS);
  s.apply(x,b,res);
}
#if PROTO
// one-off reduction: used for this solve only, also when the solve throws
struct Open : Base { using Base::Base; double reduction() const { return this->IterativeSolver<OV,OV>::_reduction; } };
void c_solve4(OV& x, OV& b, double red, int maxit, int restart, InverseOperatorResult& res, OVState& g, double once) {
  OVOp op(0); OVSp sp(g,0); OVPrec pr(g,0);
  Open s(ARGS);
  try { s.apply(x,b,once,res); }
  catch (...) { vc_assert(s.reduction()==red, "the configured reduction is restored when the solve throws"); throw; }
  vc_assert(s.reduction()==red, "the configured reduction is restored");
}
#endif
}
