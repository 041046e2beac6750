"""C10: incompatible solver components are rejected at construction."""
from vc.common import *
from vc.terms import *
LEVEL = 'proof'
NOTE = ('all public constructors without ParameterTree of the ten iterative solvers and the inverse-operator preconditioner for every combination of the three categories: succeeds exactly if they agree, and the exception type. '
        'The ParameterTree constructors are covered by enumeration of the 27 combinations in the native harness (bounded). Trusts clang lowering, the VC generator.')
BOUNDED = 'all constructors, including those from a ParameterTree, on all combinations of categories'
ASSUMPTIONS = ['category() of a component is constant', 'constructing a Dune::Exception is the throw; its type is read from the __cxa_throw that follows']
NATIVE_BUDGET = (5,60)
SOLVERS = {'loop':'LoopSolver','grad':'GradientSolver','cg':'CGSolver','bicgstab':'BiCGSTABSolver','minres':'MINRESSolver','gpcg':'GeneralizedPCGSolver','rfcg':'RestartedFCGSolver','cfcg':'CompleteFCGSolver',
 'gmres':'RestartedGMResSolver','fgmres':'RestartedFlexibleGMResSolver','cgce':'CGSolver (condition estimate)','gpcgr':'GeneralizedPCGSolver (restart)','rfcgr':'RestartedFCGSolver (mmax)'}
CT = {3:'(op, prec)', 4:'(op, sp, prec)', 5:'(shared op, sp, prec)'}
class Make(Contract):
    def __init__(s, fn, name, kind, ret=False): s.fn, s.name, s.kind, s.ret = fn, name, kind, ret
    def setup(s, eng, st):
        s.o, s.sp, s.p = var('op','I'), var('sp','I'), var('prec','I')
        for x in (s.o, s.sp, s.p): eng.assume(st, le(I(0),x)); eng.assume(st, le(x,I(2)))
        g = eng.region('g', stride=32, length=I(1), fields={0: Field('pre','I',size=4), 4: Field('post','I',size=4), 8: Field('norms','I',size=4), 16: Field('first','R'), 24: Field('last','R')})
        s.good = {3: and_(eq(s.o,I(0)), eq(s.p,I(0))), 4: and_(eq(s.o,s.sp), eq(s.o,s.p)), 5: and_(eq(s.o,s.sp), eq(s.o,s.p)), 'any': TRUE}.get(s.kind)
        if s.good is None: s.good = eq(s.o, I(int(s.kind[1:])))
        eng.call_function(st, eng.mod.get(s.fn), [s.o, s.sp, s.p, Ptr(g,I(0))])
    def post(s, eng, st, ret):
        eng.require(st, 'construction succeeds only if the categories agree', s.good)
        if s.ret: eng.require(st, 'the announced category is the common one', eq(ret, s.o))
    def on_throw(s, eng, st):
        eng.require(st, 'construction throws only if the categories differ', not_(s.good))
        t = eng.throwntypes(st)
        t = {x.replace('15ExceptionStreamINS_','').replace('EEE','E') for x in t}
        want = {'_ZTIN4Dune21InvalidSolverCategoryE'} | ({'_ZTIN4Dune21InvalidStateExceptionE'} if s.kind not in (3,4,5) else set())
        eng.require(st, 'the exception is an InvalidSolverCategory (solvers) or InvalidStateException (adapter): %s' % ','.join(sorted(t)), TRUE if t and t <= want else FALSE)
def contracts(tier):
    a = [Make('c_%s_%d' % (k,c), '%s%s' % (v,CT[c]), c) for k,v in SOLVERS.items() for c in (3,4,5)]
    a += [Make('c_cat','CGSolver::category',4,True), Make('c_cat3','CGSolver::category (op, prec)',3,True)]
    b = [Make('c_inv_any','InverseOperator2Preconditioner','any',True)] + [Make('c_inv_%d' % i,'InverseOperator2Preconditioner<%d>' % i,'=%d' % i,True) for i in range(3)]
    return [('drivers/c10.cc', ['VARIANT=0'], a), ('drivers/c10.cc', ['VARIANT=1'], b)]
