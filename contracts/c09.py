"""C09: solver results and call protocol are truthful."""
from vc.common import *
from vc.terms import *
from fractions import Fraction
from vc.engine import toreal
from contracts import c08
LEVEL = 'proof'
NOTE = ('apply of all ten iterative solvers and the four-argument apply with a one-off reduction, with operator, preconditioner and scalar product unconstrained (also throwing), iteration and restart limits arbitrary: converged flag, reduction, iteration count, order of pre/apply/post, restored reduction. '
        'Partial correctness. Trusts clang lowering, the VC generator, real arithmetic.')
BOUNDED = 'the same statement on random small systems (real and complex, throwing operators and preconditioners), plus: a one-off reduction has the effect of a solver configured with it, and a solver can be reused afterwards'
ASSUMPTIONS = ['MINRES and the GMRes solvers compute their defect norm themselves: for them converged is decided on the reported reduction times the first norm', 'float to integer conversion truncates, counts stay in range', 'constructing a Dune::Exception is the throw', 'finite defect norms (the solvers throw otherwise)']
class Run9(c08.Run):
    def __init__(s, variant, once):
        super().__init__(variant); s.once = once
        if once: s.name += ' with a one-off reduction'; s.fn = 'c_solve4'
    def extra(s, eng):
        if not s.once: s.used = s.red; return []
        s.used = var('once','R'); return [s.used]
    def conv(s, last, first): return or_(lt(last, mul(first, s.used)), lt(last, R(Fraction(1e-30))))
    def invariants(s, eng, v):
        out = []; rd = lambda r, f: eng.rd(v.st, r, f, I(0))
        out += [('pre', eq(rd(s.g,'pre'), I(1))), ('post', eq(rd(s.g,'post'), I(0))), ('no norm yet', eq(rd(s.g,'norms'), I(0))), ('norms', eq(rd(s.g,'norms'), I(1)))]
        first, last = rd(s.g,'first'), rd(s.g,'last'); flag = ne(rd(s.res,'conv'), I(0))
        out.append(('flag of last', iff(flag, s.conv(last, first)))); out.append(('not converged', not_(flag)))
        out.append(('flag 0/1', or_(eq(rd(s.res,'conv'),I(0)), eq(rd(s.res,'conv'),I(1)))))
        reals = list(vecphis(v, 1))
        for r, cs in v.st.cells.items():
            for o, x in cs.items():
                if isinstance(x, Term) and x.sort == 'R' and x.op != 'const': reals.append(('%s@%s' % (r.name,o), x))
        for nm, x in reals: out += [(nm+' first', eq(x, first)), (nm+' last', eq(x, last)), ('flag of '+nm, iff(flag, s.conv(x, first))), ('unconverged '+nm, not_(s.conv(x, first)))]
        if s.variant == 3:          # BiCGSTAB counts in half steps
            for nm, x in reals:
                out += [(nm+'>=1/2', le(R(Fraction(1,2)),x)), (nm+'<=maxit', le(x,toreal(s.maxit)))]
                for k in v.k: out += [(nm+'=k+1/2', eq(x,add(toreal(k),R(Fraction(1,2)))))]
        for nm, x in s.ints(v):
            out += [(nm+'>=0', le(I(0),x)), (nm+'>=1', le(I(1),x))]
            for bn, hi in (('restart',s.restart),('restart+1',add(s.restart,I(1))),('maxit',s.maxit),('maxit+1',add(s.maxit,I(1)))): out.append(('%s<=%s' % (nm,bn), le(x,hi)))
            for nm2, y in s.ints(v):
                if nm2 != nm: out += [('%s<=%s' % (nm,nm2), le(x,y)), ('%s<=%s+1' % (nm,nm2), le(x,add(y,I(1)))), ('%s<%s' % (nm,nm2), lt(x,y))]
        return out
    def post(s, eng, st, ret):
        rd = lambda r, f: eng.rd(st, r, f, I(0)); first, last, red = rd(s.g,'first'), rd(s.g,'last'), rd(s.res,'red')
        flag = ne(rd(s.res,'conv'), I(0))
        if s.variant not in (4,5,6):
            eng.require(st, 'converged exactly when the last defect norm passed the reduction test or the absolute threshold', iff(flag, s.conv(last, first)))
            eng.require(st, 'the reduction is the quotient of last and first defect norm', or_(eq(first,R(0)), eq(mul(red,first), last)))
        else: eng.require(st, 'converged exactly when the last defect norm passed the reduction test or the absolute threshold', or_(eq(first,R(0)), iff(flag, s.conv(mul(red,first), first))))
        eng.require(st, 'the iteration count does not exceed the maximum', le(rd(s.res,'it'), s.maxit))
        eng.require(st, 'the preconditioner was prepared once and cleaned up once', and_(eq(rd(s.g,'pre'),I(1)), eq(rd(s.g,'post'),I(1))))
    def on_throw(s, eng, st): pass
def contracts(tier):
    return [('drivers/c08.cc', ['VARIANT=%d' % v, 'PROTO=1'], [Run9(v, False), Run9(v, True)]) for v in range(len(c08.SOLVERS))]
