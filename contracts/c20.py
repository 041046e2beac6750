"""C20: eigenvalue iterations return eigenpairs of the tolerance they were asked for."""
from vc.common import *
from vc.terms import *
from fractions import Fraction
LEVEL = 'proof'
NOTE = ('applyPowerIteration, applyInverseIteration (with and without shift), applyRayleighQuotientIteration and applyTLIMEIteration, each with exactly solved systems and in the variant that recomputes the residual for an arbitrary solver: for every matrix, start vector, tolerance, shift and iteration limit, a return means unit vector, Rayleigh quotient and residual <= tolerance, an exception means the limit was exceeded. '
        'Iteration operator and stored iteration matrix (updateShiftMu, 1x1 and 2x2 blocks, all patterns with a diagonal): A - mu I for the current mu, and the direct solver is told. '
        'Trusts clang lowering, the VC generator, real arithmetic; vectors are known through the scalar products of x and A x. Convergence itself is not promised.')
BOUNDED = 'complete iterations on random symmetric matrices with direct, iterative and inexact solvers, vanishing iterates, matrices that are not square, getIterationMatrix before and after shifts'
ASSUMPTIONS = ['iterates are not zero (a vanishing iterate is reported: bounded part)', 'dot and two_norm are the scalar product of real vectors and its norm (C15)', 'the variants named "solves taken at their word" assume that the solver solves (A - mu I) y = x', 'epsilon is smaller than the largest double', 'one direct solver per iteration object, at the current shift', 'getIterationMatrix copies the matrix (bounded)', 'the ARPACK++ wrapper calls an external library and is not covered']
MAXR = R(Fraction(1.7976931348623157e308))
ALGS = {'run':'applyPowerIteration', 'inv':'applyInverseIteration with shift', 'inv0':'applyInverseIteration', 'rqi':'applyRayleighQuotientIteration', 'tlime':'applyTLIMEIteration'}
class Iterate(Contract):
    """on return: x is a unit vector, lambda its Rayleigh quotient and |A x - lambda x| <= epsilon"""
    def __init__(s, alg, kind=None):
        s.alg, s.kind = alg, kind; s.fn = 'c_'+alg+('_'+kind if kind else ''); s.name = ALGS[alg]+({None:'', 'exact':', solves taken at their word', 'any':', residual computed with A, arbitrary solver'}[kind]); s.cost = 3
    def setup(s, eng, st):
        L = lambda f: layout(eng, 'pi_'+f); s.G = {f: layout(eng,'g_'+f) for f in ('11','12','22','ep')}
        s.eps, s.gamma, s.eta, s.delta, s.mu0 = [var(x,'R') for x in ('eps','gamma','eta','delta','mu0')]; s.maxit, s.m = var('maxit','I'), var('m','I')
        pi = s.pi = eng.region('pi', kind='cells'); om = eng.region('om', kind='cells'); st.cells[om] = {}; ex = s.ex = eng.region('ex', kind='cells'); st.cells[ex] = {0: I(0)}
        st.cells[pi] = {L('m'): Ptr(om,I(0)), L('max'): s.maxit, L('verb'): I(0), L('mu'): s.mu0, L('it'): Ptr(None,I(0)), L('n'): I(0)}
        g = s.g = eng.glob(st, next(x for x in eng.mod.globals.values() if x.name == 'vc_g')); st.cells[g] = {s.G['11']: var('g11','R'), s.G['12']: var('g12','R'), s.G['22']: var('g22','R'), s.G['ep']: I(0)}
        x = s.x = eng.region('x', kind='cells'); st.cells[x] = {0: R(1), 8: R(0), 16: I(0)}; lam = s.lam = eng.region('lambda', kind='cells'); st.cells[lam] = {0: var('lambda0','R')}
        bound(eng, st, le(I(0),s.maxit), le(s.maxit,I(2**32-2)), le(I(0),s.m), lt(R(0),var('g11','R')), lt(s.eps,MAXR))
        eng.call_function(st, eng.mod.get(s.fn), [Ptr(pi,I(0)), s.eps, Ptr(x,I(0)), Ptr(lam,I(0)), s.gamma, s.eta, s.delta, s.m, Ptr(ex,I(0))])
    def vals(s, st):
        g = st.cells[s.g]; x = st.cells[s.x]; return g[s.G['11']], g[s.G['12']], g[s.G['22']], g[s.G['ep']], x[0], x[8], x[16], st.cells[s.lam][0]
    def quad(s, st, a, b): g11,g12,g22,*_ = s.vals(st); return add(add(mul(mul(a,a),g11), mul(R(2),mul(mul(a,b),g12))), mul(mul(b,b),g22))
    def res2(s, st): g11,g12,g22,ep,a,b,e,l = s.vals(st); return s.quad(st, mul(R(-1),mul(l,a)), a)         # |A x - lambda x|^2 for x = a e
    def invariants(s, eng, v):
        g11,g12,g22,ep,a,b,e,l = s.vals(v.st); out = [('positive', lt(R(0),g11)), ('x in the first', eq(b,R(0))), ('unit', eq(mul(mul(a,a),g11),R(1))), ('current', eq(e,ep)), ('positive factor', le(R(0),a))]
        if s.alg == 'run': out += [('e itself', eq(a,R(1))), ('unit e', eq(g11,R(1)))]
        started = lt(I(0),v.k[0])
        for nm, ph in v.phis.items():
            if isinstance(ph, Term): out += [(nm+' current', eq(ph,ep))] if ph.sort == 'I' else [(nm+' zero', eq(ph,R(0))), (nm+' factor', eq(ph,a))]
        cells = [('%s@%d' % (rn,o), v.st.cells.get(eng.regions.get(rn),{}).get(o)) for rn, o in sorted(v.lc.info.cellmods) if rn in eng.regions]
        n = v.st.cells[s.pi][layout(eng,'pi_n')]; out += [('iterations', eq(n,v.k[0])), ('at most', le(n,s.maxit)), ('shift', TRUE)]
        for nm, ph in list(v.phis.items()) + [c for c in cells if c[0].startswith('stk')]:
            if isinstance(ph, Term) and ph.sort == 'R':
                out += [(nm+' initial', or_(started, eq(ph,MAXR))), (nm+' nonneg', le(R(0),ph)), (nm+' squares', implies(and_(le(R(0),ph), le(ph,s.eps)), le(mul(ph,ph),mul(s.eps,s.eps)))), (nm+' residual', implies(started, eq(mul(ph,ph),s.res2(v.st))))]
        out.append(('quotient', implies(started, eq(mul(l,g11),g12)))); out.append(('quotient of x', implies(started, eq(l,mul(mul(a,a),g12)))))
        for r, cs in v.st.cells.items():
            if r.name.startswith('stk') and 16 in cs and isinstance(cs.get(0), Term) and cs[0].sort == 'R':
                out += [(r.name+' image a', eq(cs[0],R(0))), (r.name+' image b', eq(cs[8],a)), (r.name+' current', eq(cs[16],ep))]
        return out
    def post(s, eng, st, ret):
        g11,g12,g22,ep,a,b,e,l = s.vals(st)
        eng.require(st, 'x is current', eq(e,ep)); eng.require(st, 'x is a unit vector', eq(s.quad(st,a,b),R(1))); eng.require(st, 'x is a multiple of e', eq(b,R(0)))
        eng.require(st, 'lambda is the Rayleigh quotient', eq(l, mul(mul(a,a),g12)))
        eng.require(st, 'the residual is at most epsilon', and_(le(R(0),s.eps), le(s.res2(st), mul(s.eps,s.eps))))
        eng.require(st, 'at least one iteration is counted', lt(I(0), st.cells[s.pi][layout(eng,'pi_n')]))
    def on_throw(s, eng, st): eng.require(st, 'an exception is thrown only after the maximal number of iterations', lt(s.maxit, st.cells[s.pi][layout(eng,'pi_n')]))
class Operator(Contract):
    """the iteration operator is A - mu I with the shift in use when it is applied"""
    def __init__(s, add_): s.add = add_; s.fn = 'c_opadd' if add_ else 'c_op'; s.name = 'iteration operator: '+('applyscaleadd' if add_ else 'apply'); s.cost = 1
    def setup(s, eng, st):
        om = eng.region('om', kind='cells'); st.cells[om] = {}; s.mu, s.al, s.xa, s.ya, s.yb = [var(x,'R') for x in ('mu','alpha','xa','ya','yb')]
        g = eng.glob(st, next(x for x in eng.mod.globals.values() if x.name == 'vc_g')); st.cells[g] = {layout(eng,'g_11'): R(1), layout(eng,'g_12'): R(0), layout(eng,'g_22'): R(1), layout(eng,'g_ep'): I(0)}
        x = s.x = eng.region('x', kind='cells'); y = s.y = eng.region('y', kind='cells'); st.cells[x] = {0: s.xa, 8: R(0), 16: I(0)}; st.cells[y] = {0: s.ya, 8: s.yb, 16: I(0)}
        bound(eng, st, *[and_(le(I(0),var(n,'I')), lt(var(n,'I'),I(2**31))) for n in 'NM'])
        eng.call_function(st, eng.mod.get(s.fn), [Ptr(om,I(0)), Ptr(x,I(0)), Ptr(y,I(0)), s.mu] + ([s.al] if s.add else []))
    def on_throw(s, eng, st): eng.require(st, 'the constructor rejects nothing but a matrix that is not square', ne(var('N','I'),var('M','I')))
    def handler(s, eng, name):
        if name in ('_ZNK2OM1NEv','_ZNK2OM1MEv'): return lambda e, st, ins, a: ('ret', var(name[8],'I'))
    handlers = {'llvm.memset.p0.i64': lambda e, st, ins, a: ('ret', None)}      # blanks of the output title
    def post(s, eng, st, ret):
        x, y = st.cells[s.x], st.cells[s.y]; a, b = mul(R(-1),mul(s.mu,s.xa)), s.xa
        if s.add: a, b = add(s.ya,mul(s.al,a)), add(s.yb,mul(s.al,b))
        eng.require(st, 'a matrix that is not square is rejected', eq(var('N','I'),var('M','I'))); eng.require(st, 'A x - mu x', and_(eq(y[0],a), eq(y[8],b))); eng.require(st, 'x stays', and_(eq(x[0],s.xa), eq(x[8],R(0))))
class Shift(Contract):
    """updateShiftMu: the stored iteration matrix becomes A - mu I (diagonal entries only change) and the direct solver is told, unless the shift stays"""
    def __init__(s, b): s.b = b; s.fn = 'c_shift'; s.name = 'updateShiftMu<%d>' % b; s.cost = 2; s.opts = dict(splitrem=True)
    def setup(s, eng, st):
        b = s.b; cs = tuple(8*k for k in range(b*b)); A = s.A = BCRS(eng, st, 'A', comps=cs, square=True, diag=True); X = s.X = BCRS(eng, st, 'X', comps=cs, readonly=False, square=True, diag=True)
        L = lambda f: layout(eng, 'pi_'+f); s.mu, s.mu0 = var('mu','R'), var('mu0','R'); p, q = s.p, s.q = var('p','I'), var('q','I')
        pi = s.pi = eng.region('pi', kind='cells'); st.cells[pi] = {L('m'): A.ptr(), L('max'): I(5), L('verb'): I(0), L('mu'): s.mu0, L('it'): X.ptr(), L('n'): I(0)}; st.ghost['told'] = I(0)
        bound(eng, st, eq(A.n,X.n), lt(X.n,I(2**60)), le(I(0),p), lt(p,X.n), le(I(0),q), lt(q,X.LEN(p)), X.rowfact(p), A.rowfact(p), *X.posfacts(p,q))
        X.disj = lambda i: [implies(and_(le(I(0),i), lt(i,p)), le(add(X.P(i),X.LEN(i)), X.P(p))), implies(and_(lt(p,i), lt(i,X.n)), le(add(X.P(p),X.LEN(p)), X.P(i)))]
        for f in X.rows.fields.values():
            f.facts = (lambda g: lambda e, st_, i, v: g(e,st_,i,v)+X.disj(i))(f.facts)
        eng.call_function(st, eng.mod.get(s.fn), [Ptr(pi,I(0)), s.mu])
    def handler(s, eng, name):
        if name == 'vc_setmatrix':
            def h(e, st, ins, a):
                e.require(st, 'the solver is told the iteration matrix', TRUE if isinstance(a[0],Ptr) and a[0].reg is s.X.head else FALSE); st.ghost['told'] = add(st.ghost['told'],I(1)); s.check(e, st); return ('ret', None)
            return h
    def want(s, c, upto=None):
        b = s.b; p, q = s.p, s.q; X, A = s.X, s.A; g, h = c//b, c%b; old = sel(X.Aarr[8*c], add(X.P(p),q))
        if g != h: return old
        new = sub(sel(A.Aarr[8*c], add(A.P(p),A.DG(p))), s.mu); hit = eq(q,X.DG(p))
        return ite(and_(hit, lt(add(mul(I(b),p),I(g)), upto)) if upto is not None else hit, new, old)
    def now(s, eng, st, c): return eng.rd(st, s.X.vals, 'f%d' % (8*c), add(s.X.P(s.p),s.q))
    def invariants(s, eng, v):
        k = v.k[0]; out = []; i = eng.divmod(k, I(s.b))[0] if s.b > 1 else k
        if len(v.k) == 2: out += searchcands(v, s.A, i, s.A.DG(i), 'A ')+searchcands(v, s.X, i, s.X.DG(i), 'X ')
        for c in range(s.b*s.b):
            if (s.X.vals.name,'f%d' % (8*c)) in v.lc.info.mods: out.append(('entry %d' % c, eq(s.now(eng,v.st,c), s.want(c,k))))
        return out
    def check(s, eng, st):
        for c in range(s.b*s.b): eng.require(st, 'entry %d,%d of the iteration matrix' % (c//s.b,c%s.b), eq(s.now(eng,st,c), s.want(c)))
    def on_throw(s, eng, st): eng.require(st, 'no exception is thrown', FALSE)
    def post(s, eng, st, ret):
        same = eq(s.mu,s.mu0); eng.require(st, 'the shift is stored', eq(st.cells[s.pi][layout(eng,'pi_mu')], s.mu)); eng.require(st, 'the solver is told once, unless the shift stays', eq(st.ghost['told'], ite(same,I(0),I(1))))
        for c in range(s.b*s.b): eng.require(st, 'entry %d,%d of the iteration matrix' % (c//s.b,c%s.b), eq(s.now(eng,st,c), ite(same, sel(s.X.Aarr[8*c], add(s.X.P(s.p),s.q)), s.want(c))))
def contracts(tier):
    return [('drivers/c20.cc', ['VARIANT=0'], [Iterate('run')]), ('drivers/c20.cc', ['VARIANT=1'], [Iterate(a,k) for a in ('inv','inv0','rqi','tlime') for k in ('exact','any')] + [Operator(False), Operator(True)])] + [('drivers/c20.cc', ['VARIANT=%d' % (1+b)], [Shift(b)]) for b in (1,2)]
