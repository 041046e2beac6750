"""C08: iterative solvers return an iterate consistent with the defect they leave."""
from vc.common import *
from vc.terms import *
LEVEL = 'proof'
NOTE = ('apply of all ten iterative solvers, with the operator, preconditioner and scalar product unconstrained: vectors of any size are seen through three linear functionals (one arbitrary component, the same component of the image under A, and a functional vanishing on all corrections), norms and scalar products are arbitrary reals, iteration and restart limits arbitrary. '
        'Partial correctness. Trusts clang lowering, the VC generator, real arithmetic, linearity of the operator.')
BOUNDED = 'the same statement on random small systems (real and complex, all solvers, six kinds of preconditioner, throwing operators), plus: the defect norm MINRES and the GMRes solvers report is the one of the x they return'
ASSUMPTIONS = ['the operator is linear and apply/applyscaleadd agree (C16)', 'vector operations of X are linear (C05)', 'restart >= 1 (GMRes, FCG), >= 2 for GeneralizedPCG to terminate', 'divisors of the recurrences are nonzero (breakdown is reported or yields non-finite values)', 'constructing a Dune::Exception is the throw', 'std::shared_ptr<X> of GeneralizedPCG is represented by its pointee']
SOLVERS = ['LoopSolver','GradientSolver','CGSolver','BiCGSTABSolver','MINRESSolver','RestartedGMResSolver','RestartedFlexibleGMResSolver','GeneralizedPCGSolver','RestartedFCGSolver','CompleteFCGSolver']
OVERWRITES = (0,1,2,3,7,8,9)
def havoc_opaque(e, st, ins, a): return ('ret', e.fv(st, 'opq', 'I'))
def eng_conv(v, s): return ne(v.eng.rd(v.st, s.res, 'conv', I(0)), I(0))
class Run(Contract):
    def __init__(s, variant):
        s.variant = variant; s.what = SOLVERS[variant]; s.fn = 'c_solve'; s.name = '%s::apply' % s.what; s.cost = 2
    def handler(s, eng, name):
        if 'system_clock3now' in name: return havoc_opaque
        if name == 'pow': return lambda e, st, ins, a: ('ret', e.fv(st, 'pow', 'R'))
        return None
    def alloc(s, eng, st, r, n):
        d = T.poly(n)
        if all(c % 24 == 0 for c in d.values()): r.stride = 24; r.length = T.mkpoly({m: c//24 for m,c in d.items()}, 'I'); r.fields = {o: Field('f%d' % o,'R') for o in (0,8,16)} if s.variant >= 7 else {}
        elif all(c % 8 == 0 for c in d.values()): r.stride = 8; r.length = T.mkpoly({m: c//8 for m,c in d.items()}, 'I')
    def setup(s, eng, st):
        ov = lambda nm: eng.region(nm, stride=24, length=I(1), fields={0: Field('u','R'), 8: Field('w','R'), 16: Field('z','R')})
        x, b = s.x, s.b = ov('x'), ov('b'); L = lambda f: layout(eng, 'res_'+f)
        s.res = eng.region('res', stride=L('size'), length=I(1)); s.res.fields = {L('it'): Field('it','I',size=4), L('red'): Field('red','R'), L('conv'): Field('conv','I',size=1), L('rate'): Field('rate','R'), L('ce'): Field('ce','R'), L('el'): Field('el','R')}
        g = s.g = eng.region('g', stride=32, length=I(1), fields={0: Field('pre','I',size=4), 4: Field('post','I',size=4), 8: Field('norms','I',size=4), 16: Field('first','R'), 24: Field('last','R')})
        for f in ('pre','post','norms'): st.mem[(g,f)] = mk('mset', (arr('g.'+f+'_','I'), I(0), I(1), I(0)), 'AI')
        s.x0 = {f: eng.rd(st, x, f, I(0)) for f in 'uwz'}; s.b0 = {f: eng.rd(st, b, f, I(0)) for f in 'uwz'}
        s.red, s.maxit, s.restart = var('red','R'), var('maxit','I'), var('restart','I')
        bound(eng, st, le(I(0),s.maxit), le(I(1),s.restart))
        eng.call_function(st, eng.mod.get(s.fn), [Ptr(x,I(0)), Ptr(b,I(0)), s.red, s.maxit, s.restart, Ptr(s.res,I(0)), Ptr(g,I(0))] + s.extra(eng))
    def invariants(s, eng, v):
        out = []
        rd = lambda r, f: eng.rd(v.st, r, f, I(0))
        out.append(('b = b0 - A x', eq(add(rd(s.b,'u'), rd(s.x,'w')), s.b0['u'])))
        out.append(('x.z', eq(rd(s.x,'z'), s.x0['z'])))
        out.append(('pre', eq(rd(s.g,'pre'), I(1)))); out.append(('post', eq(rd(s.g,'post'), I(0)))); out.append(('norms', eq(rd(s.g,'norms'), I(1))))
        for nm, x in s.ints(v):
            for bn, lo in (('0',I(0)),('1',I(1))): out.append(('%s>=%s' % (nm,bn), le(lo,x)))
            for bn, hi in (('restart',s.restart),('restart+1',add(s.restart,I(1))),('maxit',s.maxit),('maxit+1',add(s.maxit,I(1)))): out.append(('%s<=%s' % (nm,bn), le(x,hi)))
        for r, rels in s.arrays(v):
            for nm, rel in rels: out.append(('all %s: %s' % (r.name, nm), dict(terms=lambda eng, st, r=r: [i for q, f, i in st.idx if q.name == r.name], body=lambda vw, i, r=r, rel=rel: rel(eng, vw.st, vw.eng.regions[r.name], i))))
        for nm, ph in vecphis(v, 1): out.append((nm+'=0', eq(ph, R(0))))
        return out
    def ints(s, v):
        out = [(nm, ph) for nm, ph in v.phis.items() if isinstance(ph, Term) and ph.sort == 'I']
        for rn, o in sorted(v.lc.info.cellmods):
            r = v.eng.regions.get(rn); x = v.st.cells.get(r, {}).get(o) if r else None
            if isinstance(x, Term) and x.sort == 'I': out.append(('%s@%d' % (rn, o), x))
        return out
    def extra(s, eng): return []
    def arrays(s, v):
        out = []
        for r in {q for (q, f) in v.st.mem}:
            if not (r.name.startswith('heap:') or r.name.startswith('stk.')) or r.stride != 24 or any(f.sort != 'R' for f in r.fields.values()) or 16 not in r.fields: continue
            def Z(c, r=r):
                def f(eng, st, reg, i, c=c): return implies(and_(le(I(0),i), le(i,c), lt(i,reg.length)), eq(eng.rd(st, reg, reg.fields[16].name, i), R(0)))
                return f
            hi = [('everywhere', sub(r.length,I(1))), ('0', I(0))]
            for j, k in enumerate(v.k): hi += [('k%d' % j, k), ('k%d-1' % j, sub(k,I(1)))]
            ints = s.ints(v)
            here = ints + [(q.name+'@%s' % o, x) for q, cs in v.st.cells.items() for o, x in cs.items() if q.name.startswith('stk') and isinstance(x, Term) and x.sort == 'I' and x.op != 'const' and x not in (s.maxit, s.restart) and all(x is not y for n, y in ints)]
            hi += [(nm, ph) for nm, ph in here] + [(nm+'-1', sub(ph,I(1))) for nm, ph in here]
            rels = [('z=0 up to '+nm, Z(c)) for nm, c in hi]
            conv = eng_conv(v, s)
            guards = [('stopping '+nm, or_(conv, lt(s.maxit,ph))) for nm, ph in ints if nm in v.phis] or [('stopping', conv)]
            for gn, g in guards: rels += [(gn+' or z=0 up to '+nm, (lambda f, g: lambda eng, st, reg, i: or_(g, f(eng,st,reg,i)))(Z(c), g)) for nm, c in hi]
            out.append((r, rels))
        return sorted(out, key=lambda x: x[0].name)
    def post(s, eng, st, ret):
        rd = lambda r, f: eng.rd(st, r, f, I(0))
        if s.variant in OVERWRITES: eng.require(st, 'the right hand side holds b - A x', eq(rd(s.b,'u'), sub(s.b0['u'], rd(s.x,'w'))))
        eng.require(st, 'x differs from the initial guess only by preconditioner corrections', eq(rd(s.x,'z'), s.x0['z']))
    def on_throw(s, eng, st): eng.require(st, 'x differs from the initial guess only by preconditioner corrections', eq(eng.rd(st,s.x,'z',I(0)), s.x0['z']))
def contracts(tier):
    return [('drivers/c08.cc', ['VARIANT=%d' % v, 'PROTO=0'], [Run(v)]) for v in range(len(SOLVERS))]
