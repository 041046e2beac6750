"""C15: arithmetic on sparse matrices acts on every stored entry exactly once; norms equal their definitions."""
from vc.common import *
from vc.terms import *
from vc import solve
LEVEL = 'proof'
NOTE = ('operator=(scalar), *=, /=, +=, -=, axpy, frobenius_norm(2), infinity_norm(_real) of BCRSMatrix with double, complex, FieldMatrix blocks; contiguous storage and rows allocated one by one (the flat data pointer is null); all sizes, patterns and values. '
        'Nested matrices, integer entries, the dense Matrix and the different build modes are exercised by the bounded part only.')
BOUNDED = 'all operations on matrices built in every build mode (including over-allocated random mode, row-wise without a size, implicit), nested blocks, integer entries, the dense Matrix and MultiTypeBlockMatrix, random patterns, against entrywise recomputation'
ASSUMPTIONS = ['representation invariant of a finished matrix: row windows disjoint and inside the arrays, column indices of a row strictly increasing', 'the pattern of the second operand is contained in the pattern of the first (documented precondition), equal sizes, different objects',
               'hypot/cabs and sqrt are the mathematical functions']
VARIANTS = {0:('BCRSMatrix<double>',1,1,False), 1:('BCRSMatrix<complex>',1,1,True), 2:('BCRSMatrix<FieldMatrix<double,2,2>>',2,2,False), 3:('BCRSMatrix<FieldMatrix<complex,1,2>>',1,2,True)}
ELEM = ['assign','imul','idiv','iadd','isub','axpy']; RED = ['fro','fro2','inf','infr']
def rabs(x): return ite(le(R(0),x), x, neg(x))
def cabs(z, cx): return app('hypot', tuple(z), 'R') if cx else rabs(z[0])
class Op(Contract):
    def __init__(s, op, variant, flat=True):
        s.op, s.variant, s.flat = op, variant, flat; s.what, s.br, s.bc, s.cx = VARIANTS[variant]; s.w = 2 if s.cx else 1; s.nc = s.br*s.bc*s.w
        s.name = '%s::%s%s' % (s.what, {'assign':'operator=(scalar)','imul':'operator*=','idiv':'operator/=','iadd':'operator+=','isub':'operator-=','axpy':'axpy','fro':'frobenius_norm','fro2':'frobenius_norm2','inf':'infinity_norm','infr':'infinity_norm_real'}[op], '' if flat else ' (rows allocated one by one)')
        s.fn = 'c_'+op
    def setup(s, eng, st):
        w, op = s.w, s.op; comps = tuple(8*i for i in range(s.nc))
        A = s.A = BCRS(eng, st, 'A', comps=comps, readonly=op in RED)
        s.init = {o: eng.getarr(st, A.vals, 'f%d' % o) for o in comps}
        A.init = s.init
        if not s.flat:
            f = [f for f in A.head.fields.values() if f.name == 'a'][0]; f.target = lambda e, st_, idx: Ptr(None, I(0))
        p, q = s.p, s.q = var('p','I'), var('q','I')
        bound(eng, st, le(I(0),p), lt(p,A.n), le(I(0),q), lt(q,A.LEN(p)), A.rowfact(p))
        s.pos = add(A.P(p), q)
        for f in A.rows.fields.values():
            of = f.facts
            def facts(e, st_, i, v, of=of):
                return of(e, st_, i, v) + [implies(and_(le(I(0),i),lt(i,A.n),ne(i,p)), or_(le(add(A.P(i),A.LEN(i)),A.P(p)), le(add(A.P(p),A.LEN(p)),A.P(i))))]
            f.facts = facts
        args = [A.ptr()]
        if op in ('assign','imul','idiv','axpy'):
            al = eng.region('alpha', stride=8*w, readonly=True, length=I(1), fields={8*i: Field('f%d' % (8*i),'R') for i in range(w)})
            s.al = tuple(sel(eng.getarr(st, al, 'f%d' % (8*i)), I(0)) for i in range(w)); args.append(Ptr(al, I(0)))
            if op == 'idiv': eng.assume(st, or_(*[ne(a, R(0)) for a in s.al]))
        if op in ('iadd','isub','axpy'):
            B = s.B = BCRS(eng, st, 'B', comps=comps); args.append(B.ptr())
            bound(eng, st, eq(B.n,A.n), eq(B.m,A.m))
            c = s.c = A.col(p,q); s.g = B.LB(p,c)
            B.probes = lambda e, st_: [(p,c)]
            def probes(e, st_):
                ks = e.allks(st_)
                return [(ks[0], B.col(ks[0],ks[1]))] if len(ks) >= 2 else []
            A.probes = probes
            for f in B.lbfacts(p, c): eng.assume(st, f)
            eng.assume(st, B.rowfact(p))
            of = B.cols.fields[0].facts
            def facts(e, st_, t, v):
                out = of(e, st_, t, v)
                own = [a[0].args[1] for a in T.poly(t) if len(a) == 1 and a[0].op == 'app' and a[0].args[0] == 'B.P']
                for i in own:
                    k = sub(t, B.P(i)); ok = and_(le(I(0),i), lt(i,B.n), le(I(0),k), lt(k,B.LEN(i)))
                    out += [implies(ok, A.MEM(i, v))] + A.lbfacts(i, v, q) + B.lbfacts(p, c, k)
                return out
            B.cols.fields[0].facts = facts
        if op in RED:
            s.out = eng.region('out', stride=8, length=I(1), fields={0: Field('f0','R')}); args.append(Ptr(s.out, I(0)))
            s.specs()
        eng.call_function(st, eng.mod.get(s.fn), args)
    def blk(s, i, k):
        a = s.A.ent(i,k); w = s.w
        return [[a[(r*s.bc+c)*w:(r*s.bc+c)*w+w] for c in range(s.bc)] for r in range(s.br)]
    def mx(s, xs):
        m = R(0)
        for x in xs: m = ite(lt(m,x), x, m)
        return m
    def specs(s):
        A = s.A
        if s.op in ('fro','fro2'):
            def val(i, k):
                t = R(0)
                for r in s.blk(i,k):
                    for z in r:
                        for x in z: t = add(t, mul(x,x))
                return t
        else:
            one = (lambda z: cabs(z,s.cx)) if s.op == 'inf' else (lambda z: add(*[rabs(x) for x in z]) if len(z) > 1 else rabs(z[0]))
            def val(i, k): 
                sums = [add(*[one(z) for z in r]) if len(r) > 1 else one(r[0]) for r in s.blk(i,k)]
                return sums[0] if len(sums) == 1 and False else s.mx(sums)
        s.val = val
        def F(t, i, k):
            k1 = sub(k,I(1)); i1 = sub(i,I(1))
            return [implies(and_(le(k,I(0)),le(i,I(0))), eq(t,R(0))), implies(and_(le(k,I(0)),lt(I(0),i)), eq(t, app('F',(i1,A.LEN(i1)),'R'))), implies(lt(I(0),k), eq(t, add(app('F',(i,k1),'R'), val(i,k1))))]
        s.F = spec('F','R',F)
        def RS(t, i, k):
            k1 = sub(k,I(1)); return [implies(le(k,I(0)), eq(t,R(0))), implies(lt(I(0),k), eq(t, add(app('RS',(i,k1),'R'), val(i,k1))))]
        s.RS = spec('RS','R',RS)
        def MX(t, i):
            i1 = sub(i,I(1)); prev = app('MX',(i1,),'R'); x = app('RS',(i1,A.LEN(i1)),'R')
            return [implies(le(i,I(0)), eq(t,R(0))), implies(lt(I(0),i), eq(t, ite(lt(prev,x),x,prev)))]
        s.MX = spec('MX','R',MX)
    def now(s, eng, st): return tuple(eng.rd(st, s.A.vals, 'f%d' % o, s.pos) for o in s.A.comps)
    def old(s): return tuple(sel(s.init[o], s.pos) for o in s.A.comps)
    def final(s):
        x = s.old(); w = s.w; out = []
        if s.op in ('iadd','isub','axpy'): y = tuple(sel(s.B.Aarr[o], add(s.B.P(s.p), s.g)) for o in s.B.comps)
        for i in range(0, s.nc, w):
            e = x[i:i+w]
            if s.op == 'assign': r = s.al
            elif s.op == 'imul': r = cmul(e, s.al, s.cx)
            elif s.op == 'idiv': r = cdiv(e, s.al, s.cx)
            else:
                d = y[i:i+w]
                if s.op == 'axpy': d = cmul(s.al, d, s.cx)
                r = [ite(s.B.MEM(s.p,s.c), sub(a,b) if s.op == 'isub' else add(a,b), a) for a,b in zip(e,d)]
            out += list(r)
        return out
    def invariants(s, eng, v):
        out = []; A = s.A; k = v.k[-1]; i = v.k[0]
        if s.op in ELEM:
            now, old, fin = s.now(eng, v.st), s.old(), s.final()
            if len(v.k) <= 2 or True:
                for c in range(s.nc):
                    o = old[c]; f = fin[c]
                    if len(v.k) == 1:
                        out += [('rows below.%d' % c, eq(now[c], ite(lt(s.p,i), f, o))), ('flat below.%d' % c, eq(now[c], ite(lt(s.pos,i), f, o)))]
                    else:
                        kk = v.k[1]; at = s.q if s.op in ('assign','imul','idiv') else s.g
                        out.append(('rows and entries below.%d' % c, eq(now[c], ite(or_(lt(s.p,i), and_(eq(s.p,i), lt(at,kk))), f, o))))
            if len(v.k) >= 2 and s.op in ('iadd','isub','axpy'):
                out += searchcands(v, A, i, A.LB(i, s.B.col(i, v.k[1])))
        else:
            for nm, ph in v.phis.items():
                if not isinstance(ph, Term) or ph.sort != 'R': continue
                out += [(nm+'>=1', le(R(1),ph)), (nm+'>=0', le(R(0),ph))]
                if len(v.k) == 1: out += [(nm+'=F', eq(ph, s.F(i,I(0)))), (nm+'=MX', eq(ph, s.MX(i)))]
                else: out += [(nm+'=F', eq(ph, s.F(i,k))), (nm+'=RS', eq(ph, s.RS(i,k))), (nm+'=MX', eq(ph, s.MX(i)))]
        return out
    def post(s, eng, st, ret):
        A = s.A
        if s.op in ELEM:
            now, fin = s.now(eng, st), s.final()
            for c in range(s.nc): eng.require(st, 'entry (p,q).%d has the entrywise value' % c, eq(now[c], fin[c]))
            return
        r = eng.rd(st, s.out, 'f0', I(0))
        if s.op == 'fro':
            t = s.F(A.n,I(0)); eng.require(st, 'norm^2 = sum of squares', or_(lt(t,R(0)), eq(mul(r,r), t))); eng.require(st, 'norm >= 0', or_(lt(t,R(0)), le(R(0),r)))
        elif s.op == 'fro2': eng.require(st, 'sum of squares of all entries', eq(r, s.F(A.n,I(0))))
        else: eng.require(st, 'largest row sum', eq(r, s.MX(A.n)))
def contracts(tier):
    return [('drivers/c15.cc', ['VARIANT=%d' % v], [Op(o, v) for o in ELEM+RED] + [Op(o, v, False) for o in ('imul','idiv')]) for v in VARIANTS]
