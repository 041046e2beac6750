"""C13: flat traversal and compressed-column export enumerate every scalar once."""
from vc.common import *
from vc.terms import *
from contracts.c02 import DenseM
LEVEL = 'proof'
NOTE = ('flatVectorForEach on block vectors (scalar, block, complex and doubly nested) and flatMatrixForEach on sparse and dense block matrices, const and mutable, all sizes and patterns: exactly one visit per scalar with its flat index, and the returned size. '
        'Trusts clang lowering and the VC generator. Deeper nestings, multi-type containers and the compressed-column export are exercised by the bounded part only.')
BOUNDED = 'flat traversal of further nestings (variable block vectors, multi-type containers, diagonal and identity blocks, matrices of matrices) and the compressed-column export of whole matrices and row subsets with several index types, including copies of the exported matrix'
ASSUMPTIONS = ['the visitor does not modify the structure of the container', 'blocks have positive size where their size is part of the type']
VEC = {0:('BlockVector<double>',1,8), 1:('BlockVector<FieldVector<double,3>>',3,8), 2:('BlockVector<complex>',1,16), 3:('BlockVector<BlockVector<double>>',0,8)}
MAT = {10:('BCRSMatrix<double>',1,1,8), 11:('BCRSMatrix<FieldMatrix<double,2,3>>',2,3,8), 12:('BCRSMatrix<complex>',1,1,16), 20:('Matrix<double>',1,1,8), 21:('Matrix<FieldMatrix<double,2,3>>',2,3,8)}
class Flat(Contract):
    cost = 1; inr = TRUE
    def visits(s, eng, st): return st.ghost['visits']
    def handler(s, eng, name):
        if name != 'vc_visit': return None
        def h(e, st, ins, a):
            p, r, c = a
            if not isinstance(p, Ptr) or p.reg is not s.data: e.require(st, 'the visitor gets an entry of the container', FALSE); return ('ret', None)
            for nm, f in s.at(e, st, p.off, r, c): e.require(st, nm, f)
            e.setghost(st, 'visits', ite(eq(p.off, s.star), add(s.visits(e, st), I(1)), s.visits(e, st))); return ('ret', None)
        return h
    def invariants(s, eng, v):
        out = []; k = v.k; now = s.visits(eng, v.st)
        for nm, f in s.progress(v): out.append(('visits '+nm, implies(s.inr, eq(now, ite(f, I(1), I(0))))))
        for nm, ph in v.phis.items():
            if isinstance(ph, Term) and ph.sort == 'I':
                for nm2, f in s.flats(v): out.append(('%s = %s' % (nm,nm2), eq(ph, f)))
        for (rn,o) in sorted(v.lc.info.cellmods):
            r = v.eng.regions.get(rn); x = v.st.cells.get(r, {}).get(o) if r else None
            if isinstance(x, Term) and x.sort == 'I':
                for nm2, f in s.flats(v): out.append(('%s@%d = %s' % (rn,o,nm2), eq(x, f)))
        return out
    def flats(s, v): return []
    def on_throw(s, eng, st): eng.require(st, 'no exception is thrown', FALSE)
class FlatVec(Flat):
    def __init__(s, op, variant): s.what, s.bs, s.ss = VEC[variant]; s.op = op; s.fn = 'c_'+op; s.name = 'flatVectorForEach<%s%s>' % (s.what, ' const' if op == 'cvec' else ''); s.nested = variant == 3
    def setup(s, eng, st):
        st.ghost['visits'] = I(0); s.o = var('offset','I') if s.op == 'vec' else I(0); bound(eng, st, le(I(0),s.o), lt(s.o,I(2**62)))
        p, q = s.p, s.q = var('p','I'), var('q','I')
        if not s.nested:
            X = s.X = Vec(eng, st, 'x', comps=tuple(8*i for i in range(s.bs*s.ss//8)), readonly=s.op == 'cvec'); s.data = X.data; s.n = X.n
            bound(eng, st, le(I(0),p), lt(p,X.n), le(I(0),q), lt(q,I(s.bs)), lt(mul(I(s.bs),X.n),I(2**62))); s.star = add(mul(I(s.bs*s.ss),p), mul(I(s.ss),q)); ptr = X.ptr()
        else:
            L, O, F = s.L, s.O, s.F = [(lambda i, nm=nm: app(nm, (lift(i,'I'),), 'I')) for nm in ('x.len','x.off','F')]
            solve.SPECS['F'] = lambda t, k: [implies(le(k,I(0)), eq(t,I(0))), implies(lt(I(0),k), eq(t, add(F(sub(k,I(1))), L(sub(k,I(1))))))]
            n = s.n = var('x.n','I'); tot = var('x.total','I'); s.data = eng.region('x.pool', stride=8, length=tot, readonly=s.op == 'cvec', fields={0: Field('f0','R')})
            def facts(e, st_, i, v):
                ok = and_(le(I(0),i), lt(i,n)); return [implies(ok, and_(le(I(0),L(i)), lt(L(i),I(2**62)), le(I(0),O(i)), le(add(O(i),L(i)),tot))), implies(and_(ok,ne(i,p)), or_(le(add(O(i),L(i)),O(p)), le(add(O(p),L(p)),O(i))))]
            so, sp, sz = (layout(eng, 'vec_'+x) for x in ('n','p','size'))
            rows = eng.region('x.blocks', stride=sz, length=n, readonly=True, fields={so: Field('n','I',facts=facts), sp: Field('p','I',target='x.pool',facts=facts)})
            st.mem[(rows,'n')] = mk('fun', ('x.len',), 'AI'); st.mem[(rows,'p')] = mk('fun', ('x.off',), 'AI')
            h = eng.region('x', stride=sz, readonly=True, length=I(1)); h.fields = {so: Field('n','I'), sp: Field('p','I',target='x.blocks')}
            for f, val in (('n',n),('p',I(0))): st.mem[(h,f)] = mk('mset', (arr('x.%s_' % f,'I'), I(0), I(1), val), 'AI')
            bound(eng, st, le(I(0),n), lt(n,I(2**62)), le(I(0),p), lt(p,n), le(I(0),q), lt(q,L(p)), *facts(eng, st, p, None)); s.star = mul(I(8), add(O(p), q)); ptr = Ptr(h, I(0)); s.rows = rows
        eng.call_function(st, eng.mod.get(s.fn), [ptr] + ([s.o] if s.op == 'vec' else []))
    def at(s, e, st, off, r, c):
        if not s.nested: return [('the offset is the flat index of the entry', eq(mul(I(s.ss),sub(r,s.o)), off))]
        i = [i for rg,f,i in st.idx if rg is s.rows][-1:]
        if not i: return [('the entry belongs to a block', FALSE)]
        i = i[0]; j = sub(sub(r,s.o), s.F(i))
        return [('the offset is the flat index of the entry', and_(eq(mul(I(8),add(s.O(i),j)), off), le(I(0),j), lt(j,s.L(i))))]
    def progress(s, v):
        k = v.k; fl = s.q if s.nested else add(mul(I(s.bs),s.p),s.q)
        if s.nested: return [('rows', lt(s.p,k[0]))] if len(k) == 1 else [('rows+entries', or_(lt(s.p,k[0]), and_(eq(s.p,k[0]), lt(s.q,k[1]))))]
        if len(k) == 1: return [('flat', lt(fl, mul(I(s.bs),k[0]))), ('scalar', lt(fl, k[0]))]
        return [('flat2', lt(fl, add(mul(I(s.bs),k[0]),k[1])))]
    def flats(s, v):
        k = v.k; base = s.F(k[0]) if s.nested else mul(I(s.bs),k[0]); x = base if len(k) == 1 else add(base,k[1])
        out = [('flat', x), ('o+flat', add(s.o,x))]
        if len(k) > 1: out += [('start', base), ('k1', k[1])]
        return out
    def post(s, eng, st, ret):
        eng.require(st, 'every scalar entry is visited exactly once', eq(s.visits(eng, st), I(1)))
        eng.require(st, 'the flat size is returned', eq(ret, s.F(s.n) if s.nested else mul(I(s.bs),s.n)))
class FlatMat(Flat):
    def __init__(s, op, variant): s.what, s.br, s.bc, s.ss = MAT[variant]; s.op = op; s.fn = 'c_'+op; s.name = 'flatMatrixForEach<%s%s>' % (s.what, ' const' if op == 'cmat' else ''); s.dense = variant >= 20; s.opts = dict(depth=1)
    def setup(s, eng, st):
        st.ghost['visits'] = I(0); full = s.op == 'mat'; s.ro, s.co = (var('ro','I'), var('co','I')) if full else (I(0),I(0))
        for x in (s.ro, s.co): bound(eng, st, le(I(0),x), lt(x,I(2**60)))
        p, q, a, b = s.p, s.q, s.a, s.b = [var(x,'I') for x in 'pqab']; B = s.B = s.br*s.bc*s.ss; nc = s.br*s.bc*s.ss//8
        if s.dense: A = s.A = DenseM(eng, st, 'A', nc, readonly=not full); s.N, s.M = A.rows, A.cols; s.pos = A.idx(p,q); w = A.cols; s.data = A.data
        else: A = s.A = BCRS(eng, st, 'A', comps=tuple(8*i for i in range(nc)), readonly=not full); s.N, s.M = A.n, A.m; s.pos = add(A.P(p),q); w = A.LEN(p); s.data = A.vals
        s.inr = and_(le(I(0),p), lt(p,s.N), le(I(0),q), lt(q,w), le(I(0),a), lt(a,I(s.br)), le(I(0),b), lt(b,I(s.bc)))
        bound(eng, st, lt(s.N,I(2**60)), lt(s.M,I(2**60)), le(I(0),s.N), le(I(0),s.M))
        if not s.dense:
            eng.assume(st, A.rowfact(p))
            for f in A.rows.fields.values():
                def facts(e, st_, i, v, of=f.facts): return of(e, st_, i, v) + [implies(and_(le(I(0),i),lt(i,A.n),ne(i,p)), or_(not_(s.inr), le(add(A.P(i),A.LEN(i)),A.P(p)), le(add(A.P(p),A.LEN(p)),A.P(i))))]
                f.facts = facts
        s.star = add(mul(I(B),s.pos), add(mul(I(s.ss*s.bc),a), mul(I(s.ss),b)))
        R_ = s.R = eng.region('ret', stride=8, length=I(1), fields={0: Field('f0','I')}); C_ = s.C = eng.region('retc', stride=8, length=I(1), fields={0: Field('f0','I')})
        eng.call_function(st, eng.mod.get(s.fn), [A.ptr()] + ([s.ro, s.co] if full else []) + [Ptr(R_,I(0)), Ptr(C_,I(0))])
    def at(s, e, st, off, r, c):
        ks = e.allks(st); A = s.A; r, c = sub(r,s.ro), sub(c,s.co); nm = 'row and column are the flat indices of the entry'
        if len(ks) < 2: return [(nm, FALSE)]
        i, k = ks[0], ks[1]
        if s.dense: (i2, a), (j2, b) = e.divmod(r, I(s.br)), e.divmod(c, I(s.bc))
        if s.br == 1: a = b = I(0)
        else:
            # block position: the constant part of the address, or the inner loop counters
            x = ks[2:]; t = T.poly(off).get((), 0) % s.B
            if not x: a, b = I(t//(s.ss*s.bc)), I(t//s.ss % s.bc)
            elif len(x) == 1 : a, b = x[0], I(t//s.ss % s.bc)
            else: a, b = x[0], x[1]
        j = k if s.dense else A.col(i,k)
        pos = A.idx(i,k) if s.dense else add(A.P(i),k)
        return [(nm, and_(eq(r, add(mul(I(s.br),i),a)), eq(c, add(mul(I(s.bc),j),b)), eq(off, add(mul(I(s.B),pos), add(mul(I(s.ss*s.bc),a), mul(I(s.ss),b))))))]
    def progress(s, v):
        k = v.k; out = [lt(s.p,k[0]), lt(s.q,k[1]) if len(k) > 1 else FALSE, lt(s.a,k[2]) if len(k) > 2 else FALSE, lt(s.b,k[3]) if len(k) > 3 else FALSE]
        f = out[3]
        for i, x in ((2,s.a),(1,s.q),(0,s.p)):
            if i < len(k): f = or_(out[i], and_(eq(x,k[i]), f)) if i < len(k)-1 else out[i]
        return [('lexicographic', f)]
    def flats(s, v):
        k = v.k; out = [('r', mul(I(s.br),k[0])), ('r0', add(s.ro,mul(I(s.br),k[0])))]
        if s.dense:
            if len(k) == 1: out.append(('last c', ite(lt(I(0),k[0]), mul(I(s.bc),s.M), I(0))))
            else: out += [('c', mul(I(s.bc),k[1])), ('c0', add(s.co,mul(I(s.bc),k[1])))]
            some = lt(I(0),s.M); out += [('rn', ite(some, mul(I(s.br),k[0]), I(0))), ('br', ite(and_(some, lt(I(0),k[0])), I(s.br), I(0))), ('bc', ite(and_(some, lt(I(0),k[0])), I(s.bc), I(0)))]
            if len(k) > 1: out += [('br1', ite(and_(some, or_(lt(I(0),k[1]), lt(I(0),k[0]))), I(s.br), I(0))), ('bc1', ite(and_(some, or_(lt(I(0),k[1]), lt(I(0),k[0]))), I(s.bc), I(0)))]
        return out
    def post(s, eng, st, ret):
        N, M = s.N, s.M
        if s.dense: N, M = ite(lt(I(0),M), N, I(0)), ite(lt(I(0),N), M, I(0))
        eng.require(st, 'every scalar entry is visited exactly once', implies(s.inr, eq(s.visits(eng, st), I(1))))
        eng.require(st, 'the flat number of rows is returned', eq(eng.rd(st, s.R, 'f0', I(0)), mul(I(s.br),N)))
        eng.require(st, 'the flat number of columns is returned', eq(eng.rd(st, s.C, 'f0', I(0)), mul(I(s.bc),M)))
def contracts(tier):
    out = [('drivers/c13.cc', ['VARIANT=%d' % v], [FlatVec(o, v) for o in ('vec','cvec')]) for v in VEC]
    out += [('drivers/c13.cc', ['VARIANT=%d' % v], [FlatMat(o, v) for o in ('mat','cmat')]) for v in MAT]
    return out
