"""C12: sparse matrix-matrix products."""
from vc.common import *
from vc.terms import *
from contracts.c02 import DenseM
LEVEL = 'proof'
NOTE = ('The pattern traversals of A*B, A^T*B and A*B^T (every pair of meeting entries visited exactly once, with the row and column of the result, in order, and nothing else), the accumulation of the entries of the result, the block products and Matrix::transpose, for double, complex and non-square blocks and all patterns, sizes and values. '
        'Trusts clang lowering, the VC generator, real arithmetic and that the pattern of the result is the one the traversal announced. '
        'The storage of that pattern (std::set per row, row-wise creation, used result objects) is exercised by the bounded part only.')
BOUNDED = 'complete products on random patterns (empty rows and operands included), with every kind of previously used result object, non-conforming operands, dense transpose and product'
ASSUMPTIONS = ['the rows of the result hold, sorted, exactly the positions the traversal visits (established by MatrixInitializer, bounded)', 'operands and result do not alias']
VARIANTS = {0:('1x1 double',1,1,1,False), 1:('2x2*2x1 double',2,1,2,False), 2:('1x1 complex',1,1,1,True)}
OPS = ('A*B','A^T*B','A*B^T')
class Prod(Contract):
    """shapes: r is n x m, the left block is n x k (k x n when transposed), the right one k x m (m x k when transposed)"""
    def __init__(s, fn, op, variant): s.what, s.n, s.m, s.k, s.cx = VARIANTS[variant]; s.w = 2 if s.cx else 1; s.op = op; s.fn = fn; s.name = '%s %s<%s>' % (fn, OPS[op], s.what)
    def comps(s, t): return tuple(8*i for i in range(s.w*t))
    def shapes(s): return s.comps(s.n*s.k), s.comps(s.k*s.m), s.comps(s.n*s.m)
    def mm(s, A, B):
        out = []; w = s.w
        for i in range(s.n):
            for j in range(s.m):
                t = [R(0)]*w
                for l in range(s.k):
                    a = (l*s.n+i if s.op == 1 else i*s.k+l)*w; b = (j*s.k+l if s.op == 2 else l*s.m+j)*w
                    t = [add(x,y) for x,y in zip(t, cmul(A[a:a+w], B[b:b+w], s.cx))]
                out += t
        return tuple(out)
    def on_throw(s, eng, st): eng.require(st, 'no exception is thrown for conforming operands', FALSE)
class Block(Prod):
    cost = 1
    def setup(s, eng, st):
        a, b, r = s.shapes(); reg = lambda nm, c, ro: eng.region(nm, stride=8*len(c), length=I(1), readonly=ro, fields={o: Field('f%d' % o,'R') for o in c})
        s.A, s.B, s.R = reg('a',a,True), reg('b',b,True), reg('r',r,False); val = lambda rg, c: tuple(eng.rd(st, rg, 'f%d' % o, I(0)) for o in c)
        s.want = tuple(add(x,y) for x,y in zip(val(s.R,r), s.mm(val(s.A,a), val(s.B,b)))); s.rc = r
        eng.call_function(st, eng.mod.get(s.fn), [Ptr(s.R,I(0)), Ptr(s.A,I(0)), Ptr(s.B,I(0))])
    def invariants(s, eng, v): return []
    def post(s, eng, st, ret):
        for i,o in enumerate(s.rc): eng.require(st, 'component %d gains the block product' % i, eq(eng.rd(st, s.R, 'f%d' % o, I(0)), s.want[i]))
class Sparse(Prod):
    """operands; the index of the summation: column of A = row of B (0), row of A = row of B (1), column of A = column of B (2)"""
    def operands(s, eng, st, fixed=True):
        a, b, r = s.shapes(); op = s.op; A = s.A = BCRS(eng, st, 'A', comps=a); B = s.B = BCRS(eng, st, 'B', comps=b)
        s.conform = eq(A.m,B.n) if op == 0 else eq(A.n,B.n) if op == 1 else eq(A.m,B.m)
        bound(eng, st, *([s.conform] if fixed else []), *[lt(x,I(2**60)) for x in (A.n,A.m,B.n,B.m)])
    def brow(s, i, k):
        """the row of B that meets entry (i,k) of A"""
        return s.A.col(i,k) if s.op == 0 else i
class Trav01(Sparse):
    cost = 1
    def on_throw(s, eng, st): eng.require(st, 'only operands that do not conform are rejected', not_(s.conform))
    def setup(s, eng, st):
        s.operands(eng, st, False); A, B = s.A, s.B; st.ghost['visits'] = I(0); p, q, t = s.p, s.q, s.t = [var(x,'I') for x in 'pqt']; s.b = s.brow(p,q)
        bound(eng, st, le(I(0),p), lt(p,A.n), A.rowfact(p), le(I(0),q), lt(q,A.LEN(p)), le(I(0),s.b), lt(s.b,B.n), B.rowfact(s.b), le(I(0),t), lt(t,B.LEN(s.b)))
        for X, row in ((A,p),(B,s.b)):
            for f in X.rows.fields.values():
                def facts(e, st_, i, v, of=f.facts, X=X, row=row): return of(e, st_, i, v) + [implies(and_(le(I(0),i),lt(i,X.n),ne(i,row)), or_(le(add(X.P(i),X.LEN(i)),X.P(row)), le(add(X.P(row),X.LEN(row)),X.P(i))))]
                f.facts = facts
        eng.call_function(st, eng.mod.get(s.fn), [A.ptr(), B.ptr()])
    def handler(s, eng, name):
        if name != 'vc_visit': return None
        def h(e, st, ins, a):
            x, y, i, j = a; A, B = s.A, s.B
            ra = [i_ for rg,f,i_ in st.idx if rg is A.rows][-1:]; rb = [i_ for rg,f,i_ in st.idx if rg is B.rows][-1:]
            if not(isinstance(x,Ptr) and x.reg is A.vals and isinstance(y,Ptr) and y.reg is B.vals and ra and rb): e.require(st, 'the visitor gets entries of A and B', FALSE); return ('ret', None)
            ra, rb = ra[0], rb[0]; na, nb = 8*len(A.comps), 8*len(B.comps); k, _ = e.divmod(x.off, I(na)); l, _ = e.divmod(y.off, I(nb)); k, l = sub(k,A.P(ra)), sub(l,B.P(rb))
            e.require(st, 'the visited entries belong to rows that meet', and_(eq(mul(I(na),add(A.P(ra),k)),x.off), eq(mul(I(nb),add(B.P(rb),l)),y.off), le(I(0),k), lt(k,A.LEN(ra)), le(I(0),l), lt(l,B.LEN(rb)), eq(rb, s.brow(ra,k))))
            e.require(st, 'row and column of the result', and_(eq(i, ra if s.op == 0 else A.col(ra,k)), eq(j, B.col(rb,l))))
            hit = and_(eq(x.off, mul(I(na),add(A.P(s.p),s.q))), eq(y.off, mul(I(nb),add(B.P(s.b),s.t))))
            e.setghost(st, 'visits', ite(hit, add(st.ghost['visits'],I(1)), st.ghost['visits'])); return ('ret', None)
        return h
    def invariants(s, eng, v):
        k = v.k; now = v.st.ghost['visits']; x = [s.p,s.q,s.t]; f = lt(x[len(k)-1],k[-1]) if len(k) <= 3 else FALSE
        for i in reversed(range(len(k)-1)): f = or_(lt(x[i],k[i]), and_(eq(x[i],k[i]), f))
        return [('visits', eq(now, ite(f, I(1), I(0))))]
    def post(s, eng, st, ret):
        eng.require(st, 'operands that do not conform are rejected', s.conform)
        eng.require(st, 'every pair of meeting entries is visited exactly once', eq(st.ghost['visits'], I(1)))
class Acc01(Sparse):
    cost = 3
    def setup(s, eng, st):
        s.operands(eng, st); A, B = s.A, s.B; ac, bc, rc = s.shapes(); C = s.C = BCRS(eng, st, 'C', comps=rc, readonly=False)
        bound(eng, st, eq(C.n, A.n if s.op == 0 else A.m), eq(C.m, B.m))
        p, q = s.p, s.q = var('p','I'), var('q','I'); bound(eng, st, le(I(0),p), lt(p,C.n), le(I(0),q), lt(q,C.LEN(p)), C.rowfact(p)); s.pos = add(C.P(p), q); s.c = C.col(p,q); bound(eng, st, le(I(0),s.c), lt(s.c,C.m))
        for f in C.rows.fields.values():
            def facts(e, st_, i, v, of=f.facts): return of(e, st_, i, v) + [implies(and_(le(I(0),i),lt(i,C.n),ne(i,p)), or_(le(add(C.P(i),C.LEN(i)),C.P(p)), le(add(C.P(p),C.LEN(p)),C.P(i))))]
            f.facts = facts
        def target(i, k, l): return (i if s.op == 0 else A.col(i,k)), B.col(s.brow(i,k), l)
        def probes(e, st_):
            ks = e.allks(st_); return [target(*ks[:3])] if len(ks) >= 3 else []
        C.probes = probes; of = B.cols.fields[0].facts
        def facts(e, st_, t, v):
            out = of(e, st_, t, v); ks = e.allks(st_)
            if len(ks) >= 3:
                i, k, l = ks[:3]; I_, J_ = target(i,k,l); ok = and_(le(I(0),i), lt(i,A.n), le(I(0),k), lt(k,A.LEN(i)), le(I(0),l), lt(l,B.LEN(s.brow(i,k))))
                out += [implies(ok, C.MEM(I_,J_))] + C.lbfacts(I_, J_, q)
            return out
        B.cols.fields[0].facts = facts
        def val(i, k, l):
            I_, J_ = target(i,k,l); hit = and_(eq(I_,p), eq(J_,s.c)); return tuple(ite(hit, e, R(0)) for e in s.mm(A.ent(i,k), B.ent(s.brow(i,k),l)))
        nc = len(rc)
        def G(i, k, l):
            i1, k1, l1 = sub(i,I(1)), sub(k,I(1)), sub(l,I(1)); z = I(0)
            return [(and_(le(l,z),le(k,z),le(i,z)), (R(0),)*nc), (and_(le(l,z),le(k,z),lt(z,i)), vapp('G',(i1,A.LEN(i1),z),nc)), (and_(le(l,z),lt(z,k)), vapp('G',(i,k1,B.LEN(s.brow(i,k1))),nc)),
                    (lt(z,l), tuple(add(a,b) for a,b in zip(vapp('G',(i,k,l1),nc), val(i,k,l1))))]
        s.G = vspec('G', nc, G)
        eng.call_function(st, eng.mod.get(s.fn), [C.ptr(), A.ptr(), B.ptr()])
    def now(s, v, c): return v.eng.rd(v.st, s.C.vals, 'f%d' % s.C.comps[c], s.pos)
    def invariants(s, eng, v):
        out = []; C = s.C; k = v.k
        if (C.vals.name,'f0') in v.lc.info.mods:
            for c in range(len(C.comps)):
                now = s.now(v, c); g = (list(k)+[I(0),I(0)])[:3]; out.append(('G.%d' % c, eq(now, s.G(*g)[c])))
                if len(k) == 1: out.append(('zero rows.%d' % c, implies(lt(s.p,k[0]), eq(now,R(0)))))
                if len(k) == 2: out.append(('zero rows+entries.%d' % c, implies(or_(lt(s.p,k[0]), and_(eq(s.p,k[0]), lt(s.q,k[1]))), eq(now,R(0)))))
        if len(k) >= 3:
            for i,c in C.probes(eng, v.st): out += searchcands(v, C, i, C.LB(i,c), 'res ')
        return out
    def post(s, eng, st, ret):
        for c in range(len(s.C.comps)): eng.require(st, 'component %d of the result entry is the sum over all meeting pairs' % c, eq(eng.rd(st, s.C.vals, 'f%d' % s.C.comps[c], s.pos), s.G(s.A.n,I(0),I(0))[c]))
def rowsapart(X, row):
    """two rows of a built matrix occupy disjoint windows"""
    for f in X.rows.fields.values():
        def facts(e, st_, i, v, of=f.facts): return of(e, st_, i, v) + [implies(and_(le(I(0),i),lt(i,X.n),ne(i,row)), or_(le(add(X.P(i),X.LEN(i)),X.P(row)), le(add(X.P(row),X.LEN(row)),X.P(i))))]
        f.facts = facts
def ownrow(X, t): return [a[0].args[1] for a in T.poly(t) if len(a) == 1 and a[0].op == 'app' and a[0].args[0] == X.name+'.P']
class Merge(Sparse):
    """A*B^T visits row i of A against row j of B by merging their columns"""
    cost = 2
    def merge(s, eng, st, extraA=(), extraB=()):
        A, B = s.A, s.B; oa, ob = A.cols.fields[0].facts, B.cols.fields[0].facts
        def fa(e, st_, t, v):
            out = oa(e, st_, t, v)
            for i in ownrow(A, t) or list(dict.fromkeys(i for r,f,i in st_.idx if r is A.rows)):
                k = sub(t,A.P(i)); k1 = sub(k,I(1)); out.append(A.sortedfact(i,k1,k))
                for r,q in extraA: out += [implies(eq(i,r), and_(A.sortedfact(i,q,k), A.sortedfact(i,k,q), A.sortedfact(i,q,k1), A.sortedfact(i,k1,q)))]
            return out
        def fb(e, st_, t, v):
            out = ob(e, st_, t, v)
            for j in ownrow(B, t) or list(dict.fromkeys(i for r,f,i in st_.idx if r is B.rows)):
                l = sub(t,B.P(j))
                for r,q in extraB: out += [implies(eq(j,r), and_(B.sortedfact(j,q,l), B.sortedfact(j,l,q)))]
            return out
        A.cols.fields[0].facts = fa; B.cols.fields[0].facts = fb
        def ca(t, i, k): return [eq(t, A.col(i,k)), A.sortedfact(i,sub(k,I(1)),k)] + [implies(eq(i,r), and_(A.sortedfact(i,q,k), A.sortedfact(i,k,q))) for r,q in extraA]
        s.cA = spec('A.c', 'I', ca)
    def inner(s, v):
        """positions of the pointers into the columns of B (merge position l)"""
        out = []; B = s.B; k = v.k
        j = [i for r,f,i in v.st.idx if r is B.rows][-1:]
        if not j: return []
        for nm, ph in v.phis.items():
            if isinstance(ph, Ptr) and ph.reg is B.cols: l, _ = v.eng.divmod(ph.off, I(8)); out.append((nm, j[0], sub(l,B.P(j[0]))))
            elif isinstance(ph, Term) and ph.sort == 'I': out.append((nm, j[0], ph))
        return out
class Trav2(Merge):
    def __init__(s, fn, variant): Prod.__init__(s, fn, 2, variant); s.brk = fn.endswith('b')
    def on_throw(s, eng, st): eng.require(st, 'only operands that do not conform are rejected', not_(s.conform))
    def setup(s, eng, st):
        s.operands(eng, st, False); A, B = s.A, s.B; p, q, r, t = s.p, s.q, s.r, s.t = [var(x,'I') for x in 'pqrt']
        for g in ('visits','rows','pend','cols'): st.ghost[g] = I(0)
        bound(eng, st, le(I(0),p), lt(p,A.n), A.rowfact(p), le(I(0),r), lt(r,B.n), B.rowfact(r))
        s.hit = and_(le(I(0),q), lt(q,A.LEN(p)), le(I(0),t), lt(t,B.LEN(r)), eq(A.col(p,q),B.col(r,t)))   # entries (p,q) of A and (r,t) of B meet
        rowsapart(A, p); rowsapart(B, r); s.merge(eng, st, [(p,q)], [(r,t)])
        eng.call_function(st, eng.mod.get(s.fn), [A.ptr(), B.ptr()])
    def handler(s, eng, name):
        g = lambda st, x: st.ghost[x]
        def visit(e, st, ins, a):
            x, y, _, j = a; A, B = s.A, s.B
            ra = [i_ for rg,f,i_ in st.idx if rg is A.rows][-1:]; rb = [i_ for rg,f,i_ in st.idx if rg is B.rows][-1:]
            if not(isinstance(x,Ptr) and x.reg is A.vals and isinstance(y,Ptr) and y.reg is B.vals and ra and rb): e.require(st, 'the visitor gets entries of A and B', FALSE); return ('ret', None)
            ra, rb = ra[0], rb[0]; na, nb = 8*len(A.comps), 8*len(B.comps); k, _ = e.divmod(x.off, I(na)); l, _ = e.divmod(y.off, I(nb)); k, l = sub(k,A.P(ra)), sub(l,B.P(rb))
            e.require(st, 'the visited entries meet', and_(eq(mul(I(na),add(A.P(ra),k)),x.off), eq(mul(I(nb),add(B.P(rb),l)),y.off), le(I(0),k), lt(k,A.LEN(ra)), le(I(0),l), lt(l,B.LEN(rb)), eq(A.col(ra,k),B.col(rb,l))))
            e.require(st, 'row of the result is the number of rows announced', eq(g(st,'rows'), ra)); e.require(st, 'column of the result', eq(j, rb))
            e.require(st, 'columns come in increasing order', or_(eq(g(st,'pend'),I(0)), eq(g(st,'pend'),add(j,I(1))))); e.require(st, 'no finished column is visited again', le(g(st,'cols'),j))
            here = and_(eq(ra,s.p), eq(rb,s.r)); here = here if s.brk else and_(here, eq(k,s.q), eq(l,s.t))
            e.setghost(st, 'visits', ite(here, add(g(st,'visits'),I(1)), g(st,'visits'))); e.setghost(st, 'pend', add(j,I(1))); return ('ret', None)
        def col(e, st, ins, a):
            e.require(st, 'a column ends only after a visit', lt(I(0),g(st,'pend'))); e.setghost(st, 'cols', g(st,'pend')); e.setghost(st, 'pend', I(0)); return ('ret', None)
        def row(e, st, ins, a):
            e.require(st, 'every visited column has ended', eq(g(st,'pend'),I(0))); e.setghost(st, 'rows', add(g(st,'rows'),I(1))); e.setghost(st, 'cols', I(0)); return ('ret', None)
        return dict(vc_visit=visit, vc_nextcol=col, vc_nextrow=row).get(name)
    def invariants(s, eng, v):
        k = v.k; g = v.st.ghost; A, B = s.A, s.B; out = [('rows', eq(g['rows'],k[0]))]; now = g['visits']; hit = s.hit; p, q, r, t = s.p, s.q, s.r, s.t
        if len(k) <= 2: out.append(('no pending', eq(g['pend'],I(0))))
        if len(k) == 1: out.append(('no columns', eq(g['cols'],I(0))))
        else: out.append(('columns', le(g['cols'],k[1])))
        def fin(f): return [('visits', implies(hit, eq(now, ite(f, I(1), I(0))))), ('visits2', implies(hit, implies(not_(f), eq(now, I(0))))), ('at most one', le(now,I(1))), ('not before', implies(not_(f), eq(now,I(0)))), ('>=0', le(I(0),now))]
        if len(k) == 1: out += fin(lt(p,k[0]))
        if len(k) == 2: out += fin(or_(lt(p,k[0]), and_(eq(p,k[0]), lt(r,k[1]))))
        if len(k) >= 3:
            before = or_(lt(p,k[0]), and_(eq(p,k[0]), lt(r,k[1]))); here = and_(eq(p,k[0]), eq(r,k[1])); kk = k[2]
            if s.brk: out += [('visits', implies(hit, eq(now, ite(before, I(1), I(0))))), ('visits none', implies(not_(before), eq(now,I(0)))), ('at most one', le(now,I(1))), ('entries ahead', implies(and_(hit,here), le(kk,q))), ('pending none', eq(g['pend'],I(0)))]
            else:
                out += [('visits', implies(hit, eq(now, ite(or_(before, and_(here, lt(q,kk))), I(1), I(0))))), ('pending', or_(eq(g['pend'],I(0)), eq(g['pend'],add(k[1],I(1))))), ('at most one', le(now,I(1)))]
                for nm, ph in v.phis.items():
                    if isinstance(ph, Term): 
                        try: b = ne(ph, I(0)) if ph.sort == 'I' else ph
                        except Exception: continue
                        if ph.sort == 'I': out.append(('bool '+nm, or_(eq(ph,I(0)), eq(ph,I(1)))))
                        if b.sort == 'B': out.append(('flag '+nm, and_(implies(b, ne(g['pend'],I(0))), implies(ne(g['pend'],I(0)), b))))
            for nm, j, l in s.inner(v):
                i = k[0]; km = sub(kk,I(1))
                out.append(('passed< %s' % nm, implies(and_(hit, here, lt(t,l)), and_(lt(I(0),kk), lt(B.col(j,t), s.cA(i,km))))))
                out.append(('passed %s' % nm, implies(and_(hit, here, lt(t,l), lt(kk,A.LEN(i))), lt(B.col(j,t), s.cA(i,kk)))))
                out.append(('l>=0 %s' % nm, le(I(0),l))); out.append(('l<=len %s' % nm, le(l,B.LEN(j))))
        return out
    def post(s, eng, st, ret):
        eng.require(st, 'operands that do not conform are rejected', s.conform)
        eng.require(st, 'entries that meet are visited exactly once' if not s.brk else 'rows that meet are visited exactly once', implies(s.hit, eq(st.ghost['visits'], I(1))))
        if s.brk: eng.require(st, 'rows are visited at most once', le(st.ghost['visits'], I(1)))
        eng.require(st, 'every row of the result is announced', eq(st.ghost['rows'], s.A.n))
class Acc2(Merge):
    """precondition: row i of the result holds, in order, exactly the columns j whose row of B meets row i of A (HIT); cnt(i,j) counts those below j"""
    cost = 3
    def setup(s, eng, st):
        s.operands(eng, st); A, B = s.A, s.B; ac, bc, rc = s.shapes(); C = s.C = BCRS(eng, st, 'C', comps=rc, readonly=False); nc = len(rc); z = I(0)
        bound(eng, st, eq(C.n, A.n), eq(C.m, B.n)); p, r = s.p, s.r = var('p','I'), var('r','I')
        W = lambda i, j: app('W', (lift(i,'I'),lift(j,'I')), 'I')
        HIT = s.HIT = spec('HIT', 'I', lambda t, i, j: [or_(eq(t,z), eq(t,I(1))), implies(eq(t,I(1)), and_(le(z,W(i,j)), lt(W(i,j),A.LEN(i)), B.MEM(j,A.col(i,W(i,j)))))])
        s.W = W; ok = lambda i, j: and_(le(z,i), lt(i,C.n), le(z,j), lt(j,C.m))
        def cdef(t, i, j):
            j1 = sub(j,I(1)); return [le(z,t), implies(le(j,z), eq(t,z)), implies(lt(z,j), eq(t, add(app('cnt',(i,j1),'I'), HIT(i,j1)))), implies(and_(ok(i,j), eq(HIT(i,j),I(1))), and_(lt(t,C.LEN(i)), eq(C.col(i,t),j)))]
        cnt = s.cnt = spec('cnt', 'I', cdef)
        bound(eng, st, ok(p,r), eq(HIT(p,r),I(1)), C.rowfact(p), B.rowfact(r), A.rowfact(p)); s.pos = add(C.P(p), cnt(p,r)); rowsapart(C, p); s.merge(eng, st)
        def pdef(t, i, j, k):
            k1 = sub(k,I(1)); c, c1 = A.col(i,k), A.col(i,k1); return [eq(t, B.LB(j,c)), A.sortedfact(i,k1,k)] + B.lbfacts(j, c, B.LB(j,c1), B.LB(j,c)) + B.lbfacts(j, c1, B.LB(j,c))
        s.POS = spec('POS', 'I', pdef)
        of = B.cols.fields[0].facts
        def facts(e, st_, t, v):
            out = of(e, st_, t, v); ks = e.allks(st_)
            if len(ks) >= 3:
                i, j, k = ks[:3]; c = A.col(i,k); out += B.lbfacts(j, c, sub(t,B.P(j)))+[implies(and_(lt(k,A.LEN(i)), B.MEM(j,c)), eq(HIT(i,j),I(1))), le(z,cnt(i,j)), C.rowfact(i), implies(and_(le(z,i),lt(i,C.n),ne(i,p)), or_(le(add(C.P(i),C.LEN(i)),C.P(p)), le(add(C.P(p),C.LEN(p)),C.P(i))))]
            return out
        B.cols.fields[0].facts = facts
        def G(k):
            k1 = sub(k,I(1)); c = A.col(p,k1); hit = B.MEM(r,c)
            return [(le(k,z), (R(0),)*nc), (lt(z,k), tuple(add(a, ite(hit, e, R(0))) for a,e in zip(vapp('G',(k1,),nc), s.mm(A.ent(p,k1), B.ent(r,B.LB(r,c))))))]
        s.G = vspec('G', nc, G)
        eng.call_function(st, eng.mod.get(s.fn), [C.ptr(), A.ptr(), B.ptr()])
    def invariants(s, eng, v):
        out = []; A, B, C, p, r = s.A, s.B, s.C, s.p, s.r; k = v.k; i = k[0]; fin = s.G(A.LEN(p)); nc = len(C.comps); now = [v.eng.rd(v.st, C.vals, 'f%d' % o, s.pos) for o in C.comps]
        hot = (C.vals.name,'f0') in v.lc.info.mods
        if hot:
            g = [s.G(k[2]) if len(k) > 2 else (R(0),)*nc][0]
            for c in range(nc):
                if len(k) == 1: out += [('rows.%d' % c, eq(now[c], ite(lt(p,i), fin[c], R(0)))), ('zero rows.%d' % c, implies(lt(p,i), eq(now[c],R(0))))]
                if len(k) == 2: out += [('rows.%d' % c, eq(now[c], ite(or_(lt(p,i), and_(eq(p,i), lt(r,k[1]))), fin[c], R(0)))), ('zero rows.%d' % c, implies(or_(lt(p,i), and_(eq(p,i), lt(s.cnt(p,r),k[1]))), eq(now[c],R(0))))]
                if len(k) >= 3: out += [('rows.%d' % c, eq(now[c], ite(or_(lt(p,i), and_(eq(p,i), lt(r,k[1]))), fin[c], ite(and_(eq(p,i), eq(r,k[1])), g[c], R(0)))))]
        if len(k) >= 3:
            j, kk = k[1], k[2]
            for nm, jj, l in s.inner(v):
                out += [('merge %s' % nm, implies(lt(kk,A.LEN(i)), le(l, s.POS(i,j,kk)))), ('l>=0 %s' % nm, le(I(0),l)), ('l<=len %s' % nm, le(l,B.LEN(jj)))]
            for nm, ph in v.phis.items():
                if not isinstance(ph, Term): continue
                if ph.sort == 'I': out.append(('bool '+nm, or_(eq(ph,I(0)), eq(ph,I(1)))))
                b = ne(ph,I(0)) if ph.sort == 'I' else ph
                if b.sort == 'B': out += [('flag '+nm, implies(b, eq(s.HIT(i,j),I(1)))), ('no flag '+nm, implies(not_(b), or_(eq(s.HIT(i,j),I(0)), le(kk,s.W(i,j)))))]
        for nm, ph in v.phis.items():
            if isinstance(ph, Ptr) and ph.reg in (C.vals, C.cols):
                w = 8 if ph.reg is C.cols else 8*nc
                out += [('row start '+nm, implies(lt(i,C.n), eq(ph.off, mul(I(w), C.P(i)))))]
                if len(k) >= 2: out += [('entry '+nm, eq(ph.off, mul(I(w), add(C.P(i), s.cnt(i,k[1])))))]
            if isinstance(ph, Ptr) and ph.reg is C.rows: out.append(('row '+nm, eq(ph.off, mul(I(C.rows.stride), i))))
            if isinstance(ph, Term) and ph.sort == 'I':
                out += [('row '+nm, eq(ph, i)), ('start '+nm, implies(lt(i,C.n), eq(ph,I(0))))]
                if len(k) >= 2: out += [('cnt '+nm, eq(ph, s.cnt(i,k[1]))), ('P+cnt '+nm, eq(ph, add(C.P(i),s.cnt(i,k[1]))))]
        return out
    def post(s, eng, st, ret):
        for c,o in enumerate(s.C.comps): eng.require(st, 'component %d of the result entry is the sum over all meeting pairs' % c, eq(eng.rd(st, s.C.vals, 'f%d' % o, s.pos), s.G(s.A.LEN(s.p))[c]))
class Transpose(Contract):
    cost = 1
    def __init__(s, variant): s.nc = (1,4)[variant]; s.fn = 'c_tr'; s.name = 'Matrix<%s>::transpose' % ('double','FieldMatrix<double,2,2>')[variant]; s.heap = None
    def setup(s, eng, st):
        A = s.A = DenseM(eng, st, 'A', s.nc); p, q = s.p, s.q = var('p','I'), var('q','I'); s.heap = None
        bound(eng, st, le(I(0),p), lt(p,A.rows), le(I(0),q), lt(q,A.cols), lt(A.rows,I(2**30)), lt(A.cols,I(2**30))); s.R = eng.region('R', kind='cells'); st.cells[s.R] = {}
        def facts(e, st_, t, v):
            ks = e.allks(st_)
            if len(ks) < 2: return []
            i, j = ks[:2]; out = []     # entries of different rows of the transpose have different positions
            for a,b in ((j,q),(q,j)): out.append(implies(lt(a,b), le(add(mul(a,A.rows),A.rows), mul(b,A.rows))))
            for x, n, m in ((i,A.rows,A.cols),(j,A.cols,A.rows)): out.append(implies(and_(le(I(0),x), lt(x,n)), and_(le(I(0),mul(x,m)), le(add(mul(x,m),m), mul(n,m)))))
            return out
        for f in A.data.fields.values(): f.facts = facts
        eng.call_function(st, eng.mod.get(s.fn), [Ptr(s.R,I(0)), A.ptr()])
    def alloc(s, eng, st, r, n):
        q, rem = eng.divmod(n, I(8*s.nc)); r.stride = 8*s.nc; r.length = q; r.fields = {8*i: Field('f%d' % (8*i),'R') for i in range(s.nc)}; s.heap = r
    def now(s, eng, st): return [eng.rd(st, s.heap, 'f%d' % (8*c), add(mul(s.q,s.A.rows),s.p)) for c in range(s.nc)]
    def invariants(s, eng, v):
        out = []; k = v.k
        if s.heap is None or (s.heap.name,'f0') not in v.lc.info.mods: return []
        done = lt(s.p,k[0]) if len(k) == 1 else or_(lt(s.p,k[0]), and_(eq(s.p,k[0]), lt(s.q,k[1])))
        for c,(x,w) in enumerate(zip(s.now(eng, v.st), s.A.ent0(s.p,s.q))): out.append(('copied.%d' % c, implies(done, eq(x,w))))
        return out
    def on_throw(s, eng, st): eng.require(st, 'no exception is thrown', FALSE)
    def post(s, eng, st, ret):
        L = lambda f: layout(eng,'mat_'+f); cell = lambda f: st.cells[s.R].get(L(f)); pp = cell('p')
        eng.require(st, 'the transpose has M() rows', eq(cell('rows'), s.A.cols)); eng.require(st, 'the transpose has N() columns', and_(eq(cell('cols'), s.A.rows), eq(cell('columns'), s.A.rows)))
        if not (isinstance(pp, Ptr) and pp.reg is s.heap and pp.off is I(0)): eng.require(st, 'result owns its array', FALSE); return
        for c,(x,w) in enumerate(zip(s.now(eng, st), s.A.ent0(s.p,s.q))): eng.require(st, 'component %d of entry (q,p) of the transpose is entry (p,q)' % c, eq(x,w))
def contracts(tier):
    out = []
    for v in VARIANTS:
        cs = [Block('c_block%d' % o, o, v) for o in range(3)]
        if v < 2: cs += [Trav01('c_trav%d' % o, o, v) for o in range(2)]
        if v < 2: cs += [Transpose(v), Trav2('c_trav2', v), Trav2('c_trav2b', v)]
        cs += [Acc01('c_acc%d' % o, o, v) for o in range(2)] + [Acc2('c_acc2', 2, v)]
        out.append(('drivers/c12.cc', ['VARIANT=%d' % v], cs))
    return out
