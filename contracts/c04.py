"""C04: every way of building a sparse matrix yields exactly the requested pattern."""
from vc.common import *
from vc.terms import *
LEVEL = 'proof'
NOTE = ('Building of BCRSMatrix, for all sizes, patterns and call orders: random mode (setrowsize, incrementrowsize, getrowsize, endrowsizes with the windows of the rows laid out one after the other, addindex with sorted insertion, duplicates and full rows, endindices with ordering and range checks), row-wise mode (CreateIterator: construction, each ++ stores exactly the sorted indices of the row, allocation per row or in the given storage), implicit mode entry() (the entry in the window or the overflow entry of that position, inserted at its sorted place), setWindowPointers/setColumnPointers/setDataPointers, setIndicesNoSort, and the state machine of build mode and build stage (exception for every step out of order, nothing else). '
        'Trusts clang lowering, the VC generator and libstdc++ set/map. Bounded only: compress(), setIndices (std::sort), copies and MatrixIndexSet.')
BOUNDED = 'complete builds in every mode against a set-of-positions oracle: random order, duplicates, overflow, compress(), MatrixIndexSet (both storage types), copies, assignment, rebuilding, out-of-order steps'
ASSUMPTIONS = ['announced sizes are below 2^62 entries', 'the windows of the rows follow one another (lemma Monotone from the layout that is proved)', 'the set of the create iterator and the overflow map of libstdc++ keep their keys sorted and unique', 'the pointers of rows without entries are arbitrary positions', 'text of diagnostics is dropped', 'self-assignment and reference counts of the shared column array: bounded only']
VARIANTS = {0:('double',1), 1:('FieldMatrix<double,2,2>',4)}
ROW_WISE, RANDOM, IMPLICIT, UNKNOWN = 0, 1, 2, 3
NOTALLOC, BUILDING, SIZES, BUILT = 0, 1, 2, 3
def at2(r, o): return Ptr(r, I(o))
class Build:
    """a matrix under construction: rows i with LEN(i) announced entries at positions [P(i),P(i)+LEN(i)) of the column array, of which the first U(i) hold
       strictly increasing columns below m and the rest the mark m"""
    def __init__(s, eng, st, name, nc, filled=True, stage=None, mode=None, a='null', j='cols'):
        s.eng, s.name, s.nc = eng, name, nc
        L = lambda f: layout(eng, 'bcrs_'+f)
        s.n, s.m, s.nnz, s.alloc, s.avg = (var('%s.%s' % (name,x),'I') for x in ('n','m','nnz','alloc','avg'))
        s.ready = I(stage) if stage is not None else var(name+'.ready','I'); s.mode = I(mode) if mode is not None else var(name+'.mode','I')
        s.vals = eng.region(name+'.vals', stride=8*nc, length=s.nnz, fields={8*o: Field('f%d' % (8*o),'R') for o in range(nc)})
        s.cols = eng.region(name+'.cols', stride=8, length=s.nnz)
        s.rows = eng.region(name+'.rows', stride=L('row_size'), length=s.n)
        s.head = eng.region(name, kind='cells')
        s.J = arr(name+'.cols.f0','I')
        s.cols.fields = {0: Field('f0','I', facts=s.colfacts)}
        s.rows.fields = {L('row_n'): Field('n','I',facts=s.rowfacts), L('row_p'): Field('p','I',target=s.vals.name,facts=s.rowfacts), L('row_j'): Field('j','I',target=s.cols.name,facts=s.rowfacts)}
        st.mem[(s.rows,'n')] = mk('fun', (name+'.len',), 'AI'); st.mem[(s.rows,'p')] = mk('fun', (name+'.P',), 'AI'); st.mem[(s.rows,'j')] = mk('fun', (name+'.P',), 'AI')
        at = lambda r: Ptr(r, I(0)); init = dict(n=s.n, m=s.m, nnz=s.nnz, alloc=s.alloc, avg=s.avg, ready=s.ready, mode=s.mode, r=at(s.rows), a=at(s.vals) if a == 'vals' else Ptr(None,I(0)), jp=at(s.cols) if j == 'cols' else Ptr(None,I(0)))
        st.cells[s.head] = {L(f): x for f, x in init.items()}; st.cells[s.head][L('jp')+8] = Ptr(None,I(0))
        st.cells[s.head].update({L('ovf')+16: Ptr(None,I(0)), L('ovf')+24: at2(s.head,L('ovf')+8), L('ovf')+32: at2(s.head,L('ovf')+8), L('ovf')+40: I(0)})      # an empty std::map
        bound(eng, st, le(I(0),s.n), le(I(0),s.m), le(I(0),s.nnz), le(I(0),s.ready), le(s.ready,I(3)), le(I(0),s.mode), le(s.mode,I(3)))
        s.extra = lambda e, st_, i, k: []; s.rowextra = lambda e, st_, i: []; s.filled = filled
    def P(s, i): return app(s.name+'.P', (lift(i,'I'),), 'I')
    def LEN(s, i): return app(s.name+'.len', (lift(i,'I'),), 'I')
    def U(s, i): return app(s.name+'.used', (lift(i,'I'),), 'I')
    def LB(s, i, c): return app(s.name+'.lb', (lift(i,'I'),lift(c,'I')), 'I')
    def col(s, i, k): return sel(s.J, add(s.P(i), lift(k,'I')))
    def ptr(s): return Ptr(s.head, I(0))
    def inrow(s, i): return and_(le(I(0),i), lt(i,s.n))
    def rowfact(s, i): return implies(s.inrow(i), and_(le(I(0),s.P(i)), le(I(0),s.LEN(i)), le(add(s.P(i),s.LEN(i)), s.nnz), *([le(I(0),s.U(i)), le(s.U(i),s.LEN(i))] if s.filled else [])))
    def rowfacts(s, e, st, i, v): return [s.rowfact(i)] + s.rowextra(e, st, i)
    def fill(s, i, k):
        """position k of row i: below U(i) a column less than m, from U(i) on the mark m"""
        ok = and_(s.inrow(i), le(I(0),k), lt(k,s.LEN(i))); c = s.col(i,k)
        return [implies(and_(ok, lt(k,s.U(i))), and_(le(I(0),c), lt(c,s.m))), implies(and_(ok, le(s.U(i),k)), eq(c,s.m))]
    def lb(s, i, c, k):
        """LB(i,c): number of columns of row i below c (c <= m); the used columns increase strictly"""
        g = s.LB(i,c); ok = and_(s.inrow(i), le(I(0),k), lt(k,s.LEN(i)))
        return [implies(s.inrow(i), and_(le(I(0),g), le(g,s.U(i)))), implies(and_(ok, lt(k,g)), lt(s.col(i,k),c)), implies(and_(ok, le(g,k)), le(c,s.col(i,k))), implies(and_(ok, lt(g,k), lt(k,s.U(i))), lt(c,s.col(i,k)))]
    def inc(s, i, k1, k2): return implies(and_(s.inrow(i), le(I(0),k1), lt(k1,k2), lt(k2,s.U(i))), lt(s.col(i,k1), s.col(i,k2)))
    def colfacts(s, e, st, t, v):
        if not s.filled: return []
        own = [a[0].args[1] for a in T.poly(t) if len(a) == 1 and a[0].op == 'app' and a[0].args[0] == s.name+'.P']
        out = []
        for i in own or list(dict.fromkeys(i for r,f,i in st.idx if r is s.rows)):
            k = sub(t, s.P(i)); out += s.fill(i, k) + s.extra(e, st, i, k)
        return out
    def now(s, eng, st, i, k): return eng.rd(st, s.cols, 'f0', add(s.P(i), lift(k,'I')))
    def hd(s, eng, st, f): return st.cells[s.head].get(layout(eng,'bcrs_'+f))
class AddIndex(Contract):
    """addindex(i,j): the column becomes member of row i at its sorted position, all other columns stay; rejected with an exception exactly when not possible"""
    def __init__(s, variant):
        s.what, s.nc = VARIANTS[variant]; s.fn = 'c_addindex'; s.name = 'addindex<%s>' % s.what; s.cost = 3
    def setup(s, eng, st):
        A = s.A = Build(eng, st, 'A', s.nc); i, j, k, t = s.i, s.j, s.k, s.t = var('i','I'), var('j','I'), var('k','I'), var('t','I')
        bound(eng, st, A.inrow(i), le(I(0),j), A.rowfact(i), le(I(0),k), lt(k,A.LEN(i)), le(I(0),t), lt(t,A.nnz))
        A.extra = lambda e, st_, i_, k_: [implies(le(j,A.m), f) for f in A.lb(i_, j, k_)]
        g = s.g = A.LB(i,j); s.present = and_(lt(g,A.LEN(i)), eq(A.col(i,g),j))
        for q in (k, sub(k,I(1)), add(k,I(1)), g, I(0)):
            for f in A.fill(i,q)+ [implies(le(j,A.m), f) for f in A.lb(i,j,q)]: eng.assume(st, f)
        for q in (sub(k,I(1)), k): eng.assume(st, A.inc(i,q,add(q,I(1))))
        s.legal = and_(eq(A.mode,I(RANDOM)), eq(A.ready,I(SIZES)), lt(j,A.m), or_(s.present, lt(A.U(i),A.LEN(i))))
        eng.call_function(st, eng.mod.get(s.fn), [A.ptr(), i, j])
    def invariants(s, eng, v): return searchcands(v, s.A, s.i, s.g) + searchcands(v, s.A, s.i, s.A.U(s.i), 'end ')
    def want(s, k):
        A, i, j, g = s.A, s.i, s.j, s.g
        return ite(or_(s.present, lt(k,g)), A.col(i,k), ite(eq(k,g), j, ite(le(k,A.U(i)), A.col(i,sub(k,I(1))), A.m)))
    def on_throw(s, eng, st):
        eng.require(st, 'an exception is thrown only for a misplaced call, a column out of range or a full row', not_(s.legal))
        eng.require(st, 'a rejected column changes nothing', eq(eng.rd(st, s.A.cols, 'f0', s.t), sel(s.A.J, s.t)))
    def post(s, eng, st, ret):
        A, i, j, k, g = s.A, s.i, s.j, s.k, s.g
        eng.require(st, 'impossible additions are rejected', s.legal)
        eng.require(st, 'the columns of the row are the old ones and the added one', eq(A.now(eng,st,i,k), s.want(k)))
        u1 = ite(s.present, A.U(i), add(A.U(i),I(1)))
        eng.require(st, 'the columns stay strictly increasing', implies(and_(lt(add(k,I(1)),u1)), lt(A.now(eng,st,i,k), A.now(eng,st,i,add(k,I(1))))))
        eng.require(st, 'other rows stay unchanged', implies(or_(lt(s.t,A.P(i)), le(add(A.P(i),A.LEN(i)),s.t)), eq(eng.rd(st, A.cols, 'f0', s.t), sel(A.J, s.t))))
class RowSize(Contract):
    """setrowsize / incrementrowsize / getrowsize"""
    def __init__(s, op, variant):
        s.op = op; s.what, s.nc = VARIANTS[variant]; s.fn = 'c_'+op; s.name = '%s<%s>' % (op, s.what); s.cost = 1
    def setup(s, eng, st):
        A = s.A = Build(eng, st, 'A', s.nc, filled=False); i, p, x = s.i, s.p, s.x = var('i','I'), var('p','I'), var('x','I')
        bound(eng, st, A.inrow(i), A.inrow(s.p), le(I(0),x)); eng.assume(st, le(I(0),A.LEN(i))); eng.assume(st, le(A.LEN(i), I(2**62)))
        s.legal = TRUE if s.op == 'getrowsize' else and_(eq(A.mode,I(RANDOM)), eq(A.ready,I(BUILDING)))
        eng.call_function(st, eng.mod.get(s.fn), [A.ptr(), i] + ([x] if s.op != 'getrowsize' else []))
    def on_throw(s, eng, st):
        eng.require(st, 'an exception is thrown only for a misplaced call', not_(s.legal)); eng.require(st, 'a rejected call changes nothing', eq(eng.rd(st, s.A.rows, 'n', s.p), s.A.LEN(s.p)))
    def post(s, eng, st, ret):
        A = s.A; new = {'getrowsize': A.LEN(s.i), 'setrowsize': s.x, 'incrementrowsize': add(A.LEN(s.i),s.x)}[s.op]
        eng.require(st, 'misplaced calls are rejected', s.legal)
        if s.op == 'getrowsize': eng.require(st, 'the announced size is returned', eq(ret, new))
        eng.require(st, 'the announced sizes', eq(eng.rd(st, A.rows, 'n', s.p), ite(eq(s.p,s.i), new, A.LEN(s.p))))
def eng_rd(vw, A, i): return vw.eng.rd(vw.st, A.rows, 'n', i)
class Windows(Contract):
    """row windows laid out one after the other: setColumnPointers, setDataPointers, setWindowPointers, and within endrowsizes"""
    def __init__(s, op, variant):
        s.op = op; s.what, s.nc = VARIANTS[variant]; s.fn = 'c_'+op; s.name = '%s<%s>' % (op, s.what); s.cost = 2
    def setup(s, eng, st):
        A = s.A = Build(eng, st, 'A', s.nc, filled=False, a='vals'); p = s.p = var('p','I'); Q = s.Q = A; 
        args = [A.ptr()]
        if s.op == 'setWindowPointers': Q = s.Q = Build(eng, st, 'Q', s.nc, filled=False); args.append(Q.ptr()); eng.assume(st, eq(Q.n, A.n)); Q.rowextra = lambda e, st_, i: off(i)
        N = s.N = Q.LEN
        s.OFF = spec('A.off', 'I', lambda t, i: [eq(s.OFF(I(0)),I(0)), implies(Q.inrow(i), and_(le(I(0),N(i)), eq(s.OFF(add(i,I(1))), add(s.OFF(i),N(i)))))])
        off = lambda i: [implies(Q.inrow(i), and_(le(I(0),s.OFF(i)), le(I(0),N(i)), le(add(s.OFF(i),N(i)), A.nnz)))]
        A.rowfacts = lambda e, st_, i, v: []
        A.rowfact = lambda i: and_(*off(i)); Q.rowfact = A.rowfact
        A.rows.fields = {o: Field(f.name, f.sort, f.target, (lambda e, st_, i, v: off(i)), f.size) for o,f in A.rows.fields.items()}
        bound(eng, st, A.inrow(p), *off(p))
        eng.call_function(st, eng.mod.get(s.fn), args)
    def row(s, eng, st, i): A = s.A; return [eng.rd(st, A.rows, f, i) for f in ('n','p','j')]
    def sets(s): return {'setColumnPointers':('j',), 'setDataPointers':('p',), 'setWindowPointers':('p','j')}[s.op]
    def goals(s, eng, st, done):
        n, pp, j = s.row(eng, st, s.p); N = s.N(s.p); old = {'p': s.A.P(s.p), 'j': s.A.P(s.p)}
        yield 'size of the row', eq(n, ite(done, N, s.A.LEN(s.p)))
        for f, x in (('p',pp),('j',j)):
            if f in s.sets(): yield 'window %s of the row' % f, implies(lt(I(0),N), eq(x, ite(done, s.OFF(s.p), old[f])))
            else: yield 'window %s stays' % f, implies(lt(I(0),N), eq(x, old[f]))
    def sizes(s):
        A = s.A; return ('sizes stay', dict(terms=lambda e, st_: list(dict.fromkeys([i for r,f,i in st_.idx if r is A.rows]+[s.p])), body=lambda vw, i: implies(A.inrow(i), eq(eng_rd(vw, A, i), A.LEN(i)))))
    def invariants(s, eng, v):
        k = v.k[0]; out = [(nm, g) for nm, g in s.goals(eng, v.st, lt(s.p,k))]
        for nm, ph in v.phis.items():
            if isinstance(ph, Ptr) and ph.reg in (s.A.cols, s.A.vals): out.append(('offset '+nm, eq(ph.off, mul(I(ph.reg.stride), s.OFF(k)))))
            elif isinstance(ph, Term) and ph.sort == 'I': out.append(('offset '+nm, eq(ph, s.OFF(k))))
        for c, x in v.st.cells.items():
            for o, y in x.items():
                if isinstance(y, Ptr) and y.reg in (s.A.cols, s.A.vals) and c is not s.A.head: out.append(('offset cell %s %d' % (c.name,o), eq(y.off, mul(I(y.reg.stride), s.OFF(k)))))
        if s.Q is s.A: out.append(s.sizes())
        return out
    def post(s, eng, st, ret):
        for nm, g in s.goals(eng, st, TRUE): eng.require(st, nm, g)
class EndRowSizes(Windows):
    """endrowsizes: the announced rows get disjoint consecutive windows, every position holds the mark m"""
    def __init__(s, given, variant):
        s.op = 'endrowsizes'; s.given = given; s.what, s.nc = VARIANTS[variant]; s.fn = 'c_endrowsizes'; s.name = 'endrowsizes<%s> %s' % (s.what, 'with given number of nonzeroes' if given else 'allocating'); s.cost = 3
    def setup(s, eng, st):
        A = s.A = s.Q = Build(eng, st, 'A', s.nc, filled=False, j='cols' if s.given else 'null'); p, t = s.p, s.t = var('p','I'), var('t','I')
        N = s.N = A.LEN; s.heap = A.cols if s.given else None
        s.OFF = spec('A.off', 'I', lambda t, i: [eq(s.OFF(I(0)),I(0)), implies(A.inrow(i), and_(le(I(0),N(i)), eq(s.OFF(add(i,I(1))), add(s.OFF(i),N(i)))))])
        A.rows.fields = {o: Field(f.name, f.sort, f.target, (lambda e, st_, i, v: [implies(A.inrow(i), le(I(0),N(i)))]), f.size) for o,f in A.rows.fields.items()}
        bound(eng, st, A.inrow(p), le(I(0),N(p)), le(I(0),t)); eng.assume(st, lt(I(0),A.nnz) if s.given else eq(A.nnz,I(0)))
        s.legal = and_(eq(A.mode,I(RANDOM)), eq(A.ready,I(BUILDING)), *([le(s.OFF(A.n),A.nnz)] if s.given else []))
        eng.call_function(st, eng.mod.get(s.fn), [A.ptr()])
    def alloc(s, eng, st, r, n):
        q, rem = eng.divmod(n, I(8)); r.stride = 8; r.length = q; r.fields = {0: Field('f0','I')}; s.heap = r
        for f in s.A.rows.fields.values():
            if f.name == 'j': f.target = r.name
    def sets(s): return ('j',)
    def invariants(s, eng, v):
        A = s.A; k = v.k[0]; mods = v.lc.info.mods; out = []
        for nm, ph in v.phis.items():
            if isinstance(ph, Ptr) and ph.reg in (s.heap, A.cols): out.append(('offset '+nm, eq(ph.off, mul(I(8), s.OFF(k)))))
            elif isinstance(ph, Term) and ph.sort == 'I': out.append(('sum '+nm, eq(ph, s.OFF(k)))); out.append(('sum nonneg '+nm, le(I(0),ph)))
        out.append(('window below', implies(lt(s.p,k), and_(le(I(0),s.OFF(s.p)), le(add(s.OFF(s.p),s.N(s.p)), s.OFF(k)))))); out.append(('offset nonneg', le(I(0),s.OFF(k))))
        if (A.rows.name,'n') in mods:
            out += [(nm, g) for nm, g in s.goals(eng, v.st, lt(s.p,k))] + [s.sizes()]
        if s.heap is not None and (s.heap.name,'f0') in mods: out.append(('marked', implies(lt(s.t,k), eq(eng.rd(v.st, s.heap, 'f0', s.t), A.m))))
        return out
    def on_throw(s, eng, st): eng.require(st, 'an exception is thrown only for a misplaced call or too small a number of nonzeroes', not_(s.legal))
    def post(s, eng, st, ret):
        A = s.A; nnz = A.hd(eng, st, 'nnz'); j = A.hd(eng, st, 'jp')
        eng.require(st, 'misplaced calls and too small a number of nonzeroes are rejected', s.legal)
        for f, x in (('n',A.n),('m',A.m),('ready',I(SIZES)),('mode',I(RANDOM)),('nnz',A.nnz if s.given else s.OFF(A.n))): eng.require(st, 'member %s' % f, eq(A.hd(eng,st,f), x))
        for nm, g in s.goals(eng, st, TRUE): eng.require(st, nm, g)
        eng.require(st, 'the window lies in the array', and_(le(I(0),s.OFF(s.p)), le(add(s.OFF(s.p),s.N(s.p)), nnz)))
        if not (isinstance(j, Ptr) and (j.reg is s.heap and j.off is I(0))): eng.require(st, 'without entries no array is needed', eq(nnz, I(0)) if isinstance(j, Ptr) and j.reg is None else FALSE); return
        if j.reg.length is not A.nnz: eng.require(st, 'the array has room for all entries', le(nnz, j.reg.length))
        eng.require(st, 'every position is marked as unused', implies(lt(s.t,nnz), eq(eng.rd(st, j.reg, 'f0', s.t), A.m)))
class EndIndices(Contract):
    """endindices: every row shrinks to the columns it has received, the windows become contiguous and keep their columns in order, entries are allocated"""
    def __init__(s, variant):
        s.what, s.nc = VARIANTS[variant]; s.fn = 'c_endindices'; s.name = 'endindices<%s>' % s.what; s.cost = 5
    def setup(s, eng, st):
        A = s.A = Build(eng, st, 'A', s.nc); p, q = s.p, s.q = var('p','I'), var('q','I'); s.heap = None
        s.OFF = spec('A.noff', 'I', lambda t, i: [eq(s.OFF(I(0)),I(0)), implies(A.inrow(i), and_(le(I(0),A.U(i)), eq(s.OFF(add(i,I(1))), add(s.OFF(i),A.U(i)))))])
        s.order = lambda i, k: implies(and_(le(I(0),i), lt(i,k), lt(k,A.n)), le(add(A.P(i),A.LEN(i)), A.P(k)))
        A.rowextra = lambda e, st_, i: [s.order(i,p), s.order(p,i), s.order(i,add(i,I(1))), A.rowfact(add(i,I(1)))]
        bound(eng, st, A.inrow(p), A.rowfact(p), le(I(0),q), lt(q,A.U(p)), eq(A.nnz,A.alloc), A.rowfact(I(0)))
        for f in A.fill(p,q): eng.assume(st, f)
        s.legal = and_(eq(A.mode,I(RANDOM)), eq(A.ready,I(SIZES)))
        eng.call_function(st, eng.mod.get(s.fn), [A.ptr()])
    def alloc(s, eng, st, r, n):
        b = 8*s.nc; x, rem = eng.divmod(n, I(b)); r.stride = b; r.length = x; r.fields = {8*i: Field('f%d' % (8*i),'R') for i in range(s.nc)}; s.heap = r
        for f in s.A.rows.fields.values():
            if f.name == 'p': f.target = r.name
    def quant(s, nm, body):
        A = s.A; return (nm, dict(terms=lambda e, st_: list(dict.fromkeys([i for r,f,i in st_.idx if r is A.rows]+[s.p])), body=lambda vw, i: implies(A.inrow(i), body(vw, i))))
    def invariants(s, eng, v):
        A = s.A; k = v.k[0]; mods = v.lc.info.mods; out = []; row = lambda vw, f, i: vw.eng.rd(vw.st, A.rows, f, i)
        if len(v.k) == 2: out.append(('within the columns', le(v.k[1], A.U(k)))); out.append(('within', le(v.k[1], A.LEN(k))))
        for nm, ph in v.phis.items():
            if isinstance(ph, Ptr) and s.heap is not None and ph.reg is s.heap: out.append(('offset '+nm, eq(ph.off, mul(I(ph.reg.stride), s.OFF(k)))))
            if isinstance(ph, Ptr) and ph.reg is A.cols: out.append(('offset '+nm, eq(ph.off, mul(I(8), s.OFF(k)))))
        if (A.rows.name,'n') in mods:
            out.append(s.quant('sizes: shrunk below, announced above', lambda vw, i: eq(row(vw,'n',i), ite(lt(i,k), A.U(i), A.LEN(i)))))
            out.append(s.quant('all sizes shrunk', lambda vw, i: eq(row(vw,'n',i), A.U(i))))
        if (A.rows.name,'j') in mods:
            out.append(s.quant('moved windows', lambda vw, i: implies(lt(I(0),A.U(i)), eq(row(vw,'j',i), ite(lt(i,k), s.OFF(i), A.P(i))))))
            out.append(s.quant('windows stay moved', lambda vw, i: implies(lt(I(0),A.U(i)), eq(row(vw,'j',i), s.OFF(i)))))
            out.append(('never ahead', implies(lt(k,A.n), le(s.OFF(k), A.P(k))))); out.append(('nonneg offset', le(I(0),s.OFF(k)))); out.append(('in the array', le(s.OFF(k), A.nnz)))
            out.append(('below', implies(lt(s.p,k), and_(le(I(0),s.OFF(s.p)), le(add(s.OFF(s.p),A.U(s.p)), s.OFF(k))))))
        if (A.cols.name,'f0') in mods: out.append(('columns kept', eq(eng.rd(v.st, A.cols, 'f0', add(ite(lt(s.p,k), s.OFF(s.p), A.P(s.p)), s.q)), A.col(s.p,s.q))))
        if (A.rows.name,'p') in mods: out.append(('entries of row p', implies(and_(lt(s.p,k), lt(I(0),A.U(s.p))), eq(row(v,'p',s.p), s.OFF(s.p)))))
        return out
    def on_throw(s, eng, st): eng.require(st, 'an exception is thrown only for a misplaced call', not_(s.legal))
    def post(s, eng, st, ret):
        A = s.A; p, q = s.p, s.q; nnz = A.hd(eng, st, 'nnz'); row = lambda f: eng.rd(st, A.rows, f, p); a = A.hd(eng, st, 'a'); j = A.hd(eng, st, 'jp')
        eng.require(st, 'misplaced calls are rejected', s.legal)
        for f, x in (('n',A.n),('m',A.m),('ready',I(BUILT)),('nnz',s.OFF(A.n))): eng.require(st, 'member %s' % f, eq(A.hd(eng,st,f), x))
        eng.require(st, 'the row has the size of its columns', eq(row('n'), A.U(p)))
        eng.require(st, 'the row has its window of columns', eq(row('j'), s.OFF(p))); eng.require(st, 'the row has its window of entries', eq(row('p'), s.OFF(p)))
        eng.require(st, 'the windows lie in the arrays', and_(le(I(0),s.OFF(p)), le(add(s.OFF(p),A.U(p)), nnz)))
        eng.require(st, 'the columns of the row are the inserted ones', eq(eng.rd(st, A.cols, 'f0', add(row('j'),q)), A.col(p,q)))
        eng.require(st, 'the column array stays', TRUE if isinstance(j, Ptr) and j.reg is A.cols and j.off is I(0) else FALSE)
        if not (isinstance(a, Ptr) and a.reg is s.heap and a.off is I(0) and s.heap is not None): eng.require(st, 'entries are allocated', eq(A.alloc, I(0)) if isinstance(a, Ptr) and a.reg is None else FALSE); return
        eng.require(st, 'the entries have room', le(nnz, a.reg.length))
class Monotone(Contract):
    """lemma used below: prefix sums of row lengths are monotone, so windows laid out one after the other are disjoint"""
    name = 'lemma: consecutive windows are disjoint'; cost = 1; fn = ''
    def setup(s, eng, st):
        n = var('n','I'); LEN = lambda i: app('L.len', (lift(i,'I'),), 'I')
        s.OFF = spec('L.off', 'I', lambda t, i: [eq(s.OFF(I(0)),I(0)), implies(and_(le(I(0),i),lt(i,n)), and_(le(I(0),LEN(i)), eq(s.OFF(add(i,I(1))), add(s.OFF(i),LEN(i)))))])
        s.i, s.k, s.n = var('i','I'), var('k','I'), n; s.LEN = LEN
        bound(eng, st, le(I(0),s.i), le(add(s.i,I(1)),s.k), lt(s.k,n)); s.claim = lambda k: and_(le(add(s.OFF(s.i),LEN(s.i)), s.OFF(k)))
        eng.assume(st, s.claim(s.k))
        eng.require(st, 'base', le(add(s.OFF(s.i),s.LEN(s.i)), s.OFF(add(s.i,I(1))))); eng.require(st, 'step', s.claim(add(s.k,I(1))))
        eng.require(st, 'offsets are not negative', implies(le(I(0),s.OFF(s.k)), le(I(0),s.OFF(add(s.k,I(1))))))
class Copy(Contract):
    """copy construction: equal, with its own entries; the source stays as it was"""
    def __init__(s, shared, variant):
        s.shared = shared; s.what, s.nc = VARIANTS[variant]; s.fn = 'c_copy'; s.name = 'copy<%s> of a matrix %s' % (s.what, 'in one array' if shared else 'allocated row by row'); s.cost = 5
    def source(s, eng, st):
        Q = s.Q = Build(eng, st, 'Q', s.nc, filled=False, a='vals', j='cols' if s.shared else 'null', stage=BUILT); p, q = s.p, s.q = var('p','I'), var('q','I')
        s.init = {o: eng.getarr(st, Q.vals, 'f%d' % (8*o)) for o in range(s.nc)}; s.heaps = {}
        Q.vals.length = Q.cols.length = s.len = var('Q.len','I'); Q.vals.readonly = True
        s.OFF = spec('Q.off', 'I', lambda t, i: [eq(s.OFF(I(0)),I(0)), implies(Q.inrow(i), and_(le(I(0),Q.LEN(i)), eq(s.OFF(add(i,I(1))), add(s.OFF(i),Q.LEN(i)))))])
        Q.rowfact = lambda i: implies(Q.inrow(i), and_(le(I(0),Q.P(i)), le(I(0),Q.LEN(i)), le(add(Q.P(i),Q.LEN(i)), s.len), le(I(0),s.OFF(i)), le(add(s.OFF(i),Q.LEN(i)), s.OFF(Q.n)), *([eq(Q.P(i),s.OFF(i))] if s.shared else [])))
        s.order = lambda i, k: implies(and_(le(I(0),i), lt(i,k), lt(k,Q.n)), le(add(s.OFF(i),Q.LEN(i)), s.OFF(k)))
        Q.rowextra = lambda e, st_, i: [s.order(i,p), s.order(p,i)]
        bound(eng, st, Q.inrow(p), Q.rowfact(p), le(I(0),q), lt(q,Q.LEN(p)), or_(eq(Q.nnz,I(0)), eq(Q.nnz,s.OFF(Q.n))), le(I(0),s.OFF(Q.n)), implies(eq(Q.n,I(0)), eq(Q.nnz,I(0))))
        if s.shared: eng.assume(st, le(s.OFF(Q.n), s.len)); eng.assume(st, lt(I(0),Q.alloc))
    def setup(s, eng, st):
        s.source(eng, st); A = s.A = eng.region('A', kind='cells'); st.cells[A] = {}; s.rows = None
        eng.call_function(st, eng.mod.get(s.fn), [Ptr(A,I(0)), s.Q.ptr()])
    def alloc(s, eng, st, r, n):
        L = lambda f: layout(eng, 'bcrs_'+f); order = ['rows','vals','cols']
        if r.name not in s.heaps.values(): 
            kind = next(k for k in order if k not in s.heaps); s.heaps[kind] = r.name
        kind = next(k for k,x in s.heaps.items() if x == r.name)
        if kind == 'rows':
            r.stride = L('row_size'); s.rows = r
            r.fields = {L('row_n'): Field('n','I',facts=s.facts), L('row_p'): Field('p','I',facts=s.facts), L('row_j'): Field('j','I',target=s.Q.cols.name if s.shared else None,facts=s.facts)}
            for o,x in r.fields.items():
                if x.name+'t' in s.heaps: x.target = s.heaps[x.name+'t']
        else:
            r.stride = 8*s.nc if kind == 'vals' else 8; r.fields = {8*i: Field('f%d' % (8*i),'R') for i in range(s.nc)} if kind == 'vals' else {0: Field('f0','I')}
            if s.rows is not None:
                for f in s.rows.fields.values():
                    if f.name == ('p' if kind == 'vals' else 'j'): f.target = r.name
                    if s.shared and f.name == 'j': f.target = s.Q.cols.name
        q, rem = eng.divmod(n, I(r.stride)); r.length = q
    def facts(s, e, st, i, v): return [s.Q.rowfact(i), s.order(i,s.p), s.order(s.p,i)]
    def reg(s, eng, kind): return s.Q.cols if kind == 'cols' and s.shared else eng.regions.get(s.heaps.get(kind))
    def wanted(s, eng, st):
        """the copied entry and column at position q of row p"""
        Q = s.Q; at = add(s.OFF(s.p),s.q); src = add(Q.P(s.p),s.q); v, c = s.reg(eng,'vals'), s.reg(eng,'cols')
        out = []
        if v is not None: out.append(('vals', eq_all([(eng.rd(st, v, 'f%d' % (8*o), at), sel(s.init[o],src)) for o in range(s.nc)])))
        if c is not None: out.append(('cols', eq(eng.rd(st, c, 'f0', at), sel(Q.J,src))))
        return out
    def invariants(s, eng, v):
        Q = s.Q; k = v.k; mods = v.lc.info.mods; out = []; R = s.rows
        for nm, ph in v.phis.items():
            if isinstance(ph, Ptr) and ph.reg is not None and ph.reg in (s.reg(eng,'vals'), s.reg(eng,'cols')): out.append(('offset '+nm, eq(ph.off, mul(I(ph.reg.stride), s.OFF(k[0])))))
            elif isinstance(ph, Term) and ph.sort == 'I': out.append(('sum '+nm, eq(ph, s.OFF(k[0]))))
        if R is None: return out
        row = lambda vw, f, i: vw.eng.rd(vw.st, R, f, i)
        quant = lambda nm, body: (nm, dict(terms=lambda e, st_: list(dict.fromkeys([i for r,f,i in st_.idx if r is R]+[s.p])), body=lambda vw, i: implies(Q.inrow(i), body(vw, i))))
        if (R.name,'n') in mods: out.append(quant('sizes', lambda vw, i: implies(lt(i,k[0]), eq(row(vw,'n',i), Q.LEN(i)))))
        for f in ('p','j'):
            if (R.name,f) in mods: out.append(quant('window '+f, lambda vw, i, f=f: implies(and_(lt(i,k[0]), lt(I(0),Q.LEN(i))), eq(row(vw,f,i), s.OFF(i)))))
        if len(k) == 1: done = {'vals': lt(s.p,k[0]), 'cols': lt(s.p,k[0])}
        else: done = {x: or_(lt(s.p,k[0]), and_(eq(s.p,k[0]), lt(s.q,k[1]))) for x in ('vals','cols')}
        for nm, g in s.wanted(eng, v.st):
            r = s.reg(eng, nm)
            if (r.name,'f0') in mods or any((r.name,'f%d' % (8*o)) in mods for o in range(s.nc)):
                out.append((nm+' copied', implies(done[nm], g))); out.append((nm+' all copied', implies(le(s.p,k[0]), g)))
                if r is Q.cols: out.append(('shared columns stay', g))
        if s.shared and (Q.cols.name,'f0') in mods: out.append(('columns stay', dict(terms=lambda e, st_: [i for r,f,i in st_.idx if r is Q.cols], body=lambda vw, i: eq(vw.eng.rd(vw.st, Q.cols, 'f0', i), sel(Q.J,i)))))
        return out
    def member(s, eng, st, f): return st.cells[s.A].get(layout(eng,'bcrs_'+f))
    def on_throw(s, eng, st): eng.require(st, 'no exception is thrown', FALSE)
    def post(s, eng, st, ret):
        Q = s.Q; p, q = s.p, s.q; tot = s.OFF(Q.n); M = lambda f: s.member(eng, st, f); is_ = lambda x, r: isinstance(x, Ptr) and r is not None and x.reg is r and x.off is I(0)
        for f, x in (('n',Q.n),('m',Q.m),('ready',I(BUILT)),('nnz',tot)): eng.require(st, 'member %s' % f, eq(M(f), x))
        if not is_(M('r'), s.rows): eng.require(st, 'the rows belong to the copy', FALSE); return
        row = lambda f: eng.rd(st, s.rows, f, p)
        eng.require(st, 'size of the row', eq(row('n'), Q.LEN(p))); eng.require(st, 'window of the entries', eq(row('p'), s.OFF(p))); eng.require(st, 'window of the columns', eq(row('j'), s.OFF(p)))
        eng.require(st, 'the copy has its own array of entries', TRUE if is_(M('a'), s.reg(eng,'vals')) else FALSE)
        eng.require(st, 'the copy keeps the array of columns', TRUE if is_(M('jp'), s.reg(eng,'cols')) else FALSE)
        for nm, g in s.wanted(eng, st): eng.require(st, '%s of the copy' % nm, g)
        for kind in ('vals','cols'):
            r = s.reg(eng, kind)
            if r is not None: eng.require(st, 'the windows lie in the array of %s' % kind, le(add(s.OFF(p),Q.LEN(p)), r.length))
        eng.require(st, 'the columns of the source stay', eq(eng.rd(st, Q.cols, 'f0', add(Q.P(p),q)), Q.col(p,q))); eng.require(st, 'the row sizes of the source stay', eq(eng.rd(st, Q.rows, 'n', p), Q.LEN(p)))
        for f in ('n','m','ready','alloc'): eng.require(st, 'member %s of the source' % f, eq(Q.hd(eng,st,f), {'n':Q.n,'m':Q.m,'ready':Q.ready,'alloc':Q.alloc}[f]))
        eng.require(st, 'the source still counts its entries', eq(Q.hd(eng,st,'nnz'), tot))
class Assign(Copy):
    """assignment: the target forgets its old pattern and becomes an independent copy"""
    def __init__(s, shared, target, same, variant):
        Copy.__init__(s, shared, variant); s.fn = 'c_assign'; s.target = target; s.same = same
        s.name = 'operator=<%s> of a matrix %s to %s%s' % (s.what, 'in one array' if shared else 'allocated row by row', {'array':'one in one array','rows':'one allocated row by row','empty':'an empty one'}[target], '' if target == 'empty' else ' with %s number of rows' % ('the same' if same else 'another'))
    def setup(s, eng, st):
        s.source(eng, st); Q = s.Q; t = s.target; s.rows = None
        A = s.T = Build(eng, st, 'A', s.nc, filled=False, a='vals' if t == 'array' else 'null', j='cols' if t == 'array' else 'null'); s.A = A.head; L = lambda f: layout(eng,'bcrs_'+f)
        A.vals.length = A.cols.length = var('A.len','I')
        A.rowfact = lambda i: implies(A.inrow(i), and_(le(I(0),A.P(i)), le(I(0),A.LEN(i)), le(add(A.P(i),A.LEN(i)), A.vals.length)))
        if t == 'empty': st.cells[A.head][L('r')] = Ptr(None,I(0)); st.cells[A.head][L('n')] = I(0); st.cells[A.head][L('alloc')] = I(0); eng.assume(st, ne(Q.n,I(0)))
        else:
            eng.assume(st, lt(I(0),A.n)); eng.assume(st, (eq if s.same else ne)(A.n, Q.n)); eng.assume(st, lt(I(0),A.alloc) if t == 'array' else eq(A.alloc,I(0)))
        s.legal = or_(eq(A.ready,I(NOTALLOC)), eq(A.ready,I(BUILT)))
        if s.same and t != 'empty':
            s.rows = A.rows; s.heaps['rows'] = A.rows.name
            for f in A.rows.fields.values(): 
                old = f.facts; f.facts = lambda e, st_, i, v, old=old: old(e,st_,i,v)+[s.Q.rowfact(i), s.order(i,s.p), s.order(s.p,i)]
                if f.name == 'j' and s.shared and t != 'rows': f.target = Q.cols.name
        eng.call_function(st, eng.mod.get(s.fn), [A.ptr(), Q.ptr()])
    def on_throw(s, eng, st): eng.require(st, 'an exception is thrown only for an unfinished target', not_(s.legal))
    def post(s, eng, st, ret):
        eng.require(st, 'an unfinished target is rejected', s.legal)
        Copy.post(s, eng, st, ret)
class NextRow(Contract):
    """row-wise creation, ++: the row gets exactly the inserted columns in increasing order behind the rows before it; the last row completes the matrix.
       The std::set of inserted columns is represented by its elements S(0) < ... < S(s-1) (libstdc++ trusted)"""
    def __init__(s, given, variant):
        s.given = given; s.what, s.nc = VARIANTS[variant]; s.fn = 'c_next'; s.name = 'CreateIterator::operator++<%s> %s' % (s.what, 'with given number of nonzeroes' if given else 'allocating each row'); s.cost = 3
    def setup(s, eng, st):
        A = s.A = Build(eng, st, 'A', s.nc, filled=False, mode=ROW_WISE, j='cols' if s.given else 'null'); p, q, i, cnt, done = s.p, s.q, s.i, s.cnt, s.done = [var(x,'I') for x in ('p','q','i','s','done')]; s.heaps = {}
        L = lambda f: layout(eng,'ci_'+f)
        S = s.S = eng.region('set', stride=40, length=cnt, readonly=True, fields={32: Field('f32','I')}); it = s.it = eng.region('it', kind='cells'); h = L('pat')+8; s.end = h
        st.cells[it] = {0: A.ptr(), L('i'): i, L('nnz'): done, h+8: Ptr(S,I(0)), h+16: Ptr(S,I(0)), h+24: Ptr(S,mul(I(40),sub(cnt,I(1)))), h+32: cnt,
                        L('row')+layout(eng,'bcrs_row_n'): I(0), L('row')+layout(eng,'bcrs_row_p'): Ptr(None,I(0)), L('row')+layout(eng,'bcrs_row_j'): Ptr(A.cols,mul(I(8),done)) if s.given else Ptr(None,I(0))}
        s.N = lambda k: ite(lt(k,i), A.LEN(k), cnt)
        s.OFF = spec('A.woff', 'I', lambda t, k: [eq(s.OFF(I(0)),I(0)), implies(A.inrow(k), and_(le(I(0),A.LEN(k)), eq(s.OFF(add(k,I(1))), add(s.OFF(k),s.N(k)))))])
        A.rowfact = lambda k: implies(A.inrow(k), and_(le(I(0),A.LEN(k)), le(I(0),s.OFF(k)), implies(lt(k,i), and_(le(add(s.OFF(k),A.LEN(k)), done), eq(A.P(k),s.OFF(k))))))
        bound(eng, st, A.inrow(i), le(I(0),p), le(p,i), A.rowfact(p), A.rowfact(i), le(I(0),cnt), le(I(0),done), le(I(0),q), eq(s.OFF(i),done), eq(A.alloc,A.nnz), eq(A.alloc,I(0)) if not s.given else lt(I(0),A.nnz))
        if s.given: eng.assume(st, le(done, A.nnz))
        s.legal = and_(eq(A.ready,I(BUILDING)), *([or_(eq(cnt,I(0)), le(add(done,cnt),A.nnz))] if s.given else []))
        eng.call_function(st, eng.mod.get(s.fn), [Ptr(it,I(0))])
    def ptrcmp(s, eng, st, a, b):
        if b.reg is s.S: a, b = b, a
        if a.reg is s.S and b.reg is s.it and b.off is I(s.end): return eq(a.off, mul(I(40), s.cnt))
    def handler(s, eng, name):
        if 'Rb_tree_increment' in name: return lambda e, st, ins, a: ('ret', Ptr(a[0].reg, add(a[0].off, I(40))))
        if 'M_erase' in name: return lambda e, st, ins, a: ('ret', None)
    def alloc(s, eng, st, r, n):
        kind = 'vals' if s.given or s.heaps.get('vals') in (None, r.name) else 'cols'; s.heaps[kind] = r.name
        r.stride = 8*s.nc if kind == 'vals' else 8; r.fields = {8*k: Field('f%d' % (8*k),'R') for k in range(s.nc)} if kind == 'vals' else {0: Field('f0','I')}
        for f in s.A.rows.fields.values():
            if f.name == ('p' if kind == 'vals' else 'j'): f.target = r.name
        r.length = eng.divmod(n, I(r.stride))[0]
    def cols(s, eng): return s.A.cols if s.given else eng.regions.get(s.heaps.get('cols'))
    def at(s): return add(s.done,s.q) if s.given else s.q
    def invariants(s, eng, v):
        A = s.A; k = v.k[0]; mods = v.lc.info.mods; out = []; C = s.cols(eng)
        for nm, ph in v.phis.items():
            if isinstance(ph, Ptr) and ph.reg is s.S: out.append(('element '+nm, eq(ph.off, mul(I(40),k))))
            elif isinstance(ph, Ptr) and ph.reg is C and C is not None: out.append(('target '+nm, eq(ph.off, mul(I(8),add(s.done if s.given else I(0),k)))))
            elif isinstance(ph, Ptr) and ph.reg is not None and ph.reg.name == s.heaps.get('vals'): out.append(('offset '+nm, eq(ph.off, mul(I(ph.reg.stride), s.OFF(k)))))
        out.append(('within the pattern', le(k, s.cnt)))
        if C is not None and (C.name,'f0') in mods: out.append(('column copied', implies(and_(lt(s.q,k), lt(s.q,s.cnt)), eq(eng.rd(v.st, C, 'f0', s.at()), eng.rd(v.st, s.S, 'f32', s.q))))); out.append(('rows before stay q', implies(lt(s.q,s.done), eq(eng.rd(v.st, C, 'f0', s.q), sel(A.J,s.q))))); out.append(('rows before stay', dict(terms=lambda e, st_: [i for r,f,i in st_.idx if r is C], body=lambda vw, i: implies(lt(i,s.done), eq(vw.eng.rd(vw.st, C, 'f0', i), sel(A.J,i))))))
        if (A.rows.name,'p') in mods:
            row = lambda vw, f, i: vw.eng.rd(vw.st, A.rows, f, i)
            quant = lambda nm, body: (nm, dict(terms=lambda e, st_: list(dict.fromkeys([i for r,f,i in st_.idx if r is A.rows]+[s.p])), body=lambda vw, i: implies(and_(le(I(0),i),le(i,s.i),A.rowfact(i)), body(vw, i))))
            out.append(quant('sizes', lambda vw, i: eq(row(vw,'n',i), s.N(i)))); out.append(quant('columns', lambda vw, i: implies(lt(I(0),s.N(i)), eq(row(vw,'j',i), s.OFF(i)))))
            out.append(('entries', implies(and_(lt(s.p,k), lt(I(0),s.N(s.p))), eq(row(v,'p',s.p), s.OFF(s.p)))))
        return out
    def on_throw(s, eng, st): eng.require(st, 'an exception is thrown only for a finished matrix or too small a number of nonzeroes', not_(s.legal))
    def post(s, eng, st, ret):
        A = s.A; p, q = s.p, s.q; L = lambda f: layout(eng,'ci_'+f); C = s.cols(eng); it = st.cells[s.it]; row = lambda f: eng.rd(st, A.rows, f, p); last = eq(add(s.i,I(1)),A.n); H = lambda f: A.hd(eng, st, f)
        eng.require(st, 'calls for a finished matrix and too small a number of nonzeroes are rejected', s.legal)
        eng.require(st, 'the next row follows', eq(it[L('i')], add(s.i,I(1)))); eng.require(st, 'entries counted', eq(it[L('nnz')], add(s.done,s.cnt))); eng.require(st, 'the pattern is empty again', eq(it[s.end+32], I(0)))
        eng.require(st, 'size of the rows', eq(row('n'), s.N(p)))
        eng.require(st, 'the last row completes the matrix', eq(H('ready'), ite(last, I(BUILT), I(BUILDING))))
        for f, x in (('n',A.n),('m',A.m)): eng.require(st, 'member '+f, eq(H(f), x))
        if s.given: eng.require(st, 'windows of the rows', implies(lt(I(0),s.N(p)), eq(row('j'), s.OFF(p))))
        else: eng.require(st, 'window of the row', implies(and_(eq(p,s.i), lt(I(0),s.cnt)), eq(row('j'), I(0)))); eng.require(st, 'entries of the row', implies(and_(eq(p,s.i), lt(I(0),s.cnt)), eq(row('p'), I(0))))
        if C is not None:
            eng.require(st, 'the columns of the row are the inserted ones in increasing order', implies(lt(q,s.cnt), eq(eng.rd(st, C, 'f0', s.at()), eng.rd(st, s.S, 'f32', q))))
            if s.given: eng.require(st, 'rows before keep their columns', implies(lt(q,s.done), eq(eng.rd(st, C, 'f0', q), sel(A.J,q))))
            else: eng.require(st, 'there is room for the row', le(s.cnt, C.length)); eng.require(st, 'there is room for the entries of the row', le(s.cnt, eng.regions[s.heaps['vals']].length))
        else: eng.require(st, 'only an empty row needs no memory', eq(s.cnt, I(0)))
        j = it[L('row')+layout(eng,'bcrs_row_j')]
        if s.given:
            eng.require(st, 'the following row starts behind', eq(j.off, mul(I(8),add(s.done,s.cnt))) if isinstance(j, Ptr) and j.reg is A.cols else FALSE)
            a = H('a'); eng.require(st, 'number of nonzeroes', eq(H('nnz'), ite(last, add(s.done,s.cnt), A.nnz)))
            if isinstance(a, Ptr) and a.reg is not None and a.reg.name == s.heaps.get('vals'): eng.require(st, 'entries of the rows', implies(lt(I(0),s.N(p)), eq(row('p'), s.OFF(p)))); eng.require(st, 'there is room for the entries', le(add(s.done,s.cnt), a.reg.length))
            else: eng.require(st, 'the finished matrix has entries', not_(last))
        else: eng.require(st, 'number of nonzeroes is left to be counted', eq(H('nnz'), I(0)))
class BuildModeMachine(Contract):
    """setBuildMode: free choice before allocation; before the construction has started only the choice between row-wise and random remains"""
    def __init__(s, variant):
        s.what, s.nc = VARIANTS[variant]; s.fn = 'c_setBuildMode'; s.name = 'setBuildMode<%s>' % s.what; s.cost = 1
    def setup(s, eng, st):
        A = s.A = Build(eng, st, 'A', s.nc, filled=False); x = s.x = var('x','I'); bound(eng, st, le(I(0),x), le(x,I(3)))
        s.legal = or_(eq(A.ready,I(0)), and_(eq(A.ready,I(BUILDING)), not_(eq(A.mode,I(IMPLICIT))), or_(eq(x,I(ROW_WISE)), eq(x,I(RANDOM)))))
        eng.call_function(st, eng.mod.get(s.fn), [A.ptr(), x])
    def on_throw(s, eng, st):
        eng.require(st, 'an exception is thrown only when the mode can not be changed', not_(s.legal)); eng.require(st, 'a rejected change changes nothing', eq(s.A.hd(eng,st,'mode'), s.A.mode))
    def post(s, eng, st, ret):
        eng.require(st, 'impossible changes are rejected', s.legal); eng.require(st, 'the mode is set', eq(s.A.hd(eng,st,'mode'), s.x)); eng.require(st, 'the stage stays', eq(s.A.hd(eng,st,'ready'), s.A.ready))
class CreateBegin(Contract):
    """createbegin: only at the beginning of a row-wise construction; the iterator stands in front of the first row, with an empty pattern"""
    def __init__(s, variant, rows=True):
        s.what, s.nc = VARIANTS[variant]; s.fn = 'c_create'; s.name = 'createbegin<%s>' % s.what; s.cost = 1
    def setup(s, eng, st):
        A = s.A = Build(eng, st, 'A', s.nc, filled=False); s.it = eng.region('it', kind='cells'); st.cells[s.it] = {}
        s.mode = and_(or_(eq(A.mode,I(ROW_WISE)), and_(eq(A.mode,I(3)), eq(A.ready,I(BUILDING))))); s.stage = or_(eq(A.ready,I(BUILDING)), and_(eq(A.ready,I(BUILT)), eq(A.n,I(0))))
        eng.call_function(st, eng.mod.get(s.fn), [Ptr(s.it,I(0)), A.ptr()])
    def on_throw(s, eng, st): eng.require(st, 'an exception is thrown only for a misplaced call', not_(and_(s.mode, s.stage)))
    def post(s, eng, st, ret):
        A = s.A; it = st.cells[s.it]; L = lambda f: layout(eng,'ci_'+f); h = L('pat')+8; R = lambda f: it.get(L('row')+layout(eng,'bcrs_row_'+f)); H = lambda f: A.hd(eng, st, f)
        eng.require(st, 'misplaced calls are rejected', and_(s.mode, s.stage)); eng.require(st, 'the mode is row-wise', eq(H('mode'), I(ROW_WISE)))
        eng.require(st, 'a matrix without rows is complete', eq(H('ready'), ite(eq(A.n,I(0)), I(BUILT), A.ready))); eng.require(st, 'the number of nonzeroes', eq(H('nnz'), ite(eq(A.n,I(0)), I(0), A.nnz)))
        for f in ('i','nnz'): eng.require(st, 'counter '+f, eq(it.get(L(f)), I(0)))
        eng.require(st, 'the pattern is empty', eq(it.get(h+32), I(0))); p = it.get(L('mat')-0) if False else it.get(0)
        eng.require(st, 'the iterator belongs to the matrix', TRUE if isinstance(p, Ptr) and p.reg is A.head and p.off is I(0) else FALSE)
        j = R('j'); eng.require(st, 'the first row starts at the beginning', TRUE if isinstance(j, Ptr) and j.reg is A.cols and j.off is I(0) else FALSE)
class SetIndices(Contract):
    """setIndicesNoSort: takes exactly as many columns as the row has been announced with; never writes outside the row"""
    def __init__(s, variant):
        s.what, s.nc = VARIANTS[variant]; s.fn = 'c_setIndicesNoSort'; s.name = 'setIndicesNoSort<%s>' % s.what; s.cost = 2
    def setup(s, eng, st):
        A = s.A = Build(eng, st, 'A', s.nc, filled=False); i, cnt, q, t = s.i, s.cnt, s.q, s.t = [var(x,'I') for x in ('i','count','q','t')]
        s.X = eng.region('x', stride=8, length=cnt, readonly=True, fields={0: Field('f0','I')}); bound(eng, st, A.inrow(i), le(I(0),cnt), A.rowfact(i), le(I(0),t), lt(t,A.nnz), le(I(0),q), lt(q,cnt) if False else le(I(0),q))
        s.legal = eq(cnt, A.LEN(i))
        eng.call_function(st, eng.mod.get(s.fn), [A.ptr(), i, Ptr(s.X,I(0)), Ptr(s.X,mul(I(8),cnt))])
    def invariants(s, eng, v):
        A = s.A; k = v.k[0]; C = A.cols; now = lambda i: eng.rd(v.st, C, 'f0', i); out = [('within the columns', le(k,s.cnt))]
        for nm, ph in v.phis.items():
            if isinstance(ph, Ptr) and ph.reg is s.X: out.append(('element '+nm, eq(ph.off, mul(I(8),k))))
            elif isinstance(ph, Ptr) and ph.reg is C: out.append(('target '+nm, eq(ph.off, mul(I(8),add(A.P(s.i),k)))))
            elif isinstance(ph, Term) and ph.sort == 'I': out.append(('count '+nm, eq(ph,k)))
        if (C.name,'f0') in v.lc.info.mods:
            out.append(('copied', implies(and_(lt(s.q,k), lt(s.q,A.LEN(s.i)), lt(s.q,s.cnt)), eq(now(add(A.P(s.i),s.q)), eng.rd(v.st, s.X, 'f0', s.q)))))
            out.append(('other rows', implies(or_(lt(s.t,A.P(s.i)), le(add(A.P(s.i),A.LEN(s.i)),s.t)), eq(now(s.t), sel(A.J,s.t)))))
        return out
    def others(s, eng, st): A = s.A; eng.require(st, 'other rows stay unchanged', implies(or_(lt(s.t,A.P(s.i)), le(add(A.P(s.i),A.LEN(s.i)),s.t)), eq(eng.rd(st, A.cols, 'f0', s.t), sel(A.J,s.t))))
    def on_throw(s, eng, st): eng.require(st, 'an exception is thrown only for a wrong number of columns', not_(s.legal)); s.others(eng, st)
    def post(s, eng, st, ret):
        eng.require(st, 'a wrong number of columns is rejected', s.legal); s.others(eng, st)
        eng.require(st, 'the columns of the row', implies(lt(s.q,s.cnt), eq(s.A.now(eng,st,s.i,s.q), eng.rd(st, s.X, 'f0', s.q))))
class Entry(Contract):
    """entry(i,j) in implicit mode, as long as the window of the row suffices: the entry of that position, appended if there is none"""
    def __init__(s, present, variant):
        s.present = present; s.what, s.nc = VARIANTS[variant]; s.fn = 'c_entry'; s.name = 'entry<%s> %s' % (s.what, 'of a present position' if present else 'of a new position'); s.cost = 2
    def setup(s, eng, st):
        A = s.A = Build(eng, st, 'A', s.nc, filled=False, stage=BUILDING, mode=IMPLICIT, a='vals'); i, j, g, t, p = s.i, s.j, s.g, s.t, s.p = [var(x,'I') for x in ('i','j','g','t','p')]
        A.rowfact = lambda k: implies(A.inrow(k), and_(eq(A.P(k), app('A.win', (lift(k,'I'),), 'I')), le(I(0),A.P(k)), le(I(0),A.LEN(k)), le(A.LEN(k),A.avg), le(add(A.P(k),A.avg), A.nnz)))
        bound(eng, st, A.inrow(i), A.inrow(p), le(I(0),j), lt(j,A.m), le(I(0),A.avg), A.rowfact(i), A.rowfact(p), le(I(0),t), lt(t,A.nnz))
        if s.present: eng.assume(st, and_(le(I(0),g), lt(g,A.LEN(i)), eq(A.col(i,g), j)))
        else: eng.assume(st, lt(A.LEN(i), A.avg))
        # distinct columns; in the other case the column is absent
        def facts(e, st_, tt, v):
            k = sub(tt, A.P(i)); ok = and_(le(I(0),k), lt(k,A.LEN(i)))
            return [implies(and_(ok, not_(eq(k,g))), not_(eq(sel(A.J,tt), j)))] if s.present else [implies(ok, not_(eq(sel(A.J,tt), j)))]
        A.cols.fields[0].facts = facts
        eng.call_function(st, eng.mod.get(s.fn), [A.ptr(), i, j])
    def invariants(s, eng, v):
        A = s.A; k = v.k[0]; out = [('trips', le(mul(I(4),k), A.LEN(s.i)))]
        for nm, ph in v.phis.items():
            if isinstance(ph, Ptr) and ph.reg is A.cols: out.append(('position '+nm, eq(ph.off, mul(I(8),add(A.P(s.i),mul(I(4),k))))))
            elif isinstance(ph, Term) and ph.sort == 'I': out.append(('left '+nm, eq(ph, sub(eng.divmod(A.LEN(s.i),I(4))[0],k)))); out.append(('left nonneg '+nm, le(I(0),ph)))
        if s.present: out.append(('not passed', le(mul(I(4),k), s.g)))
        return out
    def handler(s, eng, name):
        def ov(e, st, ins, a): e.require(st, 'the overflow area is not used', FALSE); e.assume(st, FALSE); return ('ret', None)
        if 'Rb_tree_insert_and_rebalance' in name: return ov
    def post(s, eng, st, ret):
        A = s.A; i, j, p, t = s.i, s.j, s.p, s.t; pos = s.g if s.present else A.LEN(i); b = 8*s.nc
        eng.require(st, 'the entry of the position is returned', eq(ret.off, mul(I(b),add(A.P(i),pos))) if isinstance(ret, Ptr) and ret.reg is A.vals else FALSE)
        eng.require(st, 'sizes of the rows', eq(eng.rd(st, A.rows, 'n', p), A.LEN(p) if s.present else add(A.LEN(p), ite(eq(p,i),I(1),I(0)))))
        eng.require(st, 'columns of the rows', eq(eng.rd(st, A.cols, 'f0', t), sel(A.J,t) if s.present else ite(eq(t,add(A.P(i),A.LEN(i))), j, sel(A.J,t))))
def eq_all(ps): return and_(*[eq(a,b) for a,b in ps])
def contracts(tier):
    out = []
    for v in (0,1): out.append(('drivers/c04.cc', ['VARIANT=%d' % v], [AddIndex(v)] + [RowSize(o,v) for o in ('setrowsize','incrementrowsize','getrowsize')] + [Windows(o,v) for o in ('setColumnPointers','setDataPointers','setWindowPointers')] + [EndRowSizes(g,v) for g in (True,False)] + [EndIndices(v), Copy(True,v), Copy(False,v)] + [Assign(sh,t,sm,v) for sh in (True,False) for t in ('array','rows','empty') for sm in (True,False) if sm or t != 'empty'] + [NextRow(g,v) for g in (True,False)] + [BuildModeMachine(v), CreateBegin(v), SetIndices(v), Entry(True,v), Entry(False,v)] + ([Monotone()] if v == 0 else [])))
    return out
