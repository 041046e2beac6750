"""C19: matrix market files."""
from vc.common import *
from vc.terms import *
from vc.engine import FnPtr
LEVEL = 'proof'
KINDS = {0: ('double',1,1,False), 1: ('complex',1,1,True), 2: ('FieldMatrix<double,2,3>',2,3,False)}
VKINDS = {0: ('double',1,False), 1: ('complex',1,True), 2: ('FieldVector<double,2>',2,False)}
NATIVE_FLAGS = ['-DOMPI_SKIP_MPICXX=1','-I/usr/lib/x86_64-linux-gnu/openmpi/include','-I/usr/lib/x86_64-linux-gnu/openmpi/include/openmpi','-L/usr/lib/x86_64-linux-gnu/openmpi/lib','-lmpi']
NOTE = ('writing matrices (BCRSMatrix with double, complex and FieldMatrix<2,3> entries) and vectors (double, complex, FieldVector<2>): every pattern, size and value; banner, block sizes, size line, and each entry exactly once with its one-based indices. '
        'Reading vectors of these kinds into an empty and into a filled vector: size, position of every value, and no acceptance of a file whose last number could not be read. '
        'Reading matrices (the std::set of entries), the parallel files and multi-lane vectors are covered by the bounded part only. Trusts clang lowering, the VC generator, real arithmetic.')
BOUNDED = 'write and read back random matrices and vectors (blocks, complex, several lanes, symmetric, skew-symmetric and hermitian layouts), damaged, truncated and mistyped files, parallel files with index sets on four MPI processes'
ASSUMPTIONS = ['the operators << and >> of libstdc++ print and read numbers as single tokens, and reading a printed number gives the number back at the precision set (bounded part: exactly representable numbers)', 'once an extraction has failed the stream stays failed until clear()', 'fewer than 2^31 rows and columns (mm_print_entry and the loop over the lines of a vector count with int)', 'the banner and the comments are parsed by readMatrixMarketBanner, skipComments and lineFeed, which may leave any header', 'memory can be allocated']
def cstring(e, p):
    """the text of a character constant"""
    c = p.reg.lazy if isinstance(p, Ptr) and p.reg.kind == 'const' else None
    if c is None or c.kind != 'agg' or p.off.op != 'const': raise Unsupported('text that is not constant')
    b = bytes(x.v & 255 for x in c.v[p.off.args[0]:]); return b[:b.index(0)].decode() if 0 in b else b.decode()
INT, REAL, CPLX = 1, 2, 3
class Out(Contract):
    """the output stream: the tokens of the current line are collected and judged at its end"""
    handlers = {}
    def begin(s, eng, st):
        g = st.ghost; s.o = eng.region('stream', kind='cells'); st.cells[s.o] = {}
        for k in ('kind','sep','t0','t1','t2','lines','hits','stage'): g[k] = I(0)
        for k in ('v0','v1','V0','V1'): g[k] = R(0)
        s.settext(eng, st, '')
        s.handlers = {'_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_PKc': s.h_lit, '_ZStlsIcSt11char_traitsIcESaIcEERSt13basic_ostreamIT_T0_ES7_RKNSt7__cxx1112basic_stringIS4_S5_T1_EE': s.h_string, '_ZNSolsEPFRSoS_E': s.h_endl, '_ZNSolsEm': s.h_int, '_ZNSolsEi': s.h_int, '_ZNSolsEl': s.h_int, '_ZNSolsEj': s.h_int,
            '_ZNSolsEd': s.h_real, '_ZStlsIdcSt11char_traitsIcEERSt13basic_ostreamIT0_T1_ES6_RKSt7complexIT_E': s.h_complex, 'llvm.memcpy.p0.p0.i64': s.h_memcpy, 'llvm.experimental.noalias.scope.decl': s.h_nop, '_ZSt4endlIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_': s.h_endl1,
            '_ZNSaIcEC2Ev': s.h_nop, '_ZNSaIcEC2ERKS_': s.h_nop, '_ZNSaIcED2Ev': s.h_nop, '_ZNSaIcE10deallocateEPcm': s.h_nop}
        eng.handlers.update(s.handlers)
    def stream(s, e, st, p):
        if not (isinstance(p, Ptr) and p.reg is s.o): e.require(st, 'the output goes to the given stream', FALSE)
        return ('ret', p)
    def h_nop(s, e, st, ins, a): return ('ret', None)
    def gettext(s, st):
        t = st.ghost['text']
        if t.op != 'var' or not t.args[0].startswith('text:'): raise Unsupported('text inside a loop')
        return t.args[0][5:]
    def settext(s, e, st, t): e.setghost(st, 'text', var('text:'+t,'I')) if 'text' in st.ghost else st.ghost.__setitem__('text', var('text:'+t,'I'))
    def text(s, e, st, t):
        g = st.ghost
        if t.strip() == '' and '\n' not in t and s.gettext(st) == '': e.setghost(st, 'sep', I(1)) if t else None
        else:
            if g['kind'] is not I(0): raise Unsupported('text after numbers')
            parts = t.split('\n')
            for i, x in enumerate(parts):
                if x: s.settext(e, st, s.gettext(st)+x)
                if i < len(parts)-1: s.endline(e, st)
    def h_lit(s, e, st, ins, a): s.text(e, st, cstring(e, a[1])); return s.stream(e, st, a[0])
    def h_memcpy(s, e, st, ins, a):
        from vc.handlers import memcpy
        d, x, n = a[:3]
        if isinstance(x, Ptr) and x.reg is not None and x.reg.kind == 'const' and d.reg.kind == 'cells' and n.op == 'const' and x.reg.lazy is not None and x.reg.lazy.kind == 'agg' and x.reg.lazy.ty.elem is not None and x.reg.lazy.ty.elem.size == 1:
            st.cells.setdefault(d.reg,{})[d.off.args[0]] = ('text', cstring(e, x)[:n.args[0]]); return ('ret', d)
        return memcpy(e, st, ins, a)
    def h_string(s, e, st, ins, a):
        c = st.cells[a[1].reg]; o = a[1].off.args[0]; p, n = c[o], c[o+8]
        if p.reg is not a[1].reg or n.op != 'const': raise Unsupported('text of a string')
        c = st.cells[p.reg]; x = c[p.off.args[0]]
        if isinstance(x, tuple): t = x[1]
        else: t = x.args[0].to_bytes(8,'little').rstrip(b'\0').decode()
        if len(t) != n.args[0]: raise Unsupported('text of a string')
        s.text(e, st, t); return s.stream(e, st, a[0])
    def number(s, e, st, kind, vals):
        g = st.ghost
        if s.gettext(st):
            if kind != INT or vals[0].op != 'const': raise Unsupported('number in a text line')
            s.settext(e, st, s.gettext(st)+str(vals[0].args[0])); return
        k = g['kind']; e.require(st, 'numbers are separated', or_(eq(k,I(0)), eq(g['sep'],I(1))))
        if kind == INT:
            for i, at in ((0,0),(1,1),(2,5)): e.setghost(st, 't%d' % i, ite(eq(k,I(at)), vals[0], g['t%d' % i]))
        elif kind == REAL:
            e.setghost(st, 'v0', ite(or_(eq(k,I(0)),eq(k,I(5))), vals[0], g['v0'])); e.setghost(st, 'v1', ite(or_(eq(k,I(0)),eq(k,I(5))), g['v1'], vals[0]))
        else: e.setghost(st, 'v0', vals[0]); e.setghost(st, 'v1', vals[1])
        e.setghost(st, 'kind', add(mul(I(4),k),I(kind))); e.setghost(st, 'sep', I(0))
    def h_int(s, e, st, ins, a): s.number(e, st, INT, (a[1],)); return s.stream(e, st, a[0])
    def h_real(s, e, st, ins, a): s.number(e, st, REAL, (a[1],)); return s.stream(e, st, a[0])
    def h_complex(s, e, st, ins, a):
        f = lambda o: e.load(st, Ptr(a[1].reg, add(a[1].off,I(o))), _D); s.number(e, st, CPLX, (f(0),f(8))); return s.stream(e, st, a[0])
    def h_endl(s, e, st, ins, a):
        if not (isinstance(a[1], FnPtr) and a[1].fn.name.startswith('_ZSt4endl')): raise Unsupported('manipulator')
        s.endline(e, st); return s.stream(e, st, a[0])
    def h_endl1(s, e, st, ins, a): s.endline(e, st); return s.stream(e, st, a[0])
    def endline(s, e, st):
        g = st.ghost; stage = g['stage']
        if stage.op != 'const': raise Unsupported('header inside a loop')
        if s.gettext(st):
            t = s.gettext(st); s.settext(e, st, ''); n = stage.args[0]
            if n >= 10: raise Unsupported('text among the entries')
            if n == 0: e.require(st, 'the banner states the format', TRUE if ' '.join(t.split()) == s.banner else FALSE)
            elif 'ISTL_STRUCT' in t: e.require(st, 'the block sizes are stated', TRUE if ' '.join(t.split()) == '% ISTL_STRUCT blocked ' + s.blocks else FALSE)
            else: e.require(st, 'comments start with %', TRUE if t.startswith('%') else FALSE)
            e.setghost(st, 'stage', I(n+1))
        elif stage.args[0] < 10:
            e.require(st, 'the banner is the first line', TRUE if stage.args[0] > 0 else FALSE); s.sizes(e, st); e.setghost(st, 'stage', I(10))
        else: s.entry(e, st)
        e.setghost(st, 'kind', I(0)); e.setghost(st, 'sep', I(0))
class _Double: kind, size, text, width = 'double', 8, 'double', 64
_D = _Double()

class WriteMat(Out):
    cost = 1
    def __init__(s, variant): s.what, s.br, s.bc, s.cx = KINDS[variant]; s.nm = s.br*s.bc; s.name = 'writeMatrixMarket(BCRSMatrix<%s>)' % s.what; s.banner = '%%MatrixMarket matrix coordinate ' + ('complex' if s.cx else 'real') + ' general'; s.blocks = '%d %d' % (s.br,s.bc)
    def setup(s, eng, st):
        s.begin(eng, st); A = s.A = BCRS(eng, st, 'A', comps=tuple(8*i for i in range(s.nm*(2 if s.cx else 1))), readonly=True); p, t, r, c = s.p, s.t, s.r, s.c = [var(x,'I') for x in 'ptrc']
        bound(eng, st, lt(A.n,I(2**60)), lt(mul(I(s.bc),A.m),I(2**31-1)), lt(mul(I(s.nm),A.nnz),I(2**62)), le(I(0),p), lt(p,A.n), le(I(0),t), lt(t,A.LEN(p)), A.rowfact(p), le(I(0),A.col(p,t)), lt(A.col(p,t),A.m), le(I(0),r), lt(r,I(s.br)), le(I(0),c), lt(c,I(s.bc)))
        s.J = A.col(p,t); bound(eng, st, eq(A.LB(p,s.J),t))
        A.probes = lambda e, st_: [(i,s.J) for i in dict.fromkeys(i for rg,f,i in st_.idx if rg is A.rows)]
        s.CNT = spec('CNT','I',lambda x, i: [implies(le(i,I(0)), eq(x,I(0))), implies(and_(lt(I(0),i),le(i,A.n)), eq(x, add(s.CNT(sub(i,I(1))), A.LEN(sub(i,I(1))))))])
        s.val = [R(0)]*2
        w = 2 if s.cx else 1; V = A.ent(p,t)
        for q in range(w):
            x = V[q]
            for i in range(1,s.nm): x = ite(eq(add(mul(I(s.bc),r),c),I(i)), V[i*w+q], x)
            s.val[q] = x
        eng.call_function(st, eng.mod.get('c_writemat'), [A.ptr(), Ptr(s.o,I(0))])
    def sizes(s, e, st):
        g = st.ghost; A = s.A; e.require(st, 'the size line has three integers', eq(g['kind'],I(21))); e.require(st, 'number of rows', eq(g['t0'], mul(I(s.br),A.n))); e.require(st, 'number of columns', eq(g['t1'], mul(I(s.bc),A.m))); e.require(st, 'number of entries', eq(g['t2'], mul(I(s.nm),s.CNT(A.n))))
    def entry(s, e, st):
        g = st.ghost; e.require(st, 'an entry consists of row, column and value', eq(g['kind'],I(90 if s.cx else 22)))
        hit = and_(eq(g['t0'], add(mul(I(s.br),s.p),add(s.r,I(1)))), eq(g['t1'], add(mul(I(s.bc),s.J),add(s.c,I(1)))))
        e.setghost(st, 'hits', ite(hit, add(g['hits'],I(1)), g['hits'])); e.setghost(st, 'lines', add(g['lines'],I(1)))
        for i in range(2 if s.cx else 1): e.setghost(st, 'V%d' % i, ite(hit, g['v%d' % i], g['V%d' % i]))
    def invariants(s, eng, v):
        out = []; g = v.st.ghost; k = v.k; A = s.A; i = k[0]; kk = k[1] if len(k) > 1 else I(0); done = add(s.CNT(i),kk)
        for nm, ph in v.phis.items():
            if isinstance(ph, Term) and ph.sort == 'I': out += [('%s counts' % nm, eq(ph,done)), ('%s counts entries' % nm, eq(ph,mul(I(s.nm),done)))]
        if g['stage'] is I(10):
            f = or_(lt(s.p,i), and_(eq(s.p,i), lt(s.t,kk)))
            out += [('line', eq(g['kind'],I(0))), ('lines', eq(g['lines'],mul(I(s.nm),done))), ('hits', eq(g['hits'],ite(f,I(1),I(0))))] + [('value%d' % q, implies(f, eq(g['V%d' % q],s.val[q]))) for q in range(2 if s.cx else 1)]
        return out
    def post(s, eng, st, ret):
        g = st.ghost; eng.require(st, 'every entry is written exactly once', eq(g['hits'],I(1))); eng.require(st, 'nothing else is written', and_(eq(g['lines'], mul(I(s.nm),s.CNT(s.A.n))), eq(g['kind'],I(0)), eq(g['stage'],I(10))))
        for q in range(2 if s.cx else 1): eng.require(st, 'the value of the entry is written', eq(g['V%d' % q],s.val[q]))
class WriteVec(Out):
    cost = 1
    def __init__(s, variant): s.what, s.b, s.cx = VKINDS[variant]; s.name = 'writeMatrixMarket(BlockVector<%s>)' % s.what; s.banner = '%%MatrixMarket matrix array ' + ('complex' if s.cx else 'real') + ' general'; s.blocks = '%d 1' % s.b
    def setup(s, eng, st):
        s.begin(eng, st); x = s.x = Vec(eng, st, 'x', comps=tuple(8*i for i in range(s.b*(2 if s.cx else 1))), readonly=True); p, r = s.p, s.r = var('p','I'), var('r','I'); bound(eng, st, lt(x.n,I(2**58)), le(I(0),p), lt(p,x.n), le(I(0),r), lt(r,I(s.b)))
        V = x.at0(p); s.val = list(V[:2]) if s.cx else [V[0]]
        for i in range(1,s.b): s.val[0] = ite(eq(r,I(i)), V[i], s.val[0])
        eng.call_function(st, eng.mod.get('c_writevec'), [x.ptr(), Ptr(s.o,I(0))])
    def sizes(s, e, st):
        g = st.ghost; e.require(st, 'the size line has two integers', eq(g['kind'],I(5))); e.require(st, 'number of rows', eq(g['t0'], mul(I(s.b),s.x.n))); e.require(st, 'one column', eq(g['t1'], I(1)))
    def entry(s, e, st):
        g = st.ghost; e.require(st, 'a line consists of one value', eq(g['kind'],I(CPLX if s.cx else REAL))); hit = eq(g['lines'], add(mul(I(s.b),s.p),s.r)); e.setghost(st, 'lines', add(g['lines'],I(1)))
        for i in range(2 if s.cx else 1): e.setghost(st, 'V%d' % i, ite(hit, g['v%d' % i], g['V%d' % i]))
    def invariants(s, eng, v):
        out = []; g = v.st.ghost; i = v.k[0]
        if g['stage'] is I(10): out += [('line', eq(g['kind'],I(0))), ('lines', eq(g['lines'],mul(I(s.b),i)))] + [('value%d' % q, implies(lt(s.p,i), eq(g['V%d' % q],s.val[q]))) for q in range(2 if s.cx else 1)]
        return out
    def post(s, eng, st, ret):
        g = st.ghost; eng.require(st, 'the number of lines is the size', and_(eq(g['lines'], mul(I(s.b),s.x.n)), eq(g['kind'],I(0)), eq(g['stage'],I(10))))
        for q in range(2 if s.cx else 1): eng.require(st, 'each component is written in its line', eq(g['V%d' % q],s.val[q]))
class _Int:
    def __init__(s, size): s.kind, s.size, s.width, s.text = 'int', size, 8*size, 'i%d' % (8*size)
_I32, _I64 = _Int(4), _Int(8)
class ReadVec(Contract):
    """the input stream: the numbers extracted are the tokens of the file, in order; the stream can fail at any of them"""
    cost = 1
    def __init__(s, variant, old): s.what, s.b, s.cx = VKINDS[variant]; s.old = old; s.w = 2 if s.cx else 1; s.name = 'readMatrixMarket(BlockVector<%s>), %s vector' % (s.what, 'filled' if old else 'empty')
    def setup(s, eng, st):
        L = lambda x: layout(eng, x); g = st.ghost; s.heap = None
        i = s.i = eng.region('stream', kind='cells'); vt = eng.region('vtable', kind='cells'); st.cells[i] = {0: Ptr(vt,I(24))}; st.cells[vt] = {0: I(16)}
        s.v = eng.region('v', kind='cells'); s.o = L('vec_st'); p = s.p = var('p','I')
        if s.old:
            n0 = s.n0 = var('n0','I'); cap = var('cap','I'); bound(eng, st, lt(I(0),cap), le(I(0),n0), le(n0,cap), lt(cap,I(2**50)))
            D = s.D = eng.region('old', stride=8*s.w, length=mul(I(s.b),cap), fields={8*c: Field('f%d' % (8*c),'R') for c in range(s.w)}); ends = [Ptr(D,I(0)), Ptr(D,mul(I(8*s.w*s.b),n0)), Ptr(D,mul(I(8*s.w*s.b),cap))]
        else: n0 = I(0); ends = [Ptr(None,I(0))]*3
        st.cells[s.v] = {s.o+8*k: e for k, e in enumerate(ends)}
        base = [L('vec_p'), L('vec_n')]; st.cells[s.v][L('vec_p')] = ends[0]; st.cells[s.v][L('vec_n')] = n0
        bound(eng, st, le(I(0),p))
        g['ints'] = I(0); g['count'] = I(0); g['ok'] = I(0); g['rows'] = I(0); g['cols'] = I(0); g['type'] = I(0); g['line'] = I(0)
        H = {'_ZNSirsERm': s.h_size, '_ZNSirsERd': s.h_real, '_ZStrsIdcSt11char_traitsIcEERSt13basic_istreamIT0_T1_ES6_RSt7complexIT_E': s.h_complex, '_ZNKSt9basic_iosIcSt11char_traitsIcEEntEv': s.h_not,
             '_ZN4Dune16MatrixMarketImpl22readMatrixMarketBannerERSiRNS0_8MMHeaderE': s.h_banner, '_ZN4Dune16MatrixMarketImpl12skipCommentsERSi': s.h_nop, '_ZN4Dune16MatrixMarketImpl8lineFeedERSi': s.h_feed,
             '_ZNSt9basic_iosIcSt11char_traitsIcEE5clearESt12_Ios_Iostate': s.h_clear, '_ZNSi5seekgElSt12_Ios_Seekdir': s.h_same, '_ZNSi6ignoreEli': s.h_ignore, '_ZNSi6ignoreElj': s.h_ignore,
             '_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_PKc': s.h_same, '_ZNSolsEPFRSoS_E': s.h_same, 'llvm.experimental.noalias.scope.decl': s.h_nop}
        s.handlers = H; eng.handlers.update(H)
        eng.call_function(st, eng.mod.get('c_readvec'), [Ptr(s.v,I(0)), Ptr(i,I(0))])
    def alloc(s, eng, st, r, n):
        q, rem = eng.divmod(n, I(8*s.w)); r.stride = 8*s.w; r.length = q; r.fields = {8*c: Field('f%d' % (8*c),'R') for c in range(s.w)}
    def on_throw(s, eng, st): pass
    def h_nop(s, e, st, ins, a): return ('ret', None)
    def h_same(s, e, st, ins, a): return ('ret', a[0])
    def fresh(s, e, st, nm): return fresh(nm,'I')
    def good(s, e, st, p, off=0): e.require(st, 'the input comes from the given stream', TRUE if isinstance(p, Ptr) and p.reg is s.i and p.off is I(off) else FALSE)
    def h_clear(s, e, st, ins, a): s.good(e, st, a[0], 16); e.setghost(st, 'ok', I(0)); return ('ret', None)
    def h_ignore(s, e, st, ins, a): s.good(e, st, a[0]); e.require(st, 'lines are skipped between the sizes and the values only', and_(eq(st.ghost['ints'],I(2)), eq(st.ghost['count'],I(0)))); return ('ret', a[0])
    def h_banner(s, e, st, ins, a):
        s.good(e, st, a[0]); t = s.fresh(e, st, 'type'); e.assume(st, le(I(0),t)); e.assume(st, le(t,I(1)))
        for o, hi in ((4,3),(8,3)):
            x = s.fresh(e, st, 'hdr%d' % o); e.assume(st, le(I(0),x)); e.assume(st, le(x,I(hi))); e.storev(st, Ptr(a[1].reg, add(a[1].off,I(o))), x, _I32)
        e.storev(st, a[1], t, _I32); b = s.fresh(e, st, 'banner'); e.assume(st, le(I(0),b)); e.assume(st, le(b,I(1))); return ('ret', eq(b,I(1)))
    def h_feed(s, e, st, ins, a):
        s.good(e, st, a[0]); b = s.fresh(e, st, 'feed'); e.assume(st, le(I(0),b)); e.assume(st, le(b,I(1))); return ('ret', eq(b,I(1)))
    def h_not(s, e, st, ins, a):
        s.good(e, st, a[0], 16); b = s.fresh(e, st, 'fail'); e.assume(st, le(I(0),b)); e.assume(st, le(b,I(1))); e.setghost(st, 'ok', ite(eq(b,I(0)), I(1), I(0))); return ('ret', eq(b,I(1)))
    def h_size(s, e, st, ins, a):
        s.good(e, st, a[0]); g = st.ghost; n = g['ints']
        if n.op != 'const' or n.args[0] > 1: raise Unsupported('more than two sizes')
        x = var(('rows','cols')[n.args[0]],'I'); e.assume(st, le(I(0),x)); e.assume(st, lt(x,I(2**31))); e.storev(st, a[1], x, _I64); e.setghost(st, 'ints', add(n,I(1))); e.setghost(st, 'ok', I(0)); return ('ret', a[0])
    def token(s, e, st): t = st.ghost['count']; e.setghost(st, 'count', add(t,I(1))); e.setghost(st, 'ok', I(0)); return t
    def h_real(s, e, st, ins, a): s.good(e, st, a[0]); t = s.token(e, st); e.storev(st, a[1], app('tok0',(t,),'R'), _D); return ('ret', a[0])
    def h_complex(s, e, st, ins, a):
        s.good(e, st, a[0]); t = s.token(e, st)
        for c in range(2): e.storev(st, Ptr(a[1].reg, add(a[1].off,I(8*c))), app('tok%d' % c,(t,),'R'), _D)
        return ('ret', a[0])
    def now(s, e, st, c):
        d = st.cells[s.v][s.o]; return None if d.reg is None else e.rd(st, d.reg, 'f%d' % (8*c), s.p)
    def invariants(s, eng, v):
        g = v.st.ghost; k = v.k[0]; out = [('tokens', eq(g['count'],k)), ('unchecked', eq(g['ok'],I(0)))]; R_ = var('rows','I')
        for nm, ph in v.phis.items():
            if isinstance(ph, Term) and ph.sort == 'I': out += [('%s counts' % nm, eq(ph,k)), ('%s counts down' % nm, eq(ph,sub(R_,k)))]
        out.append(('left', or_(le(k,R_), le(R_,I(0)))))
        for c in range(s.w):
            x = s.now(eng, v.st, c)
            if x is not None: out.append(('component %d' % c, implies(lt(s.p,k), eq(x, app('tok%d' % c,(s.p,),'R')))))
        return out
    def post(s, eng, st, ret):
        g = st.ghost; R_ = var('rows','I'); c = st.cells[s.v]; L = lambda x: layout(eng, x); n = c[L('vec_n')]
        eng.require(st, 'the number of columns is one', eq(var('cols','I'),I(1))); eng.require(st, 'the size of the vector is the number of rows', eq(mul(I(s.b),n),R_)); eng.require(st, 'all values are read', eq(g['count'],R_))
        eng.require(st, 'the vector holds its values', TRUE if c[L('vec_p')] == c[s.o] or c[L('vec_p')].reg is c[s.o].reg and c[L('vec_p')].off is c[s.o].off else FALSE)
        eng.require(st, 'the stream has been checked after the last value', or_(le(R_,I(0)), eq(g['ok'],I(1))))
        for c in range(s.w):
            x = s.now(eng, st, c)
            eng.require(st, 'each number is stored at its position of the file (part %d)' % c, implies(lt(s.p,R_), eq(x, app('tok%d' % c,(s.p,),'R')) if x is not None else FALSE))
def contracts(tier):
    return [('drivers/c19.cc', ['VARIANT=%d' % v], [WriteMat(v), WriteVec(v), ReadVec(v, False), ReadVec(v, True)]) for v in KINDS]
