"""Specification library: representation contracts of the dune-istl containers and reusable loop invariants."""
from .terms import *
from . import terms as T
from .engine import Contract, Field, Region, Ptr, Unsupported
from . import solve

def layout(eng, name):
    g = eng.mod.globals.get('LAY_'+name)
    if g is None: raise Unsupported('layout constant %s missing' % name)
    c = eng.mod.glob_init(g)
    return 0 if c.kind == 'zero' else c.v

def bound(eng, st, *facts):
    for f in facts: eng.assume(st, f)

class Vec:
    """BlockVector-like: object {n, p} and the data array. comps: byte offsets of the double components of one block."""
    def __init__(s, eng, st, name, comps=(0,), stride=None, n=None, readonly=False, lay='vec'):
        s.eng, s.name, s.comps = eng, name, comps
        stride = stride or 8*len(comps)
        on, op, osz = layout(eng, lay+'_n'), layout(eng, lay+'_p'), layout(eng, lay+'_size')
        s.n = n if n is not None else var(name+'.n','I')
        d = eng.region(name+'.data', stride=stride, length=s.n, readonly=readonly,
                       fields={o: Field('f%d' % o, 'R') for o in comps})
        h = eng.region(name, stride=osz, readonly=True, length=I(1))
        h.fields = {on: Field('n','I'), op: Field('p','I', target=d.name)}
        st.mem[(h,'n')] = mk('mset', (arr(name+'.n_','I'), I(0), I(1), s.n), 'AI')
        st.mem[(h,'p')] = mk('mset', (arr(name+'.p_','I'), I(0), I(1), I(0)), 'AI')
        if eng.mod.globals.get('LAY_'+lay+'_st') is not None:      # BlockVector::storage_ (begin, end, end of capacity)
            o = layout(eng, lay+'_st')
            for i,f in enumerate(('sb','se','sc')):
                h.fields[o+8*i] = Field(f,'I',target=d.name)
                st.mem[(h,f)] = mk('mset', (arr(name+'.'+f+'_','I'), I(0), I(1), (I(0), s.n, add(s.n, app(name+'.spare',(),'I')))[i]), 'AI')
        s.data, s.head = d, h
        s.init = {o: eng.getarr(st, d, 'f%d' % o) for o in comps}
        eng.assume(st, le(I(0), s.n))
    def ptr(s): return Ptr(s.head, I(0))
    def at0(s, i): return tuple(sel(s.init[o], lift(i,'I')) for o in s.comps)
    def at(s, v, i):
        return tuple(v.eng.rd(v.st, s.data, 'f%d' % o, lift(i,'I')) for o in s.comps)
    def at_st(s, st, i): return tuple(s.eng.rd(st, s.data, 'f%d' % o, lift(i,'I')) for o in s.comps)

class BCRS:
    """BCRSMatrix: header with n,m,nnz and row windows {n,p,j}; row i occupies [P(i),P(i)+len(i)) of vals/cols,
       column indices strictly increasing and < m (the representation invariant, assumed here, established by C03)."""
    def __init__(s, eng, st, name, comps=(0,), stride=None, readonly=True, square=False, sorted_=True, lay='bcrs', diag=False):
        s.eng, s.name, s.comps = eng, name, comps
        stride = stride or 8*len(comps)
        L = lambda f: layout(eng, lay+'_'+f)
        s.n = var(name+'.n','I'); s.m = s.n if square else var(name+'.m','I'); s.nnz = var(name+'.nnz','I')
        s.vals = eng.region(name+'.vals', stride=stride, length=s.nnz, readonly=readonly, fields={o: Field('f%d' % o,'R') for o in comps})
        s.cols = eng.region(name+'.cols', stride=8, length=s.nnz, readonly=True)
        s.rows = eng.region(name+'.rows', stride=L('row_size'), length=s.n, readonly=True)
        s.head = eng.region(name, stride=L('size'), readonly=True, length=I(1))
        P = lambda i: app(name+'.P', (i,), 'I'); LEN = lambda i: app(name+'.len', (i,), 'I')
        s.P, s.LEN = P, LEN
        inrow = lambda i: and_(le(I(0),i), lt(i,s.n))
        def rowfacts(e, st, i, v):
            out = [implies(inrow(i), and_(le(I(0),P(i)), le(I(0),LEN(i)), le(add(P(i),LEN(i)), s.nnz)))]
            if diag: out.append(implies(inrow(i), and_(le(I(0),s.DG(i)), lt(s.DG(i),LEN(i)), eq(s.col(i,s.DG(i)), i))))
            if s.probes:
                for r,c in s.probes(e, st):
                    if r == i: out += s.lbfacts(r, c)
            return out
        J = arr(name+'.cols.f0','I'); s.Jarr = J
        s.Aarr = {o: arr('%s.vals.f%d' % (name,o),'R') for o in comps}
        def colfacts(e, st, t, v):
            inb = and_(le(I(0),t), lt(t,s.nnz))
            out = [implies(inb, and_(le(I(0),sel(J,t)), lt(sel(J,t), s.m)))]
            if diag or sorted_ == 'facts':
                own = [a[0].args[1] for a in T.poly(t) if len(a) == 1 and a[0].op == 'app' and a[0].args[0] == name+'.P']
                for i in own or list(dict.fromkeys(i for r,f,i in st.idx if r is s.rows)): out += s.posfacts(i, sub(t, P(i)), diag)
            if s.probes:
                own = [a[0].args[1] for a in T.poly(t) if len(a) == 1 and a[0].op == 'app' and a[0].args[0] == name+'.P']
                for i,c in s.probes(e, st):
                    if not own or i in own: out += s.lbfacts(i, c, sub(t, P(i)))
            return out
        s.probes = None
        s.LB = lambda i, c: app(name+'.lb', (lift(i,'I'),lift(c,'I')), 'I')
        s.DG = lambda i: app(name+'.dg', (lift(i,'I'),), 'I')
        s.cols.fields = {0: Field('f0','I', facts=colfacts)}
        s.rows.fields = {L('row_n'): Field('n','I',facts=rowfacts), L('row_p'): Field('p','I',target=s.vals.name,facts=rowfacts),
                         L('row_j'): Field('j','I',target=s.cols.name,facts=rowfacts)}
        st.mem[(s.rows,'n')] = mk('fun', (name+'.len',), 'AI')
        st.mem[(s.rows,'p')] = mk('fun', (name+'.P',), 'AI')
        st.mem[(s.rows,'j')] = mk('fun', (name+'.P',), 'AI')
        one = lambda f, val: st.mem.__setitem__((s.head,f), mk('mset', (arr(name+'.'+f+'_','I'), I(0), I(1), val), 'AI'))
        s.head.fields = {L('n'): Field('n','I'), L('m'): Field('m','I'), L('nnz'): Field('nnz','I'), L('r'): Field('r','I',target=s.rows.name),
                         L('ready'): Field('ready','I',size=4), L('a'): Field('a','I',target=s.vals.name), L('alloc'): Field('alloc','I')}
        one('n', s.n); one('m', s.m); one('nnz', s.nnz); one('r', I(0)); one('ready', I(3)); one('a', I(0))
        bound(eng, st, le(I(0),s.n), le(I(0),s.m), le(I(0),s.nnz))
    def ptr(s): return Ptr(s.head, I(0))
    def col(s, i, k): return sel(s.Jarr, add(s.P(i), lift(k,'I')))
    def ent(s, i, k): return tuple(sel(s.Aarr[o], add(s.P(i), lift(k,'I'))) for o in s.comps)
    def posfacts(s, i, k, diag=True):
        """position k of row i relative to the diagonal position: sorted columns, diagonal stored"""
        ok = and_(le(I(0),i), lt(i,s.n), le(I(0),k), lt(k,s.LEN(i))); c = s.col(i,k); g = s.DG(i)
        if not diag: return []
        return [implies(and_(ok, lt(k,g)), lt(c,i)), implies(and_(ok, eq(k,g)), eq(c,i)), implies(and_(ok, lt(g,k)), lt(i,c))]
    def lbfacts(s, i, c, *ks):
        """LB(i,c): number of positions of row i whose column is below c (columns increase strictly)"""
        g = s.LB(i,c); out = [implies(and_(le(I(0),i),lt(i,s.n)), and_(le(I(0),g), le(g,s.LEN(i))))]
        for k in ks:
            ok = and_(le(I(0),i), lt(i,s.n), le(I(0),k), lt(k,s.LEN(i)))
            out += [implies(and_(ok, lt(k,g)), lt(s.col(i,k),c)), implies(and_(ok, le(g,k)), le(c,s.col(i,k))), implies(and_(ok, lt(g,k)), lt(c,s.col(i,k)))]
        return out
    def MEM(s, i, c): g = s.LB(i,c); return and_(lt(g,s.LEN(i)), eq(s.col(i,g),c))
    def ent_st(s, st, i, k): return tuple(s.eng.rd(st, s.vals, 'f%d' % o, add(s.P(i),lift(k,'I'))) for o in s.comps)
    def rowfact(s, i):
        return implies(and_(le(I(0),i), lt(i,s.n)), and_(le(I(0),s.P(i)), le(I(0),s.LEN(i)), le(add(s.P(i),s.LEN(i)), s.nnz)))
    def sortedfact(s, i, k1, k2):
        """strictly increasing columns within row i"""
        ok = and_(le(I(0),i), lt(i,s.n), le(I(0),k1), lt(k1,k2), lt(k2,s.LEN(i)))
        return implies(ok, lt(s.col(i,k1), s.col(i,k2)))

def cmul(a, b, cx):
    if not cx: return (mul(a[0],b[0]),)
    return (sub(mul(a[0],b[0]),mul(a[1],b[1])), add(mul(a[0],b[1]),mul(a[1],b[0])))
def cdiv(a, b, cx):
    if not cx: return (mul(a[0],inv(b[0])),)
    d = inv(add(mul(b[0],b[0]),mul(b[1],b[1])))
    return (mul(add(mul(a[0],b[0]),mul(a[1],b[1])),d), mul(sub(mul(a[1],b[0]),mul(a[0],b[1])),d))
class Blk:
    """algebra of square blocks (size 1 or 2) over the real or complex numbers, flattened to component tuples"""
    def __init__(s, r, cx): s.r, s.cx, s.w = r, cx, 2 if cx else 1; s.nv = r*s.w; s.nm = r*r*s.w
    def e(s, A, i, j): o = (i*s.r+j)*s.w; return A[o:o+s.w]
    def v(s, x, i): return x[i*s.w:(i+1)*s.w]
    def mv(s, A, x):
        out = []
        for i in range(s.r):
            t = [R(0)]*s.w
            for j in range(s.r): t = [add(a,b) for a,b in zip(t, cmul(s.e(A,i,j), s.v(x,j), s.cx))]
            out += t
        return tuple(out)
    def mtv(s, A, x):
        out = []
        for i in range(s.r):
            t = [R(0)]*s.w
            for j in range(s.r): t = [add(a,b) for a,b in zip(t, cmul(s.e(A,j,i), s.v(x,j), s.cx))]
            out += t
        return tuple(out)
    def mm(s, A, B):
        out = []
        for i in range(s.r):
            for j in range(s.r):
                t = [R(0)]*s.w
                for k in range(s.r): t = [add(a,b) for a,b in zip(t, cmul(s.e(A,i,k), s.e(B,k,j), s.cx))]
                out += t
        return tuple(out)
    def add(s, x, y): return tuple(add(a,b) for a,b in zip(x,y))
    def sub(s, x, y): return tuple(sub(a,b) for a,b in zip(x,y))
    def scale(s, w, x):
        out = []
        for i in range(len(x)//s.w): out += cmul(w, x[i*s.w:(i+1)*s.w], s.cx)
        return tuple(out)
    def zero(s): return (R(0),)*s.nv
    def solve(s, A, b):
        if s.r == 1: return tuple(cdiv(b, A, s.cx))
        assert s.r == 2 and not s.cx
        det = inv(sub(mul(A[0],A[3]), mul(A[1],A[2])))
        return (mul(det, sub(mul(A[3],b[0]), mul(A[1],b[1]))), mul(det, sub(mul(A[0],b[1]), mul(A[2],b[0]))))
    def inv(s, A):
        if s.r == 1: return tuple(cdiv((R(1),)+(R(0),)*(s.w-1), A, s.cx))
        assert s.r == 2 and not s.cx
        det = inv(sub(mul(A[0],A[3]), mul(A[1],A[2])))
        return (mul(det,A[3]), neg(mul(det,A[1])), neg(mul(det,A[2])), mul(det,A[0]))
    def nonsing(s, A):
        if s.r == 1: return or_(*[ne(a,R(0)) for a in A])
        return ne(sub(mul(A[0],A[3]), mul(A[1],A[2])), R(0))

def vapp(name, args, nc): return tuple(app('%s.%d' % (name,c), tuple(lift(a,'I') for a in args), 'R') for c in range(nc))
def vspec(name, nc, defn):
    """vector-valued spec function; defn(*args) -> list of (guard, component tuple)"""
    for c in range(nc):
        def unf(t, *args, c=c): return [implies(g, eq(t, val[c])) for g,val in defn(*args)]
        solve.SPECS['%s.%d' % (name,c)] = unf
    return lambda *a: vapp(name, a, nc)
def vecphis(v, nc):
    """accumulator candidates: every tuple of nc distinct real scalars modified in the innermost loop (phis and stack cells), in order of appearance"""
    xs = [(nm,ph) for nm,ph in v.phis.items() if isinstance(ph, Term) and ph.sort == 'R']
    for (rn,o) in sorted(v.lc.info.cellmods):
        r = v.eng.regions.get(rn)
        if r is None: continue
        x = v.st.cells.get(r, {}).get(o)
        if isinstance(x, Term) and x.sort == 'R': xs.append(('%s@%d' % (rn[-20:],o), x))
    return xs

def searchcands(v, A, i, pos, tag=''):
    """invariants of a binary search in the column indices of row i whose answer is position pos(i)"""
    out = []; P = A.P(i)
    ptrs = [(nm, ph) for nm,ph in v.phis.items() if isinstance(ph, Ptr) and ph.reg is A.cols]
    ints = [(nm, ph) for nm,ph in v.phis.items() if isinstance(ph, Term) and ph.sort == 'I' and v.lc.info.phis.get(nm,('',))[0] != 'affine']
    for nm,ph in ptrs:
        f = T.mkpoly({m:(c//8 if m == () else c//8) for m,c in T.poly(ph.off).items()}, 'I')
        out.append((tag+'lo '+nm, le(P, f))); out.append((tag+'first<=pos '+nm, le(f, add(P,pos)))); out.append((tag+'pos<last '+nm, lt(add(P,pos), f))); out.append((tag+'pos<=last '+nm, le(add(P,pos), f)))
        out.append((tag+'hi '+nm, le(f, add(P, A.LEN(i)))))
        for n2,l in ints:
            out.append((tag+'pos<=first+len %s %s' % (nm,n2), le(add(P,pos), add(f,l)))); out.append((tag+'first+len<=end %s %s' % (nm,n2), le(add(f,l), add(P,A.LEN(i)))))
    return out
def spec(name, sort, unfold):
    """Declare a recursively defined spec function; unfold(t,*args) gives the ground instances of its equations."""
    solve.SPECS[name] = unfold
    return lambda *a: app(name, tuple(lift(x,'I') for x in a), sort)

def addvec(eng, st, head, off, pre, data, length):
    """std::vector members (begin, end, end of capacity) at byte offset off of head"""
    for i,(f,val) in enumerate((('b',I(0)),('e',length),('c',add(length, app(head.name+'.'+pre+'.spare',(),'I'))))):
        head.fields[off+8*i] = Field(pre+f,'I',target=data.name)
        st.mem[(head,pre+f)] = mk('mset', (arr(head.name+'.'+pre+f+'_','I'), I(0), I(1), val), 'AI')
class StdVec:
    """const or mutable std::vector of blocks"""
    def __init__(s, eng, st, name, comps=(0,), length=None, readonly=False, sort='R', facts=None):
        s.eng, s.name, s.comps = eng, name, comps
        s.n = length if length is not None else var(name+'.n','I')
        s.data = eng.region(name+'.data', stride=8*len(comps), length=s.n, readonly=readonly, fields={o: Field('f%d' % o, sort, facts=facts) for o in comps})
        s.head = eng.region(name, stride=24, readonly=True, length=I(1)); s.head.fields = {}
        addvec(eng, st, s.head, 0, 'v', s.data, s.n); eng.assume(st, le(I(0),s.n))
        s.init = {o: eng.getarr(st, s.data, 'f%d' % o) for o in comps}
    def ptr(s): return Ptr(s.head, I(0))
    def at0(s, i): return tuple(sel(s.init[o], lift(i,'I')) for o in s.comps)
    def at_st(s, st, i): return tuple(s.eng.rd(st, s.data, 'f%d' % o, lift(i,'I')) for o in s.comps)
