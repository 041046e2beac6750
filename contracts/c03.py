"""C03: element lookup answers exactly according to the stored pattern."""
from vc.common import *
from vc.terms import *
LEVEL = 'proof'
NOTE = ('exists, find (const and mutable), operator[] on rows, iteration over rows and entries and row sizes, for all sizes, patterns and indices, with scalar and 2x2 block entries. '
        'Trusts clang lowering, the libstdc++ lower_bound inlined by it (verified with the caller) and the representation invariant of a finished matrix (columns of a row strictly increasing, row windows inside the arrays; C04).')
BOUNDED = 'the same lookups in matrices built in every build mode, including empty rows and columns outside the row, against a reference pattern'
ASSUMPTIONS = ['representation invariant of a finished matrix: column indices of a row strictly increasing and below M()', 'definition of LB(i,c): the number of entries of row i with column below c']
VARIANTS = {0:('double',1), 1:('FieldMatrix<double,2,2>',4)}
class Look(Contract):
    def __init__(s, fn, variant):
        s.what, s.nc = VARIANTS[variant]; s.fn = 'c_'+fn; s.op = fn; s.name = '%s<%s>' % (fn, s.what); s.cost = 1
    def setup(s, eng, st):
        A = s.A = BCRS(eng, st, 'A', comps=tuple(8*i for i in range(s.nc)))
        i, j, k = s.i, s.j, s.k = var('i','I'), var('j','I'), var('k','I')
        bound(eng, st, le(I(0),i), lt(i,A.n), le(I(0),j), lt(j,A.m), A.rowfact(i))
        A.probes = lambda e, st_: [(i,j)]
        if 'iter' in s.op: A.probes = None
        for f in A.lbfacts(i, j, k): eng.assume(st, f)
        bound(eng, st, le(I(0),k))
        args = [A.ptr(), i]; s.out = None
        if 'iter' in s.op or s.op == 'dims':
            o = s.o = eng.region('out', stride=8, length=I(1), fields={0: Field('f0','I')})
            if s.op in ('iter','riter'): args.append(k); eng.assume(st, lt(k, A.LEN(i)))
            args.append(Ptr(o, I(0)))
        elif 'rowsize' not in s.op: args.append(j)
        if s.op.startswith('find_entry') or s.op == 'find_index': eng.assume(st, A.MEM(i,j))
        eng.call_function(st, eng.mod.get(s.fn), args)
    def invariants(s, eng, v):
        return searchcands(v, s.A, s.i, s.A.LB(s.i,s.j))
    def on_throw(s, eng, st):
        A = s.A
        if s.op in ('at','at_mut'): eng.require(st, 'an exception is thrown only for positions outside the pattern', implies(lt(s.k, A.LEN(s.i)), ne(A.col(s.i,s.k), s.j)))
        else: eng.require(st, 'no exception is thrown', FALSE)
    def post(s, eng, st, ret):
        A, i, j, k = s.A, s.i, s.j, s.k; P = A.P(i); o = s.op
        inrow = and_(le(I(0),k), lt(k,A.LEN(i)))
        W = 8*s.nc
        ent = lambda: T.mkpoly({m:c for m,c in T.poly(ret.off).items()}, 'I')
        g = A.LB(i,j)
        if o == 'exists':
            eng.require(st, 'a stored position exists', implies(and_(inrow, eq(A.col(i,k),j)), ne(ret,I(0))))
            eng.require(st, 'an existing position is stored', implies(ne(ret,I(0)), A.MEM(i,j)))
        elif o in ('find','find_mut'):
            eng.require(st, 'find reaches the stored entry', implies(and_(inrow, eq(A.col(i,k),j)), eq(ret,k)))
            eng.require(st, 'find returns end or an entry of the requested column', or_(eq(ret,A.LEN(i)), and_(le(I(0),ret), lt(ret,A.LEN(i)), eq(A.col(i,ret),j))))
        elif o in ('find_end','find_end_mut'):
            eng.require(st, 'a stored position is found', implies(and_(inrow, eq(A.col(i,k),j)), eq(ret,I(0))))
            eng.require(st, 'end is returned for positions outside the pattern', or_(ne(ret,I(0)), A.MEM(i,j)))
        elif o == 'find_index': eng.require(st, 'index of the found entry', eq(ret, j))
        elif o.startswith('find_entry') or o.startswith('at'):
            eng.require(st, 'the entry of the requested position is returned', and_(eq(ret.off, mul(I(W), add(P,g))), A.MEM(i,j)) if ret.reg is A.vals else FALSE)
        elif o in ('iter','riter'):
            q = k if o == 'iter' else sub(sub(A.LEN(i),I(1)),k)
            eng.require(st, 'the entry of the requested position is reached', eq(ret.off, mul(I(W), add(P,q))) if ret.reg is A.vals else FALSE)
            eng.require(st, 'its index is its column', eq(eng.rd(st, s.o, 'f0', I(0)), A.col(i,q)))
        elif o in ('rowiter','rowriter'):
            q = i if o == 'rowiter' else sub(sub(A.n,I(1)),i)
            eng.require(st, 'the row is reached', eq(ret.off, mul(I(A.rows.stride), q)) if ret.reg is A.rows else FALSE)
            eng.require(st, 'its index is its number', eq(eng.rd(st, s.o, 'f0', I(0)), q))
        elif o == 'dims': eng.require(st, 'number of rows', eq(ret, A.n)); eng.require(st, 'number of columns', eq(eng.rd(st, s.o, 'f0', I(0)), A.m))
        else: eng.require(st, 'size of the row', eq(ret, A.LEN(i)))
def contracts(tier):
    return [('drivers/c03.cc', ['VARIANT=%d' % v], [Look(o,v) for o in ('exists','find','find_mut','find_end','find_end_mut','find_entry','find_entry_mut','find_index','at','at_mut','iter','riter','rowiter','rowriter','dims','rowsize','getrowsize')]) for v in VARIANTS]
