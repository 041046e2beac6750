"""C18: the owner/overlap/copy communication."""
from vc.common import *
from vc.terms import *
LEVEL = 'proof'
VARIANTS = {0: ('double',1,False), 1: ('complex',1,True), 2: ('FieldVector<double,2>',2,False)}
# operation -> (interface member, built flag, classes sent from, classes received by, adds)   [owner=1, overlap=2, copy=4]
EX = {'oa': ('oa','oab',1,7,False), 'ca': ('ca','cab',4,7,False), 'ooa': ('ooa','ooab',3,7,True), 'oca': ('oca','ocab',5,7,True), 'ococ': ('ococ','ococb',5,5,True)}
NATIVE_FLAGS = ['-DOMPI_SKIP_MPICXX=1','-I/usr/lib/x86_64-linux-gnu/openmpi/include','-I/usr/lib/x86_64-linux-gnu/openmpi/include/openmpi','-L/usr/lib/x86_64-linux-gnu/openmpi/lib','-lmpi']
NOTE = ('dot and norm (with and without a valid mask, double, complex, FieldVector blocks), project, the five exchanges copyOwnerToAll, copyCopyToAll, addOwnerOverlapToAll, addOwnerCopyToAll, addOwnerCopyToOwnerCopy (with and without interface, also in place) and the building of their interfaces, '
        'redistribute and redistributeBackward, restriction and prolongation with a communication, buildGlobalLookup/freeGlobalLookup and the destructor: all index sets, attributes, sizes and values. '
        'The classes of dune-common they call (index set, remote indices, interface, communicator) are assumed by contract: an interface between two attribute classes transports exactly the values of these classes. Trusts clang lowering, the VC generator, real arithmetic.')
BOUNDED = 'the same operations, the constructor from IndexInfoFromGrid, the overlapping and nonoverlapping Schwarz operators, grid transfer, redistributeMatrix and the global lookup on four real MPI processes with the real dune-common, random distributions of up to 9 global indices against the sequential result'
ASSUMPTIONS = ['dune-common: ParallelIndexSet is a finite sequence of pairs, Interface::build(source, dest) selects exactly the shared indices with these attributes, BufferedCommunicator::forward gathers before it scatters, Communication::sum adds over the processes', 'every local index occurs at most once in the index set', 'index set and remote indices are not changed after the first exchange or scalar product (mask and interfaces are kept)', 'MPI itself', 'memory of the mask can be allocated',
  'NonoverlappingSchwarzOperator, redistributeMatrix (index sets with more than one index: ParallelIndexSet::at of dune-common does not find the only entry of a set) and the constructors are only covered by the bounded part']
class Comm:
    """an OwnerOverlapCopyCommunication whose index set holds every local index at most once"""
    def __init__(s, eng, st, n, mask=None, built=(), builtall=None):
        L = lambda f: layout(eng, f); s.eng = eng; s.np = var('np','I'); s.n = n
        s.LOC = lambda k: sel(arr('pairs.l_','I'), lift(k,'I')); s.ATT = lambda k: sel(arr('pairs.a_','I'), lift(k,'I')); s.K = lambda i: app('K', (lift(i,'I'),), 'I')
        def facts(e, st_, k, v):
            ok = and_(le(I(0),k), lt(k,s.np)); return [implies(ok, and_(le(I(0),s.LOC(k)), lt(s.LOC(k),n), eq(s.K(s.LOC(k)),k), le(I(1),s.ATT(k)), le(s.ATT(k),I(3))))]
        P = s.pairs = eng.region('pairs', stride=L('ip_size'), length=s.np, readonly=True, fields={L('ip_g'): Field('g','I'), L('ip_l'): Field('l','I',facts=facts), L('ip_a'): Field('a','I',facts=facts)})
        st.mem[(P,'l')] = arr('pairs.l_','I'); st.mem[(P,'a')] = arr('pairs.a_','I')
        c = s.c = eng.region('comm', kind='cells'); m = st.cells[c] = {}
        m[L('c_pb')] = Ptr(P,I(0)); m[L('c_pe')] = Ptr(P,mul(I(L('ip_size')),s.np)); m[L('c_seq')] = var('seq','I'); m[L('c_cat')] = var('cat','I'); m[L('c_comm')] = var('mpi','I'); m[L('c_gl')] = Ptr(None,I(0)); m[L('c_old')] = var('oldseq','I'); m[L('c_free')] = I(0)
        bound(eng, st, le(I(0),s.np), lt(s.np,I(2**50)), lt(n,I(2**60)))
        for mem, b, so, de, _ in EX.values():
            m[L('c_'+b)] = I(1 if b in built else 0); m[L('c_'+mem)] = I(so if b in built else 0); m[L('c_'+mem)+4] = I(de if b in built else 0)
        s.msize = None; o = L('c_mask')
        if mask:
            mf = None
            if mask == 'cached':
                s.msize = n; mf = lambda e, st_, i, v: s.mfacts(i) + [implies(and_(le(I(0),i), lt(i,n)), eq(v, s.m(i)))]
            else: s.msize = var('masksize','I'); bound(eng, st, le(I(0),s.msize), ne(s.msize,n))
            cap = add(s.msize, app('mask.spare',(),'I')); bound(eng, st, le(I(0),app('mask.spare',(),'I')), lt(cap,I(2**60)))
            D = s.mreg = eng.region('mask.data', stride=8, length=cap, readonly=mask == 'cached', fields={0: Field('f0','R',facts=mf)})
            m[o] = Ptr(D,I(0)); m[o+8] = Ptr(D,mul(I(8),s.msize)); m[o+16] = Ptr(D,mul(I(8),cap))
        else: m[o] = m[o+8] = m[o+16] = Ptr(None,I(0))
    def m(s, i): return ite(and_(le(I(0),s.K(i)), ne(s.ATT(s.K(i)),I(1))), R(0), R(1))
    def mfacts(s, i):
        k = s.K(i); return [and_(le(I(-1),k), lt(k,s.np)), implies(le(I(0),k), and_(eq(s.LOC(k),i), le(I(1),s.ATT(k)), le(s.ATT(k),I(3))))]
    def ptr(s): return Ptr(s.c, I(0))
    def cell(s, eng, st, f): return st.cells[s.c].get(layout(eng,f))
def h_sum(e, st, ins, a): return ('ret', app('allsum', (a[0],), 'R'))
class Reduce(Contract):
    def __init__(s, op, variant, mask):
        s.what, s.r, s.cx = VARIANTS[variant]; s.op, s.mask = op, mask; s.fn = 'c_'+op; s.name = '%s<%s>(%s mask)' % (op, s.what, mask); s.cost = 1
    def handler(s, eng, name): return {'vc_sum': h_sum}.get(name)
    def setup(s, eng, st):
        B = s.B = Blk(s.r, s.cx); vc_ = tuple(8*i for i in range(B.nv)); s.heaps = []
        x = s.x = Vec(eng, st, 'x', comps=vc_, readonly=True); y = s.y = Vec(eng, st, 'y', comps=vc_, readonly=True, n=x.n) if s.op == 'dot' else x
        C = s.C = Comm(eng, st, x.n, mask=s.mask); w = s.w = B.w if s.op == 'dot' else 1
        def S(k):
            k1 = sub(k,I(1)); a, b = x.at0(k1), y.at0(k1); t = [R(0)]*w
            for i in range(s.r):
                if s.cx: 
                    (p,q),(u,v) = a[2*i:2*i+2], b[2*i:2*i+2]; d = (add(mul(p,u),mul(q,v)), sub(mul(p,v),mul(q,u)))
                else: d = (mul(a[i],b[i]),)
                t = [add(t[j],d[j]) for j in range(w)]
            m = C.m(k1); prev = vapp('S',(k1,),w)
            return [(le(k,I(0)), (R(0),)*w), (lt(I(0),k), tuple(add(o, mul(m,z)) for o,z in zip(prev,t)))]
        f = vspec('S', w, S)
        for c in range(w):
            of = solve.SPECS['S.%d' % c]; solve.SPECS['S.%d' % c] = lambda t, k, of=of: of(t,k) + C.mfacts(sub(k,I(1)))
        s.S = f; args = [C.ptr(), x.ptr()]; s.p = var('p','I'); bound(eng, st, le(I(0),s.p), *C.mfacts(s.p))
        if s.mask == 'cached': eng.assume(st, implies(lt(s.p,x.n), eq(eng.rd(st, C.mreg, 'f0', s.p), C.m(s.p))))
        if s.op == 'dot':
            s.res = eng.region('res', stride=8*w, length=I(1), fields={8*i: Field('f%d' % (8*i),'R') for i in range(w)}); args += [y.ptr(), Ptr(s.res,I(0))]
        eng.call_function(st, eng.mod.get(s.fn), args)
    def alloc(s, eng, st, r, n):
        q, rem = eng.divmod(n, I(8)); r.stride = 8; r.length = q; r.fields = {0: Field('f0','R')}
        if r.name not in s.heaps: s.heaps.append(r.name)
    def maskreg(s, eng, st):
        p = s.C.cell(eng, st, 'c_mask'); return p.reg if isinstance(p, Ptr) else None
    def maskgoal(s, vw, reg, k, j):
        C = s.C; K = C.K(j); return implies(and_(le(I(0),j), lt(j,C.n), *C.mfacts(j)), eq(vw.eng.rd(vw.st, reg, 'f0', j), ite(and_(le(I(0),K), lt(K,k), ne(C.ATT(K),I(1))), R(0), R(1))))
    def invariants(s, eng, v):
        out = []; k = v.k[-1]; C = s.C; reg = s.maskreg(eng, v.st); mods = v.lc.info.mods
        if reg is not None and (reg.name,'f0') in mods:
            T_ = lambda e, st_, reg=reg: list(dict.fromkeys([i for r,f,i in st_.idx if r is reg]+[s.p]))
            out.append(('mask is one below', dict(terms=T_, body=lambda vw, j: implies(and_(le(I(0),j), lt(j,vw.k[-1])), eq(vw.eng.rd(vw.st, reg, 'f0', j), R(1))))))
            out.append(('mask follows the pairs', dict(terms=T_, body=lambda vw, j: s.maskgoal(vw, reg, vw.k[-1], j))))
        for n_, ph in vecphis(v, 1):
            for c in range(s.w): out.append(('S.%d %s' % (c,n_), eq(ph, s.S(k)[c])))
        for q, f in s.cur(eng, v.st):
            for c in range(s.w): out.append(('S.%d %s' % (c,q), eq(f[c], s.S(k)[c])))
        return out
    def cur(s, eng, st): return [('result', [eng.rd(st, s.res, 'f%d' % (8*c), I(0)) for c in range(s.w)])] if s.op == 'dot' else []
    def on_throw(s, eng, st): eng.require(st, 'no exception is thrown', FALSE)
    def post(s, eng, st, ret):
        tot = s.S(s.x.n)
        if s.op == 'dot':
            for c, f in enumerate(s.cur(eng, st)[0][1]): eng.require(st, 'component %d of the product is the sum over all processes of the sums over the owned indices' % c, eq(f, app('allsum',(tot[c],),'R')))
        else: eng.require(st, 'the norm is the root of the sum over all processes of the sums over the owned indices', eq(ret, app('sqrt',(app('allsum',(tot[0],),'R'),),'R')))
        reg = s.maskreg(eng, st); j = s.p; C = s.C
        o = layout(eng,'c_mask'); p = st.cells[C.c][o]; e_ = st.cells[C.c][o+8]
        eng.require(st, 'the mask has one entry per index', and_(eq(p.off,I(0)), eq(e_.off, mul(I(8),C.n))) if p.reg is e_.reg else FALSE)
        if reg is not None: eng.require(st, 'the mask is one except at indices owned elsewhere', implies(lt(j,C.n), eq(eng.rd(st, reg, 'f0', j), C.m(j))))
class Project(Contract):
    def __init__(s, variant): s.what, s.r, s.cx = VARIANTS[variant]; s.fn = 'c_project'; s.name = 'project<%s>' % s.what; s.cost = 1
    def setup(s, eng, st):
        B = s.B = Blk(s.r, s.cx); x = s.x = Vec(eng, st, 'x', comps=tuple(8*i for i in range(B.nv))); C = s.C = Comm(eng, st, x.n); p = s.p = var('p','I'); bound(eng, st, le(I(0),p), lt(p,x.n), *C.mfacts(p))
        eng.call_function(st, eng.mod.get(s.fn), [C.ptr(), x.ptr()])
    def want(s, k): K = s.C.K(s.p); hit = and_(le(I(0),K), lt(K,k), eq(s.C.ATT(K),I(3))); return [ite(hit, R(0), o) for o in s.x.at0(s.p)]
    def invariants(s, eng, v): return [('x(p).%d' % c, eq(a,b)) for c,(a,b) in enumerate(zip(s.x.at(v, s.p), s.want(v.k[-1])))]
    def on_throw(s, eng, st): eng.require(st, 'no exception is thrown', FALSE)
    def post(s, eng, st, ret):
        for c,(a,b) in enumerate(zip(s.x.at_st(st, s.p), s.want(s.C.np))): eng.require(st, 'component %d is zero exactly at copies and unchanged elsewhere' % c, eq(a,b))
class Exchange(Contract):
    def __init__(s, op, variant, built, alias):
        s.what, s.r, s.cx = VARIANTS[variant]; s.op, s.built, s.alias = op, built, alias; s.fn = 'c_'+op; s.cost = 1
        s.name = '%s<%s>(%s%s)' % ({'oa':'copyOwnerToAll','ca':'copyCopyToAll','ooa':'addOwnerOverlapToAll','oca':'addOwnerCopyToAll','ococ':'addOwnerCopyToOwnerCopy'}[op], s.what, 'interface cached' if built else 'interface not built', ', in place' if alias else '')
    def setup(s, eng, st):
        mem, flag, so, de, ad = EX[s.op]; B = s.B = Blk(s.r, s.cx); vc_ = tuple(8*i for i in range(B.nv)); s.so, s.de, s.ad = so, de, ad
        y = s.y = Vec(eng, st, 'y', comps=vc_); x = s.x = y if s.alias else Vec(eng, st, 'x', comps=vc_, readonly=True, n=y.n); C = s.C = Comm(eng, st, x.n, built=(flag,) if s.built else ()); s.flag, s.mem = flag, mem
        s.ns, s.nr, p = var('ns','I'), var('nr','I'), var('p','I'); s.p = p; bound(eng, st, le(I(0),s.ns), le(I(0),s.nr), le(I(0),p), lt(p,y.n), lt(s.ns,I(2**50)), lt(s.nr,I(2**50)))
        s.SI = lambda k: app('sendidx',(lift(k,'I'),),'I'); s.RI = lambda k: app('recvidx',(lift(k,'I'),),'I'); s.RV = lambda c,k: app('recv.%d' % c,(lift(k,'I'),),'R')
        def D(k):
            k1 = sub(k,I(1)); prev = vapp('D',(k1,),B.nv); new = [add(o,s.RV(c,k1)) if ad else s.RV(c,k1) for c,o in enumerate(prev)]
            return [(le(k,I(0)), y.at0(p)), (lt(I(0),k), tuple(ite(eq(s.RI(k1),p), a, o) for a,o in zip(new,prev)))]
        s.D = vspec('D', B.nv, D); eng.setghost(st, 'used', I(0)); eng.setghost(st, 'phase', I(0)); eng.setghost(st, 'puts', I(0))
        eng.call_function(st, eng.mod.get(s.fn), [C.ptr(), x.ptr(), y.ptr()])
    def handler(s, eng, name):
        def use(e, st, ins, a):
            e.require(st, 'the exchange goes from the sending to the receiving classes', and_(eq(a[0],I(s.so)), eq(a[1],I(s.de)), eq(a[2],I(1)))); e.require(st, 'one exchange', eq(st.ghost['used'],I(0))); e.setghost(st,'used',I(1)); return ('ret', None)
        def nsend(e, st, ins, a): return ('ret', s.ns)
        def nrecv(e, st, ins, a): return ('ret', s.nr)
        def idx(F, n):
            def h(e, st, ins, a): t = F(a[0]); e.assume(st, implies(and_(le(I(0),a[0]), lt(a[0],n)), and_(le(I(0),t), lt(t,s.y.n)))); return ('ret', t)
            return h
        def put(e, st, ins, a):
            c = a[0].args[0]; e.require(st, 'component %d of the message is the value at its index' % c, eq(a[2], s.x.at0(s.SI(a[1]))[c])); return ('ret', None)
        def get(e, st, ins, a): e.require(st, 'received after sending', eq(st.ghost['phase'],I(1))); return ('ret', s.RV(a[0].args[0], a[1]))
        def barrier(e, st, ins, a): e.setghost(st,'phase',I(1)); return ('ret', None)
        def build(e, st, ins, a): e.require(st, 'the interface is only built when it is not there', I(0) is I(0) and TRUE if not s.built else FALSE); return ('ret', None)
        def free(e, st, ins, a): e.require(st, 'a built interface is kept', FALSE); return ('ret', None)
        return {'vc_use': use, 'vc_nsend': nsend, 'vc_nrecv': nrecv, 'vc_sendidx': idx(s.SI,s.ns), 'vc_recvidx': idx(s.RI,s.nr), 'vc_put': put, 'vc_get': get, 'vc_barrier': barrier, 'vc_ifbuild': build, 'vc_iffree': free}.get(name)
    def invariants(s, eng, v):
        out = []
        for c in range(s.B.nv):
            now = s.y.at(v, s.p)[c]; out.append(('D(k).%d' % c, eq(now, s.D(v.k[-1])[c])))
        return out
    def on_throw(s, eng, st): eng.require(st, 'no exception is thrown', FALSE)
    def post(s, eng, st, ret):
        L = lambda f: st.cells[s.C.c][layout(eng,'c_'+f)]
        for c,(a,b) in enumerate(zip(s.y.at_st(st, s.p), s.D(s.nr))): eng.require(st, 'component %d %s' % (c, 'gains every value received for its index' if s.ad else 'is the last value received for its index'), eq(a,b))
        eng.require(st, 'exchanged once', eq(st.ghost['used'],I(1))); eng.require(st, 'the interface is marked as built', ne(L(s.flag),I(0)))
        eng.require(st, 'the cached interface joins the classes', and_(eq(L(s.mem),I(s.so)), eq(st.cells[s.C.c][layout(eng,'c_'+s.mem)+4],I(s.de))))
class Redist(Exchange):
    """RedistributeInformation::redistribute and redistributeBackward: copy along the interface, forwards and backwards"""
    def __init__(s, op, variant):
        Exchange.__init__(s, 'oa', variant, True, False); s.op = op; s.fn = 'c_'+op; s.name = '%s<%s>' % ({'redist':'redistribute','redistb':'redistributeBackward'}[op], s.what)
    def setup(s, eng, st):
        back = s.op == 'redistb'; B = s.B = Blk(s.r, s.cx); vc_ = tuple(8*i for i in range(B.nv)); s.so, s.de, s.ad = var('so','I'), var('de','I'), False
        x = s.x = Vec(eng, st, 'from', comps=vc_, readonly=True); y = s.y = Vec(eng, st, 'to', comps=vc_)
        ri = eng.region('ri', kind='cells'); st.cells[ri] = {layout(eng,'ri_s'): s.so, layout(eng,'ri_s')+4: s.de, layout(eng,'ri_setup'): I(1)}; bound(eng, st, le(I(0),s.so), lt(s.so,I(8)), le(I(0),s.de), lt(s.de,I(8)))
        s.ns, s.nr, p = var('ns','I'), var('nr','I'), var('p','I'); s.p = p; bound(eng, st, le(I(0),s.ns), le(I(0),s.nr), le(I(0),p), lt(p,y.n), lt(s.ns,I(2**50)), lt(s.nr,I(2**50)))
        s.SI = lambda k: app('sendidx',(lift(k,'I'),),'I'); s.RI = lambda k: app('recvidx',(lift(k,'I'),),'I'); s.RV = lambda c,k: app('recv.%d' % c,(lift(k,'I'),),'R')
        s.IN, s.OUT = (s.SI, s.RI) if back else (s.RI, s.SI); s.nin = s.ns if back else s.nr
        def D(k):
            k1 = sub(k,I(1)); prev = vapp('D',(k1,),B.nv)
            return [(le(k,I(0)), y.at0(p)), (lt(I(0),k), tuple(ite(eq(s.IN(k1),p), s.RV(c,k1), o) for c,o in enumerate(prev)))]
        s.D = vspec('D', B.nv, D); eng.setghost(st, 'used', I(0)); eng.setghost(st, 'phase', I(0))
        eng.call_function(st, eng.mod.get(s.fn), [Ptr(ri,I(0)), y.ptr(), x.ptr()] if back else [Ptr(ri,I(0)), x.ptr(), y.ptr()])
    def handler(s, eng, name):
        back = s.op == 'redistb'
        def use(e, st, ins, a): e.require(st, 'the exchange runs along the interface in the right direction', eq(a[2],I(0 if back else 1))); e.require(st, 'one exchange', eq(st.ghost['used'],I(0))); e.setghost(st,'used',I(1)); return ('ret', None)
        def idx(F, n, lim):
            def h(e, st, ins, a): t = F(a[0]); e.assume(st, implies(and_(le(I(0),a[0]), lt(a[0],n)), and_(le(I(0),t), lt(t,lim)))); return ('ret', t)
            return h
        def put(e, st, ins, a): c = a[0].args[0]; e.require(st, 'component %d of the message is the value at its index' % c, eq(a[2], s.x.at0(s.OUT(a[1]))[c])); return ('ret', None)
        X, Y = s.x.n, s.y.n
        h = {'vc_use': use, 'vc_sendidx': idx(s.SI, s.ns, Y if back else X), 'vc_recvidx': idx(s.RI, s.nr, X if back else Y), 'vc_put': put}.get(name)
        return h or Exchange.handler(s, eng, name)
    def post(s, eng, st, ret):
        for c,(a,b) in enumerate(zip(s.y.at_st(st, s.p), s.D(s.nin))): eng.require(st, 'component %d is the last value received for its index' % c, eq(a,b))
        eng.require(st, 'exchanged once', eq(st.ghost['used'],I(1)))
class Build(Contract):
    def __init__(s, op, built):
        s.op, s.built = op, built; s.fn = 'c_b'+op; s.cost = 1; s.name = 'build interface %s(%s)' % (op, 'again' if built else 'first time')
    def setup(s, eng, st):
        s.mem, s.flag, s.so, s.de, _ = EX[s.op]; C = s.C = Comm(eng, st, var('n','I'), built=(s.flag,) if s.built else ()); eng.setghost(st,'freed',I(0)); eng.setghost(st,'built',I(0)); s.before = dict(st.cells[C.c])
        eng.call_function(st, eng.mod.get(s.fn), [C.ptr()])
    def handler(s, eng, name):
        def build(e, st, ins, a): e.require(st, 'an interface built before is freed first', eq(st.ghost['freed'], I(1 if s.built else 0))); e.require(st, 'the interface joins the classes', and_(eq(a[0],I(s.so)), eq(a[1],I(s.de)))); e.setghost(st,'built',add(st.ghost['built'],I(1))); return ('ret', None)
        def free(e, st, ins, a): e.require(st, 'only a built interface is freed', TRUE if s.built else FALSE); e.setghost(st,'freed',add(st.ghost['freed'],I(1))); return ('ret', None)
        return {'vc_ifbuild': build, 'vc_iffree': free}.get(name)
    def invariants(s, eng, v): return []
    def on_throw(s, eng, st): eng.require(st, 'no exception is thrown', FALSE)
    def post(s, eng, st, ret):
        L = lambda f: st.cells[s.C.c][layout(eng,'c_'+f)]; eng.require(st, 'built once', eq(st.ghost['built'],I(1))); eng.require(st, 'marked as built', ne(L(s.flag),I(0)))
        for o, x in s.before.items():
            if isinstance(x, Term) and o not in (layout(eng,'c_'+s.flag), layout(eng,'c_'+s.mem), layout(eng,'c_'+s.mem)+4): eng.require(st, 'the other members are unchanged (offset %d)' % o, eq(st.cells[s.C.c][o], x))
class Life(Contract):
    """construction, destruction and the global lookup"""
    def __init__(s, op, arg=None): s.op, s.arg = op, arg; s.fn = 'c_'+op; s.cost = 1; s.name = op + ('' if arg is None else '(%s)' % arg)
    def setup(s, eng, st):
        s.fin = var('finalized','I'); bound(eng, st, le(I(0),s.fin), le(s.fin,I(1)))
        for g in ('freed','commfree','rifree'): eng.setghost(st, g, I(0))
        L = lambda f: layout(eng, 'c_'+f); s.mpi, s.fr, s.cat = var('mpi','I'), var('fr','I'), var('cat','I'); bound(eng, st, le(I(0),s.fr), le(s.fr,I(1)), le(I(0),s.cat), le(s.cat,I(2)))
        if s.op == 'life': s.nb = 0; s.mpi = var('comm','I'); eng.call_function(st, eng.mod.get(s.fn), [s.mpi, s.cat, ne(s.fr,I(0))]); return
        b = {'none': (), 'all': [x[1] for x in EX.values()], 'some': [EX['oa'][1], EX['oca'][1]]}.get(s.arg, ()); C = s.C = Comm(eng, st, var('n','I'), built=b); s.nb = len(b); m = st.cells[C.c]; m[L('free')] = s.fr
        if s.op == 'lookup':
            s.seq = m[L('seq')]; s.old = m[L('old')]
            if s.arg == 'there': gl = s.gl = eng.region('lookup', kind='cells'); st.cells[gl] = {0: Ptr(C.c,I(layout(eng,'c_pb'))), 8: I(0)}; m[L('gl')] = Ptr(gl,I(0))
        eng.call_function(st, eng.mod.get(s.fn), [C.ptr()])
    def handler(s, eng, name):
        def free(e, st, ins, a): e.setghost(st,'freed',add(st.ghost['freed'],I(1))); return ('ret', None)
        def finalized(e, st, ins, a): return ('ret', s.fin)
        def commfree(e, st, ins, a): e.require(st, 'the communicator is freed only when it is owned, there and MPI is running', and_(ne(s.fr,I(0)), ne(a[0],I(0)), eq(s.fin,I(0)), eq(a[0],s.mpi))); e.setghost(st,'commfree',add(st.ghost['commfree'],I(1))); return ('ret', None)
        def rifree(e, st, ins, a): e.setghost(st,'rifree',add(st.ghost['rifree'],I(1))); return ('ret', None)
        return {'vc_iffree': free, 'vc_finalized': finalized, 'vc_commfree': commfree, 'vc_rifree': rifree}.get(name)
    def alloc(s, eng, st, r, n): r.kind = 'cells'; st.cells.setdefault(r, {})
    def invariants(s, eng, v): return []
    def on_throw(s, eng, st): eng.require(st, 'no exception is thrown', FALSE)
    def post(s, eng, st, ret):
        g = st.ghost; L = lambda f: layout(eng, 'c_'+f)
        if s.op == 'lookup':
            m = st.cells[s.C.c]; p = m[L('gl')]; eng.require(st, 'there is a lookup', TRUE if p.reg is not None else FALSE)
            eng.require(st, 'it belongs to the current index set', eq(m[L('old')], s.seq))
            if s.arg == 'there':
                kept = p.reg is s.gl; eng.require(st, 'it is kept exactly if the index set did not change', eq(s.seq,s.old) if kept else ne(s.seq,s.old))
            return
        eng.require(st, 'the communicator is freed when it is owned, there and MPI is running', eq(g['commfree'], ite(and_(ne(s.fr,I(0)), ne(s.mpi,I(0)), eq(s.fin,I(0))), I(1), I(0))))
        eng.require(st, 'the remote indices are freed', eq(g['rifree'],I(1))); eng.require(st, 'exactly the built interfaces are freed', eq(g['freed'],I(s.nb)))
        if s.op == 'life': eng.require(st, 'the category is the given one', eq(ret, s.cat))
from contracts import c11
class PTransfer(c11.Transfer):
    def __init__(s, op, variant): s.base = op[1:]; c11.Transfer.__init__(s, s.base, variant); s.what, s.r, s.cx = VARIANTS[variant]; s.fn = 'c_'+op; s.name = 'parallel %s<%s>' % (s.base, s.what)
    def setup(s, eng, st):
        real = eng.call_function
        def call(st_, f, args): s.Cm = Comm(eng, st_, s.C.n); bound(eng, st_, *(s.Cm.mfacts(s.p) if s.base == 'restrict' else [])); return real(st_, f, args + [s.Cm.ptr()])
        eng.call_function = call
        try: c11.Transfer.setup(s, eng, st)
        finally: eng.call_function = real
    def masked(s, k, x): K = s.Cm.K(s.p); return ite(and_(le(I(0),K), lt(K,k), eq(s.Cm.ATT(K),I(3))), R(0), x)
    def invariants(s, eng, v):
        out = c11.Transfer.invariants(s, eng, v)
        if s.base == 'restrict':
            for c in range(s.B.nv): out.append(('projected.%d' % c, eq(eng.rd(v.st, s.C.data, 'f%d' % (8*c), s.p), s.masked(v.k[0], s.S(s.F.n)[c]))))
        return out
    def post(s, eng, st, ret):
        if s.base != 'restrict': return c11.Transfer.post(s, eng, st, ret)
        for c in range(s.B.nv): eng.require(st, 'component %d of the coarse entry is zero at a copy and the sum over its aggregate elsewhere' % c, eq(s.C.at_st(st, s.p)[c], s.masked(s.Cm.np, s.S(s.F.n)[c])))
def contracts(tier):
    out = []
    for v in VARIANTS:
        cs = [Reduce(o, v, m) for o in ('dot','norm') for m in ('cached','other')] + [Project(v)] + [Redist(o, v) for o in ('redist','redistb')] + [PTransfer(o, v) for o in ('prestrict','pprolongate')]
        cs += [Exchange(o, v, b, al) for o in EX for b in (False,True) for al in (False,True) if v == 0 or not b and not al or v == 2 and al and not b]
        if v == 0: cs += [Build(o, b) for o in EX for b in (False,True)] + [Life('life')] + [Life('destroy', x) for x in ('none','some','all')] + [Life('lookup', x) for x in ('missing','there')]
        out.append(('drivers/c18.cc', ['VARIANT=%d' % v], cs))
    return out
