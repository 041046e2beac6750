"""C11: multigrid grid transfer and Galerkin coarsening are the aggregation maps."""
from vc.common import *
from vc.terms import *
LEVEL = 'proof'
NOTE = ('prolongateVector, restrictVector (sequential transfer) and BaseGalerkinProduct::calculate for double, complex and 2x2 blocks, all aggregate maps, sizes, patterns and values. '
        'Trusts clang lowering, the VC generator, real arithmetic and that the coarse pattern contains every pair of connected aggregates and the diagonal. '
        'The construction of the coarse pattern and the transfer policies of the two-level method are exercised by the bounded part only.')
BOUNDED = 'transfer, Galerkin product, coarse pattern built by GalerkinProduct::build from the matrix graph, and the aggregation transfer policy of the two-level method on random matrices and aggregate maps with isolated vertices'
ASSUMPTIONS = ['every entry of the aggregates map is ISOLATED or below the number of coarse unknowns (UNAGGREGATED never occurs; C17)', 'the coarse pattern is sorted, contains the diagonal and every pair of aggregates joined by a fine entry', 'coarse and fine objects do not alias']
VARIANTS = {0:('double',1,False), 1:('complex<double>',1,True), 2:('FieldMatrix<double,2,2>',2,False)}
ISO = -2; UN = -1      # signed view of max()-1 and max()
class Agg:
    def __init__(s, eng, st, n, nc):
        s.n = n; s.arr = arr('agg.f0','I')
        def facts(e, st_, t, v):
            return [implies(and_(le(I(0),t), lt(t,n)), or_(eq(v,I(ISO)), and_(le(I(0),v), lt(v,nc))))]
        s.data = eng.region('agg', stride=8, length=n, readonly=True, fields={0: Field('f0','I',facts=facts)})
        h = s.head = eng.region('aggmap', stride=layout(eng,'agg_size'), readonly=True, length=I(1))
        h.fields = {layout(eng,'agg_n'): Field('n','I'), layout(eng,'agg_p'): Field('p','I',target=s.data.name)}
        st.mem[(h,'n')] = mk('mset', (arr('aggmap.n_','I'), I(0), I(1), n), 'AI'); st.mem[(h,'p')] = mk('mset', (arr('aggmap.p_','I'), I(0), I(1), I(0)), 'AI')
        s.f = facts
    def __call__(s, i): return sel(s.arr, lift(i,'I'))
    def ptr(s): return Ptr(s.head, I(0))
class Const(Contract):
    def __init__(s, which): s.fn = 'c_'+which; s.which = which; s.name = which; s.cost = 1
    def setup(s, eng, st): eng.call_function(st, eng.mod.get(s.fn), [])
    def invariants(s, eng, v): return []
    def post(s, eng, st, ret): eng.require(st, 'value of the marker', eq(ret, I(ISO if s.which == 'isolated' else UN)))
class Transfer(Contract):
    def __init__(s, op, variant):
        s.what, s.r, s.cx = VARIANTS[variant]; s.op = op; s.fn = 'c_'+op; s.name = '%s<%s>' % (op, s.what); s.cost = 1
    def setup(s, eng, st):
        B = s.B = Blk(s.r, s.cx); vc_ = tuple(8*i for i in range(B.nv)); pro = s.op != 'restrict'
        Cv = s.C = Vec(eng, st, 'coarse', comps=vc_); Fv = s.F = Vec(eng, st, 'fine', comps=vc_, readonly=not pro)
        A = s.A = Agg(eng, st, Fv.n, Cv.n); eng.assume(st, lt(Cv.n, I(2**62)))
        p = s.p = var('p','I'); eng.assume(st, le(I(0),p)); eng.assume(st, lt(p, Fv.n if pro else Cv.n))
        args = [A.ptr(), Cv.ptr(), Fv.ptr()]
        if s.op == 'prolongate_redist': R_ = Vec(eng, st, 'redist', comps=vc_, readonly=True); args.append(R_.ptr())
        if pro:
            d = eng.region('damp', stride=8, length=I(1), readonly=True, fields={0: Field('f0','R')}); args.append(Ptr(d, I(0))); s.d = sel(eng.getarr(st, d, 'f0'), I(0))
            for f in A.f(eng, st, p, A(p)): eng.assume(st, f)
            s.a = A(p)
            s.fin = tuple(ite(eq(s.a,I(ISO)), o, add(o, mul(s.d, c))) for o,c in zip(Fv.at0(p), Cv.at0(s.a)))
        else:
            def S(k):
                k1 = sub(k,I(1)); prev = vapp('S',(k1,),B.nv)
                return [(le(k,I(0)), B.zero()), (lt(I(0),k), tuple(ite(eq(A(k1),p), add(a,b), a) for a,b in zip(prev, Fv.at0(k1))))]
            s.S = vspec('S', B.nv, S)
        eng.call_function(st, eng.mod.get(s.fn), args)
    def invariants(s, eng, v):
        out = []; k = v.k[0]
        for c in range(s.B.nv):
            if s.op == 'restrict':
                now = v.eng.rd(v.st, s.C.data, 'f%d' % (8*c), s.p)
                out += [('zeroed.%d' % c, implies(lt(s.p,k), eq(now,R(0)))), ('sum.%d' % c, eq(now, s.S(k)[c]))]
            else:
                if (s.C.data.name,'f0') in v.lc.info.mods:
                    a = s.a; now = v.eng.rd(v.st, s.C.data, 'f%d' % (8*c), a); old = s.C.at0(a)[c]
                    out.append(('damped.%d' % c, implies(ne(a,I(ISO)), eq(now, ite(lt(a,k), mul(s.d,old), old)))))
                now = v.eng.rd(v.st, s.F.data, 'f%d' % (8*c), s.p); old = s.F.at0(s.p)[c]
                out.append(('prolongated.%d' % c, eq(now, ite(lt(s.p,k), s.fin[c], old))))
        return out
    def on_throw(s, eng, st): eng.require(st, 'no exception is thrown', FALSE)
    def post(s, eng, st, ret):
        for c in range(s.B.nv):
            if s.op == 'restrict': eng.require(st, 'component %d of the coarse entry is the sum over its aggregate' % c, eq(s.C.at_st(st, s.p)[c], s.S(s.F.n)[c]))
            else: eng.require(st, 'component %d of the fine entry gains the damped coarse value' % c, eq(s.F.at_st(st, s.p)[c], s.fin[c]))
class Galerkin(Contract):
    def __init__(s, variant):
        s.what, s.r, s.cx = VARIANTS[variant]; s.fn = 'c_galerkin'; s.name = 'galerkin<%s>' % s.what; s.cost = 3; s.opts = dict(depth=1)
    def setup(s, eng, st):
        B = s.B = Blk(s.r, s.cx); mc = tuple(8*i for i in range(B.nm)); s.heaps = []
        F = s.F = BCRS(eng, st, 'F', comps=mc, square=True); C = s.C = BCRS(eng, st, 'C', comps=mc, square=True, readonly=False, diag=True)
        s.init = {o: eng.getarr(st, C.vals, 'f%d' % o) for o in mc}
        A = s.A = Agg(eng, st, F.n, C.n); eng.assume(st, lt(C.n, I(2**62))); eng.assume(st, lt(F.n, I(2**62)))
        p, q = s.p, s.q = var('p','I'), var('q','I')
        bound(eng, st, le(I(0),p), lt(p,C.n), le(I(0),q), lt(q,C.LEN(p)), C.rowfact(p)); s.pos = add(C.P(p), q); s.c = C.col(p,q)
        bound(eng, st, le(I(0),s.c), lt(s.c,C.n))
        for f in C.posfacts(p, q): eng.assume(st, f)
        eng.assume(st, and_(le(I(0),C.DG(p)), lt(C.DG(p),C.LEN(p)), eq(C.col(p,C.DG(p)),p)))
        for f in C.rows.fields.values():
            def facts(e, st_, i, v, of=f.facts):
                return of(e, st_, i, v) + [implies(and_(le(I(0),i),lt(i,C.n),ne(i,p)), or_(le(add(C.P(i),C.LEN(i)),C.P(p)), le(add(C.P(p),C.LEN(p)),C.P(i))))]
            f.facts = facts
        def probes(e, st_):
            ks = e.allks(st_)
            if len(ks) < 2: return []
            i, c = ks[0], F.col(ks[0],ks[1]); return [(A(i), A(c))]
        C.probes = probes
        of = F.cols.fields[0].facts
        def facts(e, st_, t, v):
            out = of(e, st_, t, v)
            own = [a[0].args[1] for a in T.poly(t) if len(a) == 1 and a[0].op == 'app' and a[0].args[0] == 'F.P']
            for i in own:
                k = sub(t, F.P(i)); ok = and_(le(I(0),i), lt(i,F.n), le(I(0),k), lt(k,F.LEN(i)), ne(A(i),I(ISO)), ne(A(v),I(ISO)))
                out += [implies(ok, C.MEM(A(i), A(v)))] + C.lbfacts(A(i), A(v), q)
            return out
        F.cols.fields[0].facts = facts
        def val(i, k):
            hit = and_(eq(A(i),p), eq(A(F.col(i,k)),s.c))
            return tuple(ite(hit, e, R(0)) for e in F.ent(i,k))
        def G(i, k):
            k1, i1 = sub(k,I(1)), sub(i,I(1))
            return [(and_(le(k,I(0)),le(i,I(0))), (R(0),)*B.nm), (and_(le(k,I(0)),lt(I(0),i)), tuple(ite(eq(A(i1),I(ISO)), b, a) for a,b in zip(vapp('G',(i1,F.LEN(i1)),B.nm), vapp('G',(i1,I(0)),B.nm)))),
                    (lt(I(0),k), B.add(vapp('G',(i,k1),B.nm), val(i,k1)))]
        s.G = vspec('G', B.nm, G)
        eng.call_function(st, eng.mod.get(s.fn), [F.ptr(), A.ptr(), C.ptr()])
    def alloc(s, eng, st, r, n):
        b = 8*s.B.nm; q, rem = eng.divmod(n, I(b)); r.stride = b; r.length = q; r.fields = {8*i: Field('f%d' % (8*i),'R') for i in range(s.B.nm)}
        if r.name not in s.heaps: s.heaps.append(r.name)
    def now(s, v, c): return v.eng.rd(v.st, s.C.vals, 'f%d' % (8*c), s.pos)
    def invariants(s, eng, v):
        out = []; B, C, F, A = s.B, s.C, s.F, s.A; ks = v.k; k = ks[-1]; fin = s.G(F.n,I(0))
        if (C.vals.name,'f0') in v.lc.info.mods:
            for c in range(B.nm):
                now = s.now(v, c); 
                if len(ks) == 1:
                    out += [('zero rows.%d' % c, implies(lt(s.p,k), eq(now,R(0)))), ('G(i,0).%d' % c, eq(now, s.G(k,I(0))[c])), ('final.%d' % c, eq(now, fin[c]))]
                else: out += [('zero rows+entries.%d' % c, implies(or_(lt(s.p,ks[0]), and_(eq(s.p,ks[0]), lt(s.q,k))), eq(now,R(0)))), ('G(i,k).%d' % c, eq(now, s.G(ks[0],k)[c])), ('final.%d' % c, eq(now, fin[c]))]
        elif len(ks) == 1:
            for h in s.heaps:
                if h not in eng.regions or (h,'f0') not in v.lc.info.mods: continue
                reg = eng.regions[h]
                for c in range(B.nm):
                    def body(vw, x, reg=reg, c=c): return implies(and_(le(I(0),x), lt(x,vw.k[0]), lt(x,C.n)), eq(vw.eng.rd(vw.st, reg, 'f%d' % (8*c), x), vw.eng.rd(vw.st, C.vals, 'f%d' % (8*c), add(C.P(x),C.DG(x)))))
                    out.append(('diagonal copied.%d' % c, dict(terms=lambda e, st_, reg=reg: list(dict.fromkeys([i for r,f,i in st_.idx if r is reg]+[s.p])), body=body)))
        if len(ks) >= 2:
            pr = C.probes(eng, v.st)
            for i,c in pr: out += searchcands(v, C, i, C.LB(i,c), 'agg ')
            last = [i for r,f,i in v.st.idx if r is C.rows][-1:]
            for i in last: out += searchcands(v, C, i, C.DG(i), 'dg ')
        return out
    def on_throw(s, eng, st): eng.require(st, 'no exception is thrown', FALSE)
    def post(s, eng, st, ret):
        for c in range(s.B.nm): eng.require(st, 'coarse entry (I,J).%d is the sum of the fine entries between the aggregates' % c, eq(eng.rd(st, s.C.vals, 'f%d' % (8*c), s.pos), s.G(s.F.n,I(0))[c]))
def contracts(tier):
    return [('drivers/c11.cc', ['VARIANT=%d' % v], [Const(x) for x in ('isolated','unaggregated') if v == 0] + [Transfer(o, v) for o in ('prolongate','prolongate_redist','restrict')] + [Galerkin(v)]) for v in VARIANTS]
