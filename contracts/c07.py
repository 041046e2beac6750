"""C07: incomplete factorizations are computed and applied as the triangular systems they define."""
from vc.common import *
from vc.terms import *
LEVEL = 'proof'
NOTE = ('ILU back-solve (matrix form and compressed-row form), ILDL back-solve, DILU back-solve and DILU decomposition: all sizes, patterns and values for scalar and block entries. Trusts clang lowering, the libstdc++ code inlined by it and IEEE rounding treated as exact real arithmetic.')
BOUNDED = 'ILU(0), ILU(k), ILDL and DILU decompositions against A = LU on the pattern, all back-solves, conversion to compressed rows and the preconditioners built on them, on random matrices'
ASSUMPTIONS = ['every row stores its diagonal entry, columns strictly increasing (C04), pivots invertible', 'block types covered: double, complex<double>, FieldMatrix<double,1,1>, FieldMatrix<double,2,2>']
VARIANTS = {0:('double',1,False), 1:('complex<double>',1,True), 2:('FieldMatrix<double,1,1>',1,False), 3:('FieldMatrix<double,2,2>',2,False)}
class Base(Contract):
    def __init__(s, fn, variant):
        s.what, s.r, s.cx = VARIANTS[variant]; s.fn = 'c_'+fn; s.op = fn; s.name = '%s<%s>' % (fn, s.what); s.variant = variant; s.cost = 3 if s.r == 2 else 1
    def common(s, eng, st, vecs=True, readonly=True):
        B = s.B = Blk(s.r, s.cx); s.bc = tuple(8*i for i in range(B.nm)); s.heaps = []
        if s.op != 'crs_back': s.A = BCRS(eng, st, 'A', comps=s.bc, square=True, diag=True, readonly=readonly); n = s.A.n
        else: n = var('n','I'); eng.assume(st, le(I(0),n))
        s.n = n
        if vecs:
            s.X = Vec(eng, st, 'v', comps=tuple(8*i for i in range(B.nv)), n=n); s.D = Vec(eng, st, 'd', comps=tuple(8*i for i in range(B.nv)), n=n, readonly=True)
        s.p = var('p','I'); eng.assume(st, le(I(0),s.p)); eng.assume(st, lt(s.p,n))
    def alloc(s, eng, st, r, n):
        b = 8*s.B.nm; q, rem = eng.divmod(n, I(b)); r.stride = b; r.length = q; r.fields = {8*i: Field('f%d' % (8*i),'R') for i in range(s.B.nm)}
        if r.name not in s.heaps: s.heaps.append(r.name)
    def terms(s, reg):
        return lambda eng, st: list(dict.fromkeys([i for r,f,i in st.idx if r is reg]+[s.p]))
    def sums(s, name, step):
        """S(i,k): sum of the first k terms step(i,k) (vectors)"""
        B = s.B
        def S(i, k):
            k1 = sub(k,I(1)); return [(le(k,I(0)), B.zero()), (lt(I(0),k), B.add(vapp(name,(i,k1),B.nv), step(i,k1)))]
        return vspec(name, B.nv, S)
    def quant(s, out, nm, reg, comp, body):
        """forall q in [0,n): reg[q].comp == body(K,q); body may return None for unconstrained through an implication"""
        def f(vw, q):
            g = body(vw, q)
            return implies(and_(le(I(0),q), lt(q,s.n)), g)
        out.append((nm, dict(terms=s.terms(reg), body=f)))
    def vecforms(s, v, out, reg, done, before, weak=True, nc=None):
        nc = nc or s.B.nv
        for back in (0,1):
            for c in range(nc):
                def cond(vw, q, back=back): return le(sub(s.n,vw.k[0]),q) if back else lt(q,vw.k[0])
                for bn, bf in before:
                    for dn, df in done:
                        if dn == bn: continue
                        s.quant(out, '%s.%d %s/%s %s' % (reg.name[-12:],c,dn,bn,'back' if back else 'fwd'), reg, c, lambda vw,q,c=c,df=df,bf=bf,cond=cond: eq(vw.eng.rd(vw.st,reg,'f%d' % (8*c),q), ite(cond(vw,q), df(q)[c], bf(q)[c])))
                if weak:
                    for dn, df in done: s.quant(out, '%s.%d %s/- %s' % (reg.name[-12:],c,dn,'back' if back else 'fwd'), reg, c, lambda vw,q,c=c,df=df,cond=cond: implies(cond(vw,q), eq(vw.eng.rd(vw.st,reg,'f%d' % (8*c),q), df(q)[c])))
        for c in range(nc):
            for dn, df in done: s.quant(out, '%s.%d all %s' % (reg.name[-12:],c,dn), reg, c, lambda vw,q,c=c,df=df: eq(vw.eng.rd(vw.st,reg,'f%d' % (8*c),q), df(q)[c]))
    def accs(s, v, out, forms):
        for anm, ph in vecphis(v, s.B.nv):
            for nm, t in forms:
                for c in range(s.B.nv): out.append(('%s = %s.%d' % (anm,nm,c), eq(ph, t[c])))
class ILUBack(Base):
    def setup(s, eng, st):
        s.common(eng, st); A, B = s.A, s.B
        s.SL = s.sums('SL', lambda i,k: B.mv(A.ent(i,k), vapp('Y',(A.col(i,k),),B.nv)))
        s.Y = vspec('Y', B.nv, lambda i: [(TRUE, B.sub(s.D.at0(i), s.SL(i,A.DG(i))))])
        q = lambda i,k: sub(sub(A.LEN(i),I(1)),k)
        s.SU = s.sums('SU', lambda i,k: B.mv(A.ent(i,q(i,k)), vapp('Z',(A.col(i,q(i,k)),),B.nv)))
        s.Z = vspec('Z', B.nv, lambda i: [(TRUE, B.mv(A.ent(i,A.DG(i)), B.sub(s.Y(i), s.SU(i,q(i,A.DG(i))))))])
        eng.call_function(st, eng.mod.get(s.fn), [A.ptr(), s.X.ptr(), s.D.ptr()])
    def invariants(s, eng, v):
        A, B = s.A, s.B; out = []; k = v.k[-1]; outer = v.k[0]
        if len(v.k) == 1:
            if (s.X.data.name,'f0') in v.lc.info.mods: s.vecforms(v, out, s.X.data, [('Y',s.Y),('Z',s.Z)], [('Y',s.Y)])
        else:
            for nm,i in (('',outer),('rev ',sub(sub(s.n,outer),I(1)))):
                out.append((nm+'k<=diag', le(k,A.DG(i)))); out.append((nm+'k<=len-1-diag', le(k,sub(sub(A.LEN(i),I(1)),A.DG(i)))))
                s.accs(v, out, [(nm+'d-SL',B.sub(s.D.at0(i),s.SL(i,k))), (nm+'Y-SU',B.sub(s.Y(i),s.SU(i,k))), (nm+'SL',s.SL(i,k)), (nm+'SU',s.SU(i,k))])
        return out
    def post(s, eng, st, ret):
        for c in range(s.B.nv): eng.require(st, 'v.%d is the solution of the two triangular systems' % c, eq(s.X.at_st(st,s.p)[c], s.Z(s.p)[c]))
class CRSBack(Base):
    def setup(s, eng, st):
        s.common(eng, st); B = s.B; L = lambda f: layout(eng,'crs_'+f); s.tri = {}; last = sub(s.n,I(1))
        for nm in ('lower','upper'):
            nnz = var(nm+'.nnz','I'); eng.assume(st, le(I(0),nnz)); RP = lambda i, nm=nm: app(nm+'.rp',(lift(i,'I'),),'I')
            def rowfacts(e, st_, i, val, RP=RP, nnz=nnz): return [implies(and_(le(I(0),j),lt(j,s.n)), and_(le(I(0),RP(j)),le(RP(j),RP(add(j,I(1)))),le(RP(add(j,I(1))),nnz))) for j in (i, sub(i,I(1)))]
            rows = eng.region(nm+'.rows', stride=8, length=add(s.n,I(1)), readonly=True); rows.fields = {0: Field('f0','I',facts=rowfacts)}; st.mem[(rows,'f0')] = mk('fun', (nm+'.rp',), 'AI')
            vals = eng.region(nm+'.vals', stride=8*B.nm, length=nnz, readonly=True, fields={o: Field('f%d' % o,'R') for o in s.bc})
            J = arr(nm+'.cols.f0','I')
            def colfacts(e, st_, t, val, RP=RP, rows=rows, nnz=nnz, nm=nm):
                out = [implies(and_(le(I(0),t),lt(t,nnz)), and_(le(I(0),val),lt(val,s.n)))]
                for i in list(dict.fromkeys(i for r,f,i in st_.idx if r is rows)):
                    out.append(implies(and_(le(I(0),i),lt(i,s.n),le(RP(i),t),lt(t,RP(add(i,I(1))))), lt(val,i) if nm == 'lower' else lt(sub(last,i),val)))
                return out
            cols = eng.region(nm+'.cols', stride=8, length=nnz, readonly=True, fields={0: Field('f0','I',facts=colfacts)})
            h = eng.region(nm, stride=L('size'), readonly=True, length=I(1)); h.fields = {L('n'): Field('n','I')}
            st.mem[(h,'n')] = mk('mset', (arr(nm+'.n_','I'), I(0), I(1), s.n), 'AI')
            addvec(eng, st, h, L('rows'), 'r', rows, add(s.n,I(1))); addvec(eng, st, h, L('values'), 'v', vals, nnz); addvec(eng, st, h, L('cols'), 'c', cols, nnz)
            s.tri[nm] = (h, RP, lambda t, nm=nm: tuple(sel(arr('%s.vals.f%d' % (nm,o),'R'), t) for o in s.bc), lambda t, J=J: sel(J,t))
        s.inv = StdVec(eng, st, 'inv', comps=s.bc, length=s.n, readonly=True)
        (hl, s.RL, el, cl), (hu, s.RU, eu, cu) = s.tri['lower'], s.tri['upper']
        s.SL = s.sums('SL', lambda i,k: B.mv(el(add(s.RL(i),k)), vapp('Y',(cl(add(s.RL(i),k)),),B.nv)))
        s.Y = vspec('Y', B.nv, lambda i: [(TRUE, B.sub(s.D.at0(i), s.SL(i,sub(s.RL(add(i,I(1))),s.RL(i)))))])
        s.SU = s.sums('SU', lambda i,k: B.mv(eu(add(s.RU(i),k)), vapp('Z',(cu(add(s.RU(i),k)),),B.nv)))     # i counts from the last row
        s.Z = vspec('Z', B.nv, lambda r: [(TRUE, B.mv(s.inv.at0(sub(last,r)), B.sub(s.Y(r), s.SU(sub(last,r), sub(s.RU(add(sub(last,r),I(1))),s.RU(sub(last,r)))))))])
        eng.call_function(st, eng.mod.get(s.fn), [Ptr(hl,I(0)), Ptr(hu,I(0)), s.inv.ptr(), s.X.ptr(), s.D.ptr()])
    def invariants(s, eng, v):
        B = s.B; out = []; k = v.k[-1]; i = v.k[0]
        if len(v.k) == 1:
            if (s.X.data.name,'f0') in v.lc.info.mods: s.vecforms(v, out, s.X.data, [('Y',s.Y),('Z',s.Z)], [('Y',s.Y)])
        else:
            r = sub(sub(s.n,I(1)),i)
            for nm,i in (('',i),('rev ',r)):
                s.accs(v, out, [(nm+'d-SL',B.sub(s.D.at0(i),s.SL(i,k))), (nm+'Y-SU',B.sub(s.Y(sub(sub(s.n,I(1)),i)),s.SU(i,k))), (nm+'SL',s.SL(i,k)), (nm+'SU',s.SU(i,k))])
        return out
    def on_throw(s, eng, st): eng.require(st, 'no exception is thrown', FALSE)
    post = ILUBack.post
class ILDLBack(Base):
    def setup(s, eng, st):
        s.common(eng, st); A, B = s.A, s.B; s.lower = 'lower' in s.op
        if s.lower:
            A.extra = None
        s.SL = s.sums('SL', lambda i,k: B.mv(A.ent(i,k), vapp('Y',(A.col(i,k),),B.nv)))
        s.Y = vspec('Y', B.nv, lambda i: [(TRUE, B.sub(s.D.at0(i), s.SL(i,A.DG(i))))])
        s.W = vspec('W', B.nv, lambda i: [(TRUE, B.mv(A.ent(i,A.DG(i)), s.Y(i)))])
        def T(q, m, k):           # component of block q after m complete rows (from the last) and k entries of the next one
            m1 = sub(m,I(1)); k1 = sub(k,I(1)); r = sub(sub(s.n,I(1)),m); r1 = sub(s.n,m)
            prev = vapp('T',(q,m,k1),B.nv); sc = B.mtv(A.ent(r,k1), vapp('T',(r,m,I(0)),B.nv))
            return [(and_(le(k,I(0)),le(m,I(0))), s.W(q)), (and_(le(k,I(0)),lt(I(0),m)), vapp('T',(q,m1,A.DG(r1)),B.nv)),
                    (lt(I(0),k), tuple(sub(a, ite(eq(A.col(r,k1),q), b, R(0))) for a,b in zip(prev,sc)))]
        s.T = vspec('T', B.nv, T)
        args = [A.ptr(), s.X.ptr(), s.D.ptr()]
        if s.lower: s.lowfacts(eng, st)
        eng.call_function(st, eng.mod.get(s.fn), args)
    def lowfacts(s, eng, st):
        """lower triangular matrix: the diagonal is the last entry of every row"""
        A = s.A
        for f in A.rows.fields.values():
            of = f.facts
            def facts(e, st_, i, val, of=of): return of(e, st_, i, val) + [implies(and_(le(I(0),i),lt(i,s.n)), eq(A.DG(i), sub(A.LEN(i),I(1))))]
            f.facts = facts
    def invariants(s, eng, v):
        A, B = s.A, s.B; out = []; k = v.k[-1]; outer = v.k[0]; X = s.X.data
        if len(v.k) == 1:
            if (X.name,'f0') not in v.lc.info.mods: return out
            s.vecforms(v, out, X, [('Y',s.Y),('W',s.W)], [('Y',s.Y)])
            for c in range(B.nv): s.quant(out, 'T.%d' % c, X, c, lambda vw,q,c=c: eq(vw.eng.rd(vw.st,X,'f%d' % (8*c),q), s.T(q,vw.k[0],I(0))[c]))
        else:
            for nm,i in (('',outer),('rev ',sub(sub(s.n,outer),I(1)))):
                out.append((nm+'k<=diag', le(k,A.DG(i)))); out += searchcands(v, A, i, A.DG(i), nm)
                s.accs(v, out, [(nm+'d-SL',B.sub(s.D.at0(i),s.SL(i,k)))])
                for c in range(B.nv):
                    s.quant(out, nm+'row.%d' % c, X, c, lambda vw,q,c=c,i=i: implies(le(q,i), eq(vw.eng.rd(vw.st,X,'f%d' % (8*c),q), ite(eq(q,i), sub(s.D.at0(i)[c],s.SL(i,k)[c]), s.Y(q)[c]))))
                    s.quant(out, nm+'Y below.%d' % c, X, c, lambda vw,q,c=c,i=i: implies(lt(q,i), eq(vw.eng.rd(vw.st,X,'f%d' % (8*c),q), s.Y(q)[c])))
                    out.append((nm+'v[i].%d' % c, eq(s.X.at(v,i)[c], sub(s.D.at0(i)[c],s.SL(i,k)[c]))))
            r = sub(sub(s.n,I(1)),outer)
            for c in range(B.nv):
                out.append(('T(r,m,k)=T(r,m,0).%d' % c, eq(s.T(r,outer,k)[c], s.T(r,outer,I(0))[c])))
                s.quant(out, 'T inner.%d' % c, X, c, lambda vw,q,c=c: eq(vw.eng.rd(vw.st,X,'f%d' % (8*c),q), s.T(q,vw.k[0],vw.k[-1])[c]))
        return out
    def post(s, eng, st, ret):
        for c in range(s.B.nv): eng.require(st, 'v.%d is the solution of L D L^T v = d' % c, eq(s.X.at_st(st,s.p)[c], s.T(s.p,s.n,I(0))[c]))
class DILUBack(Base):
    def setup(s, eng, st):
        s.common(eng, st); A, B = s.A, s.B; s.I = StdVec(eng, st, 'Dinv', comps=s.bc, length=s.n, readonly=True)
        s.SL = s.sums('SL', lambda i,k: B.mv(A.ent(i,k), vapp('Y',(A.col(i,k),),B.nv)))
        s.Y = vspec('Y', B.nv, lambda i: [(TRUE, B.mv(s.I.at0(i), B.sub(s.D.at0(i), s.SL(i,A.DG(i)))))])
        q = lambda i,k: sub(sub(A.LEN(i),I(1)),k)
        s.SU = s.sums('SU', lambda i,k: B.mv(A.ent(i,q(i,k)), vapp('Z',(A.col(i,q(i,k)),),B.nv)))
        s.Z = vspec('Z', B.nv, lambda i: [(TRUE, B.sub(s.Y(i), B.mv(s.I.at0(i), s.SU(i,q(i,A.DG(i))))))])
        eng.call_function(st, eng.mod.get(s.fn), [A.ptr(), s.I.ptr(), s.X.ptr(), s.D.ptr()])
    def invariants(s, eng, v):
        out = ILUBack.invariants(s, eng, v)
        if len(v.k) == 1:
            for h in s.heaps:
                reg = eng.regions.get(h)
                if reg is not None and (reg.name,'f0') in v.lc.info.mods: s.vecforms(v, out, reg, [('copy',s.I.at0)], [], nc=s.B.nm)
        return out
    post = ILUBack.post
def binv(B, A):
    """inverse block"""
    if B.r == 1: return cdiv((R(1),)+(R(0),)*(B.w-1), A, B.cx)
    det = inv(sub(mul(A[0],A[3]), mul(A[1],A[2])))
    return (mul(A[3],det), neg(mul(A[1],det)), neg(mul(A[2],det)), mul(A[0],det))
class DILUDec(Base):
    def setup(s, eng, st):
        s.common(eng, st, vecs=False); A, B = s.A, s.B; s.I = StdVec(eng, st, 'Dinv', comps=s.bc, length=s.n)
        def probes(e, st_):
            ks = e.allks(st_); out = []
            if len(ks) >= 2:
                for i in (ks[0], sub(sub(s.n,ks[0]),I(1))): out.append((A.col(i,ks[1]), i))
            return out
        A.probes = probes
        z = (R(0),)*B.nm
        def S(i, k):
            k1 = sub(k,I(1)); j = A.col(i,k1); lb = A.LB(j,i); t = B.mm(B.mm(A.ent(i,k1), vapp('F',(j,),B.nm)), A.ent(j,lb))
            return [(le(k,I(0)), z), (lt(I(0),k), tuple(add(a, ite(A.MEM(j,i), b, R(0))) for a,b in zip(vapp('S',(i,k1),B.nm), t)))]
        s.S = vspec('S', B.nm, S)
        s.piv = lambda i, k: tuple(sub(a,b) for a,b in zip(A.ent(i,A.DG(i)), s.S(i,k)))
        s.F = vspec('F', B.nm, lambda i: [(TRUE, binv(B, s.piv(i,A.DG(i))))])
        eng.call_function(st, eng.mod.get(s.fn), [A.ptr(), s.I.ptr()])
    def invariants(s, eng, v):
        A, B = s.A, s.B; out = []; k = v.k[-1]; outer = v.k[0]; reg = s.I.data; dia = lambda q: A.ent(q,A.DG(q))
        if len(v.k) == 1:
            if (reg.name,'f0') in v.lc.info.mods: s.vecforms(v, out, reg, [('dia',dia),('F',s.F)], [('dia',dia)], nc=B.nm)
        elif len(v.k) == 2:
            i = outer
            out.append(('k<=diag', le(k,A.DG(i)))); out += searchcands(v, A, i, A.DG(i))
            for anm, ph in vecphis(v, B.nm):
                for c in range(B.nm): out.append(('%s = piv.%d' % (anm,c), eq(ph, s.piv(i,k)[c])))
            for c in range(B.nm):
                s.quant(out, 'row.%d' % c, reg, c, lambda vw,q,c=c: eq(vw.eng.rd(vw.st,reg,'f%d' % (8*c),q), ite(lt(q,vw.k[0]), s.F(q)[c], ite(eq(q,vw.k[0]), s.piv(q,vw.k[1])[c], dia(q)[c]))))
        else:
            i, t = v.k[0], v.k[1]; j = A.col(i,t); out += searchcands(v, A, j, A.LB(j,i), 'lb ')
        return out
    def post(s, eng, st, ret):
        for c in range(s.B.nm): eng.require(st, 'Dinv.%d is the inverse DILU pivot' % c, eq(s.I.at_st(st,s.p)[c], s.F(s.p)[c]))
def contracts(tier):
    out = []
    for v in VARIANTS:
        cs = [ILUBack('ilu_back',v), CRSBack('crs_back',v), ILDLBack('ildl_back',v), ILDLBack('ildl_back_lower',v), DILUDec('dilu_dec',v)]
        if v >= 2: cs.append(DILUBack('dilu_back',v))
        out.append(('drivers/c07.cc', ['VARIANT=%d' % v], cs))
    return out
