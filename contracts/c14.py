"""C14: block diagonal and block tridiagonal matrices are solved and inverted exactly."""
from vc.common import *
from vc.terms import *
LEVEL = 'proof'
NOTE = ('BDMatrix::solve, BDMatrix::invert and BTDMatrix::solve (Thomas elimination) for double, complex, FieldMatrix<1,1> and FieldMatrix<2,2> entries, all sizes >= 1, all entries with invertible pivots, all right hand sides. '
        'Trusts clang lowering, the VC generator, real arithmetic, the pattern the constructors build (bounded part) and x not aliasing the right hand side.')
BOUNDED = 'construction (constructors, setSize after earlier use, initializer list), pattern, solve, invert and the unchanged operands for scalar, complex, 2x2 and 3x3 blocks of random sizes'
ASSUMPTIONS = ['row i of a block diagonal matrix stores exactly column i, row i of a block tridiagonal matrix exactly the columns i-1, i, i+1 below N()', 'pivots met by elimination are invertible', 'fewer than 2^31 rows']
VARIANTS = {0:('double',1,False), 1:('complex<double>',1,True), 2:('FieldMatrix<double,1,1>',1,False), 3:('FieldMatrix<double,2,2>',2,False)}
class Band(Contract):
    def __init__(s, op, variant):
        s.what, s.r, s.cx = VARIANTS[variant]; s.fn = 'c_'+op; s.op = op; s.opts = dict(depth=3, **(dict(intfirst=True) if op == 'btd_solve' else {})); s.name = '%s<%s>' % (op, s.what); s.cost = 4 if s.r == 2 else 1; s.tri = op.startswith('btd')
    def setup(s, eng, st):
        B = s.B = Blk(s.r, s.cx); s.heaps = []; vc_, mc = tuple(8*i for i in range(B.nv)), tuple(8*i for i in range(B.nm))
        A = s.A = BCRS(eng, st, 'A', comps=mc, square=True, readonly=s.op != 'bd_invert')
        n = A.n; s.init = {o: eng.getarr(st, A.vals, 'f%d' % o) for o in mc}
        eng.assume(st, le(I(1),n)); eng.assume(st, lt(n,I(2**31)))
        low = lambda i: ite(lt(I(0),i), I(1), I(0)); up = lambda i: ite(lt(add(i,I(1)),n), I(1), I(0))
        s.low = low
        if s.tri: lenf = lambda i: add(I(1),low(i),up(i)); colf = lambda i,k: add(sub(i,low(i)),k)
        else: lenf = lambda i: I(1); colf = lambda i,k: i
        inrow = lambda i: and_(le(I(0),i), lt(i,n))
        for f in A.rows.fields.values():
            f.facts = lambda e, st_, i, v, of=f.facts: of(e, st_, i, v) + [implies(inrow(i), eq(A.LEN(i), lenf(i)))] + ([implies(and_(inrow(i),inrow(s.p),ne(i,s.p)), ne(A.P(i),A.P(s.p)))] if not s.tri else [])
        def cf(e, st_, t, v, of=A.cols.fields[0].facts):
            out = of(e, st_, t, v)
            own = [a[0].args[1] for a in T.poly(t) if len(a) == 1 and a[0].op == 'app' and a[0].args[0] == 'A.P']
            for i in own or list(dict.fromkeys(i for r,f,i in st_.idx if r is A.rows)):
                k = sub(t, A.P(i)); out.append(implies(and_(inrow(i), le(I(0),k), lt(k,A.LEN(i))), eq(v, colf(i,k))))
            return out
        A.cols.fields[0].facts = cf
        p = s.p = var('p','I'); eng.assume(st, le(I(0),p)); eng.assume(st, lt(p,n))
        args = [A.ptr()]
        if s.op != 'bd_invert':
            X = s.X = Vec(eng, st, 'x', comps=vc_, n=n); D = s.D = Vec(eng, st, 'b', comps=vc_, n=n, readonly=True); args += [X.ptr(), D.ptr()]
        eng.assume(st, and_(A.rowfact(p), eq(A.LEN(p), lenf(p))))
        lo = lambda i: A.ent(i, I(0)); di = lambda i: A.ent(i, low(i)); ri = lambda i: A.ent(i, add(low(i),I(1)))
        s.lo, s.di, s.ri = lo, di, ri
        if s.tri:
            pvt = lambda i: tuple(ite(le(i,I(0)), a, b) for a,b in zip(di(i), B.sub(di(i), B.mm(lo(i), vapp('C',(sub(i,I(1)),),B.nm)))))
            s.pvt = pvt
            rhs = lambda i: B.sub(D.at0(i), B.mv(lo(i), vapp('D',(sub(i,I(1)),),B.nv)))
            inv_ = lambda i, m: B.inv(m)
            def C(i):
                return [(le(i,I(0)), B.mm(B.inv(di(i)), ri(i))), (lt(I(0),i), B.mm(B.inv(B.sub(di(i), B.mm(lo(i), vapp('C',(sub(i,I(1)),),B.nm)))), ri(i)))]
            def Dd(i):
                return [(le(i,I(0)), B.mv(B.inv(di(i)), D.at0(i))), (lt(I(0),i), B.mv(B.inv(B.sub(di(i), B.mm(lo(i), vapp('C',(sub(i,I(1)),),B.nm)))), rhs(i)))]
            def Xx(i):
                return [(le(sub(n,I(1)),i), vapp('D',(i,),B.nv)), (lt(i,sub(n,I(1))), B.sub(vapp('D',(i,),B.nv), B.mv(vapp('C',(i,),B.nm), vapp('X',(add(i,I(1)),),B.nv))))]
            s.C = vspec('C', B.nm, C); s.Dd = vspec('D', B.nv, Dd); s.Xx = vspec('X', B.nv, Xx)
        eng.call_function(st, eng.mod.get(s.fn), args)
    def alloc(s, eng, st, r, n):
        b = 8*s.B.nv; b2 = 8*s.B.nm
        q, rem = eng.divmod(n, I(b))
        kind = 'v' if not s.heaps or s.heaps[0] == r.name else 'm'
        comps = s.B.nv if kind == 'v' else s.B.nm; b = 8*comps
        q, rem = eng.divmod(n, I(b)); r.stride = b; r.length = q; r.fields = {8*i: Field('f%d' % (8*i),'R') for i in range(comps)}
        if r.name not in s.heaps: s.heaps.append(r.name)
    def invariants(s, eng, v):
        out = []; B, A = s.B, s.A; ks = v.k; k = ks[0]
        if not s.tri:
            if len(ks) == 1:
                reg = A.vals if s.op == 'bd_invert' else s.X.data
                at = A.P(s.p) if s.op == 'bd_invert' else s.p
                old = tuple(sel(s.init[o], at) for o in A.comps) if s.op == 'bd_invert' else s.X.at0(s.p)
                for c,(o,f) in enumerate(zip(old, s.final())): out.append(('rows below.%d' % c, eq(v.eng.rd(v.st, reg, 'f%d' % (8*c), at), ite(lt(s.p,k), f, o))))
            else: out += searchcands(v, A, k, I(0))
            return out
        if len(ks) > 1:
            last = [i for r,f,i in v.st.idx if r is A.rows][-1:]
            for i,tag in [(i,'last ') for i in last]:
                for q,t2 in ((I(0),'lo '),(s.low(i),'diag '),(add(s.low(i),I(1)),'right ')): out += searchcands(v, A, i, q, tag+t2)
            return out
        n = A.n; n1 = sub(n,I(1))
        regs = [s.X.data] + [eng.regions[h] for h in s.heaps if h in eng.regions]
        for reg in regs:
            if (reg.name,'f0') not in v.lc.info.mods: continue
            isx, isd = reg is s.X.data, bool(s.heaps) and reg.name == s.heaps[0]
            for c in range(len(reg.fields)):
                if isx: forms = [('X', lambda vw,q,c=c,reg=reg: implies(lt(sub(sub(n,I(2)),vw.k[0]),q), eq(vw.eng.rd(vw.st,reg,'f%d' % (8*c),q), s.Xx(q)[c])))]
                elif isd: forms = [('copied', lambda vw,q,c=c,reg=reg: implies(lt(q,vw.k[0]), eq(vw.eng.rd(vw.st,reg,'f%d' % (8*c),q), s.D.at0(q)[c]))),
                                   ('D/b', lambda vw,q,c=c,reg=reg: eq(vw.eng.rd(vw.st,reg,'f%d' % (8*c),q), ite(le(q,vw.k[0]), s.Dd(q)[c], s.D.at0(q)[c])))]
                else: forms = [('zero', lambda vw,q,c=c,reg=reg: implies(lt(q,vw.k[0]), eq(vw.eng.rd(vw.st,reg,'f%d' % (8*c),q), R(0)))),
                               ('copied', lambda vw,q,c=c,reg=reg: implies(and_(lt(q,vw.k[0]),lt(q,n1)), eq(vw.eng.rd(vw.st,reg,'f%d' % (8*c),q), s.ri(q)[c]))),
                               ('C/right', lambda vw,q,c=c,reg=reg: implies(lt(q,n1), eq(vw.eng.rd(vw.st,reg,'f%d' % (8*c),q), ite(le(q,vw.k[0]), s.C(q)[c], s.ri(q)[c]))))]
                both = sum((eng.regions[h].name,'f0') in v.lc.info.mods for h in s.heaps if h in eng.regions) > 1
                for nm,f in forms:
                    if nm != 'X' and ('/' in nm) != both: continue
                    def body(vw, q, f=f): return implies(and_(le(I(0),q), lt(q,n)), f(vw,q))
                    out.append(('%s.%d %s' % (reg.name[-12:],c,nm), dict(terms=s.terms(reg), body=body)))
        return out
    def terms(s, reg):
        return lambda eng, st: list(dict.fromkeys([i for r,f,i in st.idx if r is reg]+[s.p, add(s.p,I(1)), sub(s.p,I(1))]))
    def final(s):
        if s.op == 'bd_solve': return s.B.solve(s.A.ent(s.p,I(0)), s.D.at0(s.p))
        return s.B.inv(tuple(sel(s.init[o], s.A.P(s.p)) for o in s.A.comps))
    def post(s, eng, st, ret):
        B, A, p = s.B, s.A, s.p
        if s.op == 'bd_invert':
            for c,f in enumerate(s.final()): eng.require(st, 'entry %d of every diagonal block is that of the inverse' % c, eq(eng.rd(st, A.vals, 'f%d' % (8*c), A.P(p)), f))
            return
        now = s.X.at_st(st, p)
        f = s.Xx(p) if s.tri else s.final()
        for c in range(B.nv): eng.require(st, 'component %d of the solution' % c, eq(now[c], f[c]))
        if s.tri:
            # the eliminated system solves A x = b; the lemmas are proved in Lemma for all reals
            n = A.n; n1 = sub(n,I(1)); Z, ZM = B.zero(), (R(0),)*B.nm
            st.pc = [f for f in (le(I(0),p), lt(p,n))]; st.quants = []
            P = s.pvt(p); eng.assume(st, B.nonsing(P)); pm, pp = sub(p,I(1)), add(p,I(1)); xs = s.Xx
            for first in (0,1):
                for last in (0,1):
                    case = [eq(p,I(0)) if first else lt(I(0),p), eq(p,n1) if last else lt(p,n1)]
                    st2 = st.copy()
                    for c in case: eng.assume(st2, c)
                    lo = ZM if first else s.lo(p); cm = ZM if first else s.C(pm); dm = Z if first else s.Dd(pm)
                    r = ZM if last else s.ri(p); c_ = ZM if last else s.C(p); xp = Z if last else xs(pp)
                    xm = Z if first else xs(pm)
                    Pc = s.di(p) if first else B.sub(s.di(p), B.mm(lo, cm))
                    eng.assume(st2, B.nonsing(Pc))
                    rhs = s.D.at0(p) if first else B.sub(s.D.at0(p), B.mv(lo, dm))
                    if not last: lemma_inverse_m(lambda h,g: eng.assume(st2, implies(h,g)), B, Pc, r, c_)
                    lemma_inverse_v(lambda h,g: eng.assume(st2, implies(h,g)), B, Pc, rhs, s.Dd(p))
                    lemma_row(lambda h,g: eng.assume(st2, implies(h,g)), B, lo, cm, dm, Pc, c_, s.Dd(p), xp, xs(p), xm, s.di(p), r, s.D.at0(p))
                    lhs = B.mv(s.di(p), xs(p))
                    if not first: lhs = B.add(lhs, B.mv(lo, xm))
                    if not last: lhs = B.add(lhs, B.mv(r, xp))
                    for c in range(B.nv): eng.require(st2, 'row p of A x = b, component %d (first row %d, last row %d)' % (c,first,last), eq(lhs[c], s.D.at0(p)[c]))
        else:
            eng.assume(st, B.nonsing(A.ent(p,I(0))))
            for c,l in enumerate(B.mv(A.ent(p,I(0)), f)): eng.require(st, 'row p of A x = b, component %d' % c, eq(l, s.D.at0(p)[c]))
def veq(x, y): return and_(*[eq(a,b) for a,b in zip(x,y)])
def lemma_inverse_m(emit, B, P, r, C): emit(and_(B.nonsing(P), veq(C, B.mm(B.inv(P), r))), veq(B.mm(P,C), r))
def lemma_inverse_v(emit, B, P, b, D): emit(and_(B.nonsing(P), veq(D, B.mv(B.inv(P), b))), veq(B.mv(P,D), b))
def lemma_row(emit, B, lo, cm, dm, P, C, D, xp, x, xm, dg, r, b):
    emit(and_(veq(dg, B.add(P, B.mm(lo,cm))), veq(r, B.mm(P,C)), veq(b, B.add(B.mv(P,D), B.mv(lo,dm))), veq(x, B.sub(D, B.mv(C,xp))), veq(xm, B.sub(dm, B.mv(cm,x)))),
         veq(B.add(B.add(B.mv(lo,xm), B.mv(dg,x)), B.mv(r,xp)), b))
class Lemma(Contract):
    """the algebra behind the elimination, for arbitrary real or complex blocks"""
    def __init__(s, variant):
        s.what, s.r, s.cx = VARIANTS[variant]; s.name = 'elimination lemmas<%s>' % s.what; s.fn = 'c_btd_solve'; s.cost = 1
    def setup(s, eng, st):
        B = Blk(s.r, s.cx); V = lambda n: tuple(var('%s%d' % (n,i),'R') for i in range(B.nv)); M = lambda n: tuple(var('%s%d' % (n,i),'R') for i in range(B.nm))
        def emit(nm):
            def f(h, g):
                for i,x in enumerate(g.args if g.op == 'and' else (g,)):
                    st2 = st.copy()
                    for y in h.args if h.op == 'and' else (h,): eng.assume(st2, y)
                    eng.require(st2, '%s, component %d' % (nm,i), x)
            return f
        P = M('P'); C = B.mm(B.inv(P), M('r')); D = B.mv(B.inv(P), V('b'))
        lemma_inverse_m(emit('P P^-1 r = r'), B, P, M('r'), C); lemma_inverse_v(emit('P P^-1 b = b'), B, P, V('b'), D)
        lo, cm, dm, C, D, xp = M('lo'), M('cm'), V('dm'), M('C'), V('D'), V('xp')
        x = B.sub(D, B.mv(C,xp)); xm = B.sub(dm, B.mv(cm,x))
        lemma_row(emit('row equation'), B, lo, cm, dm, P, C, D, xp, x, xm, B.add(P, B.mm(lo,cm)), B.mm(P,C), B.add(B.mv(P,D), B.mv(lo,dm)))
def contracts(tier):
    return [('drivers/c14.cc', ['VARIANT=%d' % v], [Band(o, v) for o in ('bd_solve','bd_invert','btd_solve') if v < 3 or o != 'btd_solve' or tier == 'thorough'] + [Lemma(v)]) for v in VARIANTS]
