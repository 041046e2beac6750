"""C06: triangular solves and relaxation sweeps satisfy their defining equations."""
from vc.common import *
from vc.terms import *
LEVEL = 'proof'
NOTE = ('All block triangular and diagonal solves and the four sweeps of gsetc.hh for scalar, complex, FieldMatrix<1,1> and FieldMatrix<2,2> entries, all sizes, patterns with stored diagonal and values. '
        'Trusts clang lowering, the VC generator, real arithmetic, invertible diagonal blocks, no aliasing of v and d.')
BOUNDED = 'the same solves and sweeps, also nested block matrices with two block levels and 3x3 blocks, MultiTypeBlockMatrix sweeps and the apply of the Jacobi, Gauss-Seidel, SOR and SSOR preconditioners, on random matrices'
ASSUMPTIONS = ['every row stores its diagonal entry, columns strictly increasing (C04), diagonal blocks invertible', 'block types covered: double, complex<double>, FieldMatrix<double,1,1>, FieldMatrix<double,2,2>']
VARIANTS = {0:('double',1,False), 1:('complex<double>',1,True), 2:('FieldMatrix<double,1,1>',1,False), 3:('FieldMatrix<double,2,2>',2,False)}
SOLVES = ['bltsolve','ubltsolve','butsolve','ubutsolve','bdsolve']
SWEEPS = ['dbgs','bsorf','bsorb','dbjac']
class Solve(Contract):
    def __init__(s, fn, variant):
        s.what, s.r, s.cx = VARIANTS[variant]; s.fn = 'c_'+fn; s.op = fn.split('_')[0]; s.name = '%s<%s>' % (fn, s.what)
        s.relax = s.op in SWEEPS or '_w' in fn; s.unit = s.op.startswith('u'); s.upper = s.op in ('butsolve','ubutsolve'); s.diagonly = s.op == 'bdsolve'; s.sweep = s.op in SWEEPS
        s.opts = dict(depth=2); s.cost = 3 if s.r == 2 else 1
    def setup(s, eng, st):
        B = s.B = Blk(s.r, s.cx); w = B.w
        A = s.A = BCRS(eng, st, 'A', comps=tuple(8*i for i in range(B.nm)), square=True, diag=True)
        X = s.X = Vec(eng, st, 'v', comps=tuple(8*i for i in range(B.nv)), n=A.n)
        D = s.D = Vec(eng, st, 'd', comps=tuple(8*i for i in range(B.nv)), n=A.n, readonly=True)
        args = [A.ptr(), X.ptr(), D.ptr()]; s.heaps = []
        if s.relax:
            al = eng.region('w', stride=8*w, readonly=True, length=I(1), fields={8*i: Field('f%d' % (8*i),'R') for i in range(w)}); args.append(Ptr(al, I(0)))
            s.w = tuple(sel(eng.getarr(st, al, 'f%d' % (8*i)), I(0)) for i in range(w))
        else: s.w = (R(1),)+(R(0),)*(w-1)
        p = s.p = var('p','I'); eng.assume(st, le(I(0),p)); eng.assume(st, lt(p,A.n))
        x0 = X.at0; V = lambda q: vapp('V', (q,), B.nv)
        def val(i, k):
            c = A.col(i,k)
            if s.sweep:
                n, o = V(c), x0(c)
                if s.op == 'dbjac': return o
                if s.op == 'dbgs': return tuple(ite(lt(k,A.DG(i)), a, ite(eq(k,A.DG(i)), R(0), b)) for a,b in zip(n,o))
                if s.op == 'bsorf': return tuple(ite(lt(k,A.DG(i)), a, b) for a,b in zip(n,o))
                return tuple(ite(lt(A.DG(i),k), a, b) for a,b in zip(n,o))
            return V(c)
        def S(i, k):
            k1 = sub(k,I(1)); q = sub(sub(A.LEN(i),I(1)),k1) if s.upper else k1
            return [(le(k,I(0)), B.zero()), (lt(I(0),k), B.add(vapp('S', (i,k1), B.nv), B.mv(A.ent(i,q), val(i,q))))]
        s.S = vspec('S', B.nv, S)
        def row(i):
            end = I(0) if s.diagonly else sub(sub(A.LEN(i),I(1)),A.DG(i)) if s.upper else A.LEN(i) if s.sweep else A.DG(i)
            r = B.sub(D.at0(i), s.S(i,end)); y = r if s.unit else B.solve(A.ent(i,A.DG(i)), r)
            if s.op == 'dbgs': return y
            y = B.scale(s.w, y)
            return B.add(x0(i), y) if s.sweep else y
        s.V = vspec('V', B.nv, lambda i: [(TRUE, row(i))])
        s.J = lambda i: B.solve(A.ent(i,A.DG(i)), B.sub(D.at0(i), s.S(i,A.LEN(i))))
        one_w = (sub(R(1),s.w[0]),)+tuple(neg(x) for x in s.w[1:])
        s.final = (lambda q: B.add(B.scale(s.w, s.V(q)), B.scale(one_w, x0(q)))) if s.op == 'dbgs' else s.V
        s.forms = {'x0': x0, 'V': s.V}
        if s.op == 'dbgs': s.forms['wV'] = lambda q: B.scale(s.w, s.V(q)); s.forms['F'] = s.final
        if s.op == 'dbjac': s.forms['J'] = s.J
        eng.call_function(st, eng.mod.get(s.fn), args)
    def alloc(s, eng, st, r, n):
        b = 8*s.B.nv; q, rem = eng.divmod(n, I(b)); r.stride = b; r.length = q; r.fields = {8*i: Field('f%d' % (8*i),'R') for i in range(s.B.nv)}
        if r.name not in s.heaps: s.heaps.append(r.name)
    def invariants(s, eng, v):
        B, A = s.B, s.A; out = []; ks = v.k; k = ks[-1]; outer = ks[0]
        if len(ks) == 1:
            regs = [s.X.data] + [eng.regions[h] for h in s.heaps if h in eng.regions]
            pairs = [('V','x0')] + ([('wV','V'),('F','wV')] if s.op == 'dbgs' else []) + ([('J','x0')] if s.op == 'dbjac' else [])
            for reg in regs:
                if (reg.name,'f0') not in v.lc.info.mods: continue
                if reg is not s.X.data:
                    for c in range(B.nv):
                        def body(vw, q, reg=reg, c=c): return implies(and_(le(I(0),q), lt(q,vw.k[0]), lt(q,A.n)), eq(vw.eng.rd(vw.st, reg, 'f%d' % (8*c), q), s.forms['x0'](q)[c]))
                        out.append(('copied %s.%d' % (reg.name[-12:],c), dict(terms=s.terms(reg), body=body)))
                for a,b in pairs:
                    for back in (0,1):
                        for c in range(B.nv):
                            def body(vw, q, reg=reg, a=a, b=b, back=back, c=c):
                                K = vw.k[0]; done = le(sub(A.n,K),q) if back else lt(q,K)
                                return implies(and_(le(I(0),q), lt(q,A.n)), eq(vw.eng.rd(vw.st, reg, 'f%d' % (8*c), q), ite(done, s.forms[a](q)[c], s.forms[b](q)[c])))
                            out.append(('all %s.%d %s/%s %s' % (reg.name[-12:],c,a,b,'back' if back else 'fwd'), dict(terms=s.terms(reg), body=body)))
        else:
            if s.diagonly:
                for nm,i in (('',outer),('rev ',sub(sub(A.n,outer),I(1)))): out += searchcands(v, A, i, A.DG(i), nm)
                return out
            n1 = sub(sub(A.n,outer),I(1)); dirs = [('', outer), ('rev ', n1)]
            for nm,i in dirs:
                g = A.DG(i)
                out.append((nm+'k<=diag', le(k, g))); out.append((nm+'k<=len-1-diag', le(k, sub(sub(A.LEN(i),I(1)),g))))
                for anm, ph in vecphis(v, B.nv):
                    for c in range(B.nv):
                        for snm, kk in (('S(k)',k),('S(dg+k)',add(g,k)),('S(dg+1+k)',add(add(g,I(1)),k))):
                            if kk is not k and not s.sweep: continue
                            out.append(('%s%s = d-%s.%d' % (nm,anm,snm,c), eq(ph, sub(s.D.at0(i)[c], s.S(i,kk)[c]))))
                            out.append(('%s%s = %s.%d' % (nm,anm,snm,c), eq(ph, s.S(i,kk)[c])))
        return out
    def terms(s, reg):
        return lambda eng, st: list(dict.fromkeys([i for r,f,i in st.idx if r is reg]+[s.p]))
    def post(s, eng, st, ret):
        f = s.final(s.p); now = s.X.at_st(st, s.p)
        for c in range(s.B.nv): eng.require(st, '%s: component %d of every entry solves its defining equation' % (s.op,c), eq(now[c], f[c]))
def contracts(tier):
    out = []
    for v in VARIANTS:
        fns = []
        if v >= 2: fns += [f+x for f in SOLVES for x in ('','_w','_l','_wl')]
        fns += [f+x for f in SWEEPS for x in ('','_l')]
        out.append(('drivers/c06.cc', ['VARIANT=%d' % v], [Solve(f, v) for f in fns]))
    return out
