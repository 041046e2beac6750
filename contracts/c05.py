"""C05: block vector arithmetic is entrywise; products and norms are the defining sums and maxima."""
from vc.common import *
from vc.terms import *
from vc import solve
LEVEL = 'proof'
NOTE = ('Every listed operation of BlockVector (double, complex, FieldVector blocks), VariableBlockVector and MultiTypeBlockVector, all lengths and values. '
        'Constructors, resize and copies are exercised by the bounded part only. Trusts clang lowering, the VC generator, real arithmetic, no aliasing of x and y.')
BOUNDED = 'construction, resizing, copies, moves, block windows and iteration of BlockVector and VariableBlockVector on random histories'
ASSUMPTIONS = ['hypot/cabs and sqrt are the mathematical functions', 'the two vectors have equal lengths (documented precondition)']
# variant: (name, list of (components per entry, complex))
VARIANTS = {0:('BlockVector<double>',[1],False), 1:('BlockVector<complex>',[1],True), 2:('BlockVector<FieldVector<double,3>>',[3],False),
            3:('BlockVector<FieldVector<complex,2>>',[2],True), 4:('VariableBlockVector<FieldVector<double,2>>',[2],False), 5:('MultiTypeBlockVector<BV<double>,BV<FV<double,2>>>',[1,2],False),
            6:('MultiTypeBlockVector<BV<complex>,BV<FV<complex,2>>>',[1,2],True), 7:('VariableBlockVector<FieldVector<complex,1>>',[1],True)}
ELEM = ['assign','iadd','isub','imul','idiv','axpy']
RED = ['tdot','dot','one','oner','two','two2','inf','infr','dim']
def cmul(a, b, cx):
    if not cx: return (mul(a[0],b[0]),)
    return (sub(mul(a[0],b[0]),mul(a[1],b[1])), add(mul(a[0],b[1]),mul(a[1],b[0])))
def cdiv(a, b, cx):
    if not cx: return (mul(a[0],inv(b[0])),)
    d = inv(add(mul(b[0],b[0]),mul(b[1],b[1])))
    return (mul(add(mul(a[0],b[0]),mul(a[1],b[1])),d), mul(sub(mul(a[1],b[0]),mul(a[0],b[1])),d))
def rabs(x): return ite(le(R(0),x), x, neg(x))
def cabs(z, cx): return app('hypot', tuple(z), 'R') if cx else rabs(z[0])
class Part:
    """one homogeneous vector"""
    def __init__(s, blk, w, data, n, init): s.blk, s.w, s.data, s.n, s.init = blk, w, data, n, init
class Op(Contract):
    def __init__(s, op, variant):
        s.op, s.variant = op, variant; s.what, s.blks, s.cx = VARIANTS[variant]; s.w = 2 if s.cx else 1
        s.name = '%s::%s' % (s.what, {'assign':'operator=(scalar)','iadd':'operator+=','isub':'operator-=','imul':'operator*=','idiv':'operator/=','axpy':'axpy','tdot':'operator*','dot':'dot',
              'one':'one_norm','oner':'one_norm_real','two':'two_norm','two2':'two_norm2','inf':'infinity_norm','infr':'infinity_norm_real','dim':'dim'}[op]); s.fn = 'c_'+op
    def vec(s, eng, st, name, ns, readonly):
        if s.variant not in (5,6):
            v = Vec(eng, st, name, comps=tuple(8*i for i in range(s.blks[0]*s.w)), n=ns[0] if ns else None, readonly=readonly)
            return v.ptr(), [v], [v.n]
        off = []
        for i in range(2):
            f = eng.mod.get('c_off%d' % i); eng.mod.load(f); off.append(f.blocks[0].instrs[-1].ops[0].v)
        on, op = layout(eng,'vec_n'), layout(eng,'vec_p')
        h = eng.region(name, stride=layout(eng,'mt_size'), readonly=True, length=I(1)); h.fields = {}
        vs = []
        for i,b in enumerate(s.blks):
            v = Vec(eng, st, name+str(i), comps=tuple(8*c for c in range(b*s.w)), n=ns[i] if ns else None, readonly=readonly)
            h.fields[off[i]+on] = Field('n%d' % i,'I'); h.fields[off[i]+op] = Field('p%d' % i,'I',target=v.data.name)
            st.mem[(h,'n%d' % i)] = mk('mset', (arr(name+'.n%d_' % i,'I'), I(0), I(1), v.n), 'AI')
            st.mem[(h,'p%d' % i)] = mk('mset', (arr(name+'.p%d_' % i,'I'), I(0), I(1), I(0)), 'AI')
            vs.append(v)
        return Ptr(h, I(0)), vs, [v.n for v in vs]
    def setup(s, eng, st):
        w = s.w; op = s.op
        xp, s.X, ns = s.vec(eng, st, 'x', None, op not in ELEM)
        args = [xp]
        if op in ('assign','imul','idiv','axpy'):
            al = eng.region('alpha', stride=8*w, readonly=True, length=I(1), fields={8*i: Field('f%d' % (8*i),'R') for i in range(w)})
            s.al = tuple(sel(eng.getarr(st, al, 'f%d' % (8*i)), I(0)) for i in range(w)); args.append(Ptr(al, I(0)))
            if op == 'idiv': eng.assume(st, or_(*[ne(a, R(0)) for a in s.al]))
        if op in ('iadd','isub','axpy','tdot','dot'):
            yp, s.Y, _ = s.vec(eng, st, 'y', ns, True); args.append(yp)
        if op in RED:
            k = w if op in ('tdot','dot') else 1
            s.out = eng.region('out', stride=8*k, length=I(1), fields={8*i: Field('f%d' % (8*i),'I' if op=='dim' else 'R') for i in range(k)}); args.append(Ptr(s.out, I(0)))
            s.S = []
            for part,X in enumerate(s.X): s.S.append([s.mkspec(part, c) for c in range(k)])
        s.p = var('p','I'); eng.assume(st, le(I(0),s.p))
        eng.call_function(st, eng.mod.get(s.fn), args)
    def ent(s, V, part, i):
        x = V[part].at0(i); w = s.w
        return [x[c*w:c*w+w] for c in range(s.blks[part])]
    def mkspec(s, part, c):
        op = s.op; cx = s.cx; nm = 'S%d_%d' % (part,c); sort = 'I' if op == 'dim' else 'R'
        def term(i):
            xs = s.ent(s.X, part, i)
            if op == 'dim': return I(s.blks[part])
            t = R(0)
            if op in ('tdot','dot'):
                for a,b in zip(xs, s.ent(s.Y, part, i)):
                    if op == 'dot' and cx: a = (a[0], neg(a[1]))
                    t = add(t, cmul(a,b,cx)[c])
            elif op == 'one':
                for a in xs: t = add(t, cabs(a,cx))
            elif op == 'oner':
                for a in xs:
                    for z in a: t = add(t, rabs(z))
            elif op in ('two','two2'):
                for a in xs:
                    for z in a: t = add(t, mul(z,z))
            return t
        def mx(m, xs):
            for a in xs:
                v = cabs(a,cx) if op == 'inf' else add(*[rabs(z) for z in a]) if cx else rabs(a[0])
                m = ite(lt(m,v), v, m)
            return m
        def unf(t, k):
            k1 = sub(k,I(1)); prev = app(nm, (k1,), sort)
            if op in ('inf','infr'): nxt = mx(prev, s.ent(s.X, part, k1)); extra = [le(R(0),t), le(R(0),prev)]
            else: nxt = add(prev, term(k1)); extra = []
            return [implies(le(k,I(0)), eq(t, const(0,sort))), implies(lt(I(0),k), eq(t, nxt))] + extra
        return spec(nm, sort, unf)
    def final(s, part, p):
        """expected components of x[p]"""
        out = []; cx = s.cx; xs = s.ent(s.X, part, p); ys = s.ent(s.Y, part, p) if s.op in ('iadd','isub','axpy') else None
        for i,x in enumerate(xs):
            if s.op == 'assign': r = s.al
            elif s.op == 'iadd': r = [add(a,b) for a,b in zip(x,ys[i])]
            elif s.op == 'isub': r = [sub(a,b) for a,b in zip(x,ys[i])]
            elif s.op == 'imul': r = cmul(x, s.al, cx)
            elif s.op == 'idiv': r = cdiv(x, s.al, cx)
            else: r = [add(a,b) for a,b in zip(x, cmul(s.al, ys[i], cx))]
            out += list(r)
        return out
    def invariants(s, eng, v):
        out = []; k = v.k[-1]
        if s.op in ELEM:
            p = s.p
            for part,X in enumerate(s.X):
                now = X.at(v, p); f = s.final(part, p); old = X.at0(p)
                for c in range(len(now)):
                    out.append(('x%d[p].%d done below k' % (part,c), eq(now[c], ite(lt(p,k), f[c], old[c]))))
                    out.append(('x%d[p].%d done above n-k' % (part,c), eq(now[c], ite(le(sub(X.n,k),p), f[c], old[c]))))
        else:
            for nm, ph in v.phis.items():
                if not isinstance(ph, Term) or ph.sort not in ('R','I'): continue
                for part in range(len(s.X)):
                    for c,S in enumerate(s.S[part]):
                        if (s.op == 'dim') != (ph.sort == 'I'): continue
                        bases = [const(0,ph.sort)] + [S2[c](s.X[j].n) for j,S2 in enumerate(s.S[:part])]
                        for bi,b in enumerate(bases): out.append(('%s = %d+S%d.%d' % (nm,bi,part,c), eq(ph, add(b, S(k)))))
                        out.append(('%s = max S%d.%d' % (nm,part,c), eq(ph, ite(lt(bases[-1],S(k)),S(k),bases[-1]))))
                if ph.sort == 'R': out += [('%s>=1' % nm, le(R(1), ph)), ('%s>=0' % nm, le(R(0), ph))]
        return out
    def post(s, eng, st, ret):
        if s.op in ELEM:
            for part,X in enumerate(s.X):
                s2 = st.copy(); eng.assume(s2, le(I(0),s.p)); eng.assume(s2, lt(s.p,X.n))
                now = X.at_st(s2, s.p); f = s.final(part, s.p)
                for c in range(len(now)): eng.require(s2, 'x%d[p].%d has the entrywise value' % (part,c), eq(now[c], f[c]))
            return
        for c in range(len(s.S[0])):
            r = eng.rd(st, s.out, 'f%d' % (8*c), I(0)); vals = [S[c](X.n) for S,X in zip(s.S,s.X)]
            tot = vals[0]
            for v in vals[1:]: tot = ite(lt(tot,v),v,tot) if s.op in ('inf','infr') else add(tot,v)
            if s.op == 'two':
                eng.require(st, 'two_norm^2 = sum of squares', or_(lt(tot,R(0)), eq(mul(r,r), tot)))
                eng.require(st, 'two_norm >= 0', or_(lt(tot,R(0)), le(R(0), r)))
            else: eng.require(st, 'result.%d is the defining sum/maximum' % c, eq(r, tot))
def contracts(tier):
    return [('drivers/c05.cc', ['VARIANT=%d' % v], [Op(o, v) for o in ELEM+RED]) for v in VARIANTS]
