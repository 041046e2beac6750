"""C02: dense Matrix, ScaledIdentityMatrix and MultiTypeBlockMatrix implement the maps of their names."""
from vc.common import *
from vc.terms import *
LEVEL = 'proof'
NOTE = ('All products of Matrix (double, complex, FieldMatrix<2,3>, FieldMatrix<complex,2,1>), ScaledIdentityMatrix and a 2x2 MultiTypeBlockMatrix (double, complex), Matrix transpose, matrix products, '
        'sums and scalings: all sizes and values. Trusts clang lowering, the VC generator, real arithmetic, no aliasing of x and y.')
BOUNDED = 'the same operations on random matrices including resizing, copies and MultiTypeBlockMatrix of BCRSMatrix blocks'
ASSUMPTIONS = ['multi-type block matrices: block types FieldMatrix (2x1, 2x2, 1x1, 1x2), double and complex']
OPS = ['mv','umv','mmv','usmv','mtv','umtv','mmtv','usmtv','umhv','mmhv','usmhv']
def cmul(a, b, cx):
    if not cx: return (mul(a[0],b[0]),)
    return (sub(mul(a[0],b[0]),mul(a[1],b[1])), add(mul(a[0],b[1]),mul(a[1],b[0])))
def cdiv(a, b, cx):
    if not cx: return (mul(a[0],inv(b[0])),)
    d = inv(add(mul(b[0],b[0]),mul(b[1],b[1])))
    return (mul(add(mul(a[0],b[0]),mul(a[1],b[1])),d), mul(sub(mul(a[1],b[0]),mul(a[0],b[1])),d))
def opinfo(s, op):
    s.trans = op.endswith('tv') or op.endswith('hv'); s.conj = op.endswith('hv')
    s.scaled = op.startswith('us'); s.sign = -1 if op.startswith('mm') else 1; s.zero = op in ('mv','mtv')
DENSE = {0:('double',1,1,False), 1:('complex',1,1,True), 2:('FieldMatrix<double,2,3>',2,3,False), 3:('FieldMatrix<complex,2,1>',2,1,True)}
SMALL = {10:('ScaledIdentityMatrix<double,3>',False), 11:('ScaledIdentityMatrix<complex,2>',True), 12:('MultiTypeBlockMatrix 2x2',False), 13:('MultiTypeBlockMatrix 2x2 complex',True)}
class DenseM:
    """Matrix<B>: data_{n,p,rows_,columns_}, cols_; entry (i,j) is element i*columns_+j."""
    def __init__(s, eng, st, name, ncomp, readonly=True, rows=None, cols=None):
        L = lambda f: layout(eng, 'mat_'+f)
        s.rows = rows or var(name+'.rows','I'); s.cols = cols or var(name+'.cols','I'); s.ncomp = ncomp; s.name = name
        s.data = eng.region(name+'.data', stride=8*ncomp, readonly=readonly, length=mul(s.rows,s.cols), fields={8*c: Field('f%d' % (8*c),'R') for c in range(ncomp)})
        s.init = [eng.getarr(st, s.data, 'f%d' % (8*c)) for c in range(ncomp)]
        h = s.head = eng.region(name, stride=L('size'), readonly=True, length=I(1))
        h.fields = {L('n'): Field('n','I'), L('p'): Field('p','I',target=s.data.name), L('rows'): Field('rows','I'), L('columns'): Field('columns','I'), L('cols'): Field('cols','I')}
        for f,v in (('n',mul(s.rows,s.cols)),('p',I(0)),('rows',s.rows),('columns',s.cols),('cols',s.cols)):
            st.mem[(h,f)] = mk('mset', (arr(name+'.'+f+'_','I'), I(0), I(1), v), 'AI')
        eng.assume(st, le(I(0),s.rows)); eng.assume(st, le(I(0),s.cols))
    def ptr(s): return Ptr(s.head, I(0))
    def idx(s, i, j): return add(mul(i,s.cols), j)
    def ent0(s, i, j): return [sel(a, s.idx(i,j)) for a in s.init]
    def ent(s, eng, st, i, j): return [eng.rd(st, s.data, 'f%d' % (8*c), s.idx(i,j)) for c in range(s.ncomp)]
def scalar(eng, st, w):
    al = eng.region('alpha', stride=8*w, readonly=True, length=I(1), fields={8*i: Field('f%d' % (8*i),'R') for i in range(w)})
    return Ptr(al, I(0)), tuple(sel(eng.getarr(st, al, 'f%d' % (8*i)), I(0)) for i in range(w))
class Product(Contract):
    def __init__(s, op, variant):
        s.op = op; s.what, s.br, s.bc, s.cx = DENSE[variant]; s.name = 'Matrix<%s>::%s' % (s.what, {'mvop':'operator*(Matrix,vector)'}.get(op,op)); s.fn = 'c_'+op; opinfo(s, op); s.w = 2 if s.cx else 1
        if op == 'mvop': s.zero = True
    def setup(s, eng, st):
        w = s.w; A = s.A = DenseM(eng, st, 'A', s.br*s.bc*w)
        xb, yb = (s.br, s.bc) if s.trans else (s.bc, s.br); s.xb, s.yb = xb, yb
        s.nsrc, s.ndst = (A.rows, A.cols) if s.trans else (A.cols, A.rows)
        X = s.X = Vec(eng, st, 'x', comps=tuple(8*i for i in range(xb*w)), n=s.nsrc, readonly=True); args = [A.ptr()]
        if s.scaled: ap, s.alpha = scalar(eng, st, w); args.append(ap)
        args.append(X.ptr())
        if s.op == 'mvop':
            s.Y = None; s.heap = None; s.R = eng.region('R', kind='cells'); st.cells[s.R] = {}; args.append(Ptr(s.R, I(0))); s.y0 = [R(0)]*(yb*w)
        else:
            s.Y = Vec(eng, st, 'y', comps=tuple(8*i for i in range(yb*w)), n=s.ndst); args.append(s.Y.ptr())
        p = s.p = var('p','I'); eng.assume(st, le(I(0),p)); eng.assume(st, lt(p, s.ndst))
        if s.Y: s.y0 = s.Y.at0(p)
        def contrib(d, q, comp):
            """contribution of source index q to component comp of destination entry d"""
            e = A.ent0(q,d) if s.trans else A.ent0(d,q); xv = X.at0(q); tot = [R(0)]*w
            for b in range(xb):
                r,c = (b, comp//w) if s.trans else (comp//w, b)
                a = e[(r*s.bc+c)*w:(r*s.bc+c)*w+w]
                if s.conj and s.cx: a = (a[0], neg(a[1]))
                pr = cmul(a, xv[b*w:b*w+w], s.cx)
                if s.scaled: pr = cmul(s.alpha, pr, s.cx)
                tot = [add(t,z) for t,z in zip(tot,pr)]
            return tot[comp % w] if s.sign > 0 else neg(tot[comp % w])
        s.contrib = contrib; s.S = []
        for c in range(yb*w):
            def unf(t, d, k, c=c):
                k1 = sub(k,I(1)); return [implies(le(k,I(0)), eq(t,R(0))), implies(lt(I(0),k), eq(t, add(app('S%d' % c, (d,k1), 'R'), contrib(d,k1,c))))]
            s.S.append(spec('S%d' % c, 'R', unf))
        s.base = [R(0)]*(yb*w) if s.zero else list(s.y0)
        eng.call_function(st, eng.mod.get(s.fn), args)
    def alloc(s, eng, st, r, n):
        q, rem = eng.divmod(n, I(8*s.yb*s.w)); r.stride = 8*s.yb*s.w; r.length = q; r.fields = {8*i: Field('f%d' % (8*i),'R') for i in range(s.yb*s.w)}; s.heap = r
    def now(s, eng, st, p):
        if s.Y: return s.Y.at_st(st, p)
        return [eng.rd(st, s.heap, 'f%d' % (8*c), p) for c in range(s.yb*s.w)]
    def invariants(s, eng, v):
        p = s.p; n = s.yb*s.w; out = []
        if s.Y is None and (s.heap is None or s.heap not in v.st.regions and s.heap.name not in eng.regions): return []
        y = s.now(eng, v.st, p); ks = v.k; K1 = ks[0]; fin = [add(s.base[c], s.S[c](p, s.nsrc)) for c in range(n)]
        bases = (('y0',s.y0),('0',[R(0)]*n)) if s.zero else (('y0',s.y0),)
        if len(ks) == 1:
            for c in range(n):
                out.append(('y.%d zeroed below' % c, or_(le(K1,p), eq(y[c],R(0))))); out.append(('y.%d zeroed up to k' % c, or_(lt(K1,p), eq(y[c],R(0))))); out.append(('y.%d zeroed' % c, eq(y[c],R(0))))
                out.append(('y.%d done below k1' % c, eq(y[c], ite(lt(p,K1), fin[c], s.y0[c]))))
                out.append(('y.%d done above n-k1' % c, eq(y[c], ite(le(sub(s.ndst,K1),p), fin[c], s.y0[c]))))
                out.append(('y.%d zero below' % c, eq(y[c], ite(lt(p,K1), R(0), s.y0[c]))))
                for b,base in bases: out.append(('y.%d = %s + S(k1)' % (c,b), eq(y[c], add(base[c], s.S[c](p,K1)))))
                if s.zero: out.append(('y.%d done below k1 else 0' % c, eq(y[c], ite(lt(p,K1), fin[c], R(0)))))
        else:
            K2 = ks[1]
            for c in range(n):
                for b,base in bases:
                    out.append(('y.%d %s dest-outer' % (c,b), eq(y[c], ite(lt(p,K1), fin[c], ite(eq(p,K1), add(base[c], s.S[c](K1,K2)), s.y0[c])))))
                    out.append(('y.%d %s dest-outer else 0' % (c,b), eq(y[c], ite(lt(p,K1), fin[c], ite(eq(p,K1), add(base[c], s.S[c](K1,K2)), R(0)))))) if s.zero else None
                    out.append(('y.%d %s source-outer' % (c,b), eq(y[c], add(base[c], s.S[c](p,K1), ite(lt(p,K2), s.contrib(p,K1,c), R(0))))))
                out.append(('y.%d untouched' % c, eq(y[c], ite(lt(p,K1), fin[c], s.y0[c]))))
                for nm, ph in v.phis.items():
                    if isinstance(ph, Term) and ph.sort == 'R':
                        out.append(('acc %s.%d' % (nm,c), eq(ph, s.S[c](K1,K2)))); out.append(('acc y0 %s.%d' % (nm,c), eq(ph, add(s.Y.at0(K1)[c] if s.Y else R(0), s.S[c](K1,K2)))))
        return [o for o in out if o]
    def post(s, eng, st, ret):
        if s.op == 'mvop':
            on, op = layout(eng,'vec_n'), layout(eng,'vec_p'); pp = st.cells[s.R].get(op)
            eng.require(st, 'result has N() entries', eq(st.cells[s.R].get(on), s.ndst))
            if not (isinstance(pp, Ptr) and pp.reg is s.heap and pp.off is I(0)): eng.require(st, 'result owns its array', FALSE); return
        y = s.now(eng, st, s.p)
        for c in range(s.yb*s.w): eng.require(st, 'y[p].%d is the exact sum' % c, eq(y[c], add(s.base[c], s.S[c](s.p, s.nsrc))))
class Arith(Contract):
    """+=, -=, *=, /= and scalar assignment of Matrix, entry (p,q) arbitrary"""
    def __init__(s, op, variant):
        s.op = op; s.what, s.br, s.bc, s.cx = DENSE[variant]; s.w = 2 if s.cx else 1; s.name = 'Matrix<%s>::%s' % (s.what, op); s.fn = 'c_'+op
    def setup(s, eng, st):
        A = s.A = DenseM(eng, st, 'A', s.br*s.bc*s.w, readonly=False); args = [A.ptr()]
        if s.op in ('iadd','isub'): s.B = DenseM(eng, st, 'B', s.br*s.bc*s.w, rows=A.rows, cols=A.cols); args.append(s.B.ptr())
        else:
            ap, s.al = scalar(eng, st, s.w); args.append(ap)
            if s.op == 'idiv': eng.assume(st, or_(*[ne(a, R(0)) for a in s.al]))
        s.p, s.q = var('p','I'), var('q','I')
        for f in (le(I(0),s.p), lt(s.p,A.rows), le(I(0),s.q), lt(s.q,A.cols)): eng.assume(st, f)
        eng.call_function(st, eng.mod.get(s.fn), args)
    def want(s):
        w = s.w; a = s.A.ent0(s.p,s.q); out = []
        for i in range(0, s.br*s.bc*w, w):
            x = a[i:i+w]
            if s.op == 'iadd': r = [add(u,v) for u,v in zip(x, s.B.ent0(s.p,s.q)[i:i+w])]
            elif s.op == 'isub': r = [sub(u,v) for u,v in zip(x, s.B.ent0(s.p,s.q)[i:i+w])]
            elif s.op == 'imul': r = cmul(x, s.al, s.cx)
            elif s.op == 'idiv': r = cdiv(x, s.al, s.cx)
            else: r = s.al
            out += list(r)
        return out
    def invariants(s, eng, v):
        k = v.k[-1]; o = s.A.ent0(s.p,s.q); n = s.A.ent(eng, v.st, s.p, s.q); w = s.want(); t = s.A.idx(s.p,s.q); out = []
        for c in range(len(o)):
            out.append(('entry.%d done below k' % c, eq(n[c], ite(lt(t,k), w[c], o[c]))))
            out.append(('entry.%d rows below k' % c, eq(n[c], ite(lt(s.p,v.k[0]), w[c], o[c]))))
            if len(v.k) == 2: out.append(('entry.%d row-wise' % c, eq(n[c], ite(or_(lt(s.p,v.k[0]), and_(eq(s.p,v.k[0]), lt(s.q,v.k[1]))), w[c], o[c]))))
        return out
    def post(s, eng, st, ret):
        n = s.A.ent(eng, st, s.p, s.q)
        for c,w in enumerate(s.want()): eng.require(st, 'entry (p,q).%d' % c, eq(n[c], w))
class Result(Contract):
    """transpose() and operator*(Matrix,Matrix): the new matrix has the right shape and entries"""
    def __init__(s, op, variant): s.op = op; s.what, s.br, s.bc, s.cx = DENSE[variant]; s.w = 2 if s.cx else 1; s.name = 'Matrix<%s>::%s' % (s.what, {'mm':'operator*(Matrix,Matrix)'}.get(op,op)); s.fn = 'c_'+op
    def setup(s, eng, st):
        A = s.A = DenseM(eng, st, 'A', s.w); args = [A.ptr()]; s.heap = None
        if s.op == 'mm': B = s.B = DenseM(eng, st, 'B', s.w, rows=A.cols); args.append(B.ptr()); s.shape = (A.rows, B.cols)
        else: s.shape = (A.cols, A.rows)
        s.R = eng.region('R', kind='cells'); st.cells[s.R] = {}; args.append(Ptr(s.R, I(0)))
        s.p, s.q = var('p','I'), var('q','I')
        for f in (le(I(0),s.p), lt(s.p,s.shape[0]), le(I(0),s.q), lt(s.q,s.shape[1])): eng.assume(st, f)
        if s.op == 'mm':
            s.S = []
            for c in range(s.w):
                def unf(t, k, c=c):
                    k1 = sub(k,I(1)); return [implies(le(k,I(0)), eq(t,R(0))), implies(lt(I(0),k), eq(t, add(app('S%d' % c, (k1,), 'R'), cmul(A.ent0(s.p,k1), B.ent0(k1,s.q), s.cx)[c])))]
                s.S.append(spec('S%d' % c, 'R', unf))
        eng.call_function(st, eng.mod.get(s.fn), args)
    def alloc(s, eng, st, r, n):
        q, rem = eng.divmod(n, I(8*s.w)); r.stride = 8*s.w; r.length = q; r.fields = {8*i: Field('f%d' % (8*i),'R') for i in range(s.w)}; s.heap = r
    def want(s): return [S(s.A.cols) for S in s.S] if s.op == 'mm' else s.A.ent0(s.q, s.p)
    def cur(s, eng, st): return [eng.rd(st, s.heap, 'f%d' % (8*c), add(mul(s.p, s.shape[1]), s.q)) for c in range(s.w)]
    def invariants(s, eng, v):
        if s.heap is None or s.heap.name not in eng.regions: return []
        n = s.cur(eng, v.st); w = s.want(); out = []; ks = v.k; t = add(mul(s.p, s.shape[1]), s.q)
        for c in range(s.w):
            if len(ks) == 1:
                out.append(('zeroed below k.%d' % c, or_(le(ks[0],t), eq(n[c],R(0)))))
                for a,nm in ((s.p,'row'),(s.q,'col')):
                    out.append(('%s below k.%d done' % (nm,c), or_(le(ks[0],a), eq(n[c],w[c])))); out.append(('%s below k.%d done, else 0' % (nm,c), eq(n[c],ite(lt(a,ks[0]),w[c],R(0)))))
            else:
                for (a,b),nm in (((s.p,s.q),'rows'),((s.q,s.p),'cols')):
                    done = or_(lt(a,ks[0]), and_(eq(a,ks[0]), lt(b,ks[1])))
                    out.append(('%s done.%d' % (nm,c), or_(not_(done), eq(n[c],w[c])))); out.append(('%s done.%d else 0' % (nm,c), eq(n[c], ite(done,w[c],R(0)))))
                    if len(ks) == 3 and s.op == 'mm': out.append(('%s partial.%d' % (nm,c), eq(n[c], ite(done,w[c], ite(and_(eq(a,ks[0]),eq(b,ks[1])), s.S[c](ks[2]), R(0))))))
                if len(ks) == 3 and s.op == 'mm':
                    for nm, ph in v.phis.items():
                        if isinstance(ph, Term) and ph.sort == 'R': out.append(('acc %s.%d' % (nm,c), or_(ne(s.p,ks[0]), ne(s.q,ks[1]), eq(ph, s.S[c](ks[2])))))
        return out
    def post(s, eng, st, ret):
        L = lambda f: layout(eng, 'mat_'+f); cs = st.cells[s.R]
        for f,v in (('n',mul(*s.shape)),('rows',s.shape[0]),('columns',s.shape[1]),('cols',s.shape[1])): eng.require(st, 'field %s of the result' % f, eq(cs[L(f)], v))
        pp = cs[L('p')]
        if not (isinstance(pp, Ptr) and pp.reg is not None): eng.require(st, 'result owns an array', FALSE); return
        eng.require(st, 'data pointer', eq(pp.off, I(0)))
        for c,w in enumerate(s.want()): eng.require(st, 'entry (p,q).%d of the result' % c, eq(s.cur(eng, st)[c], w))
class Small(Contract):
    """fixed-size classes: every component of the result"""
    def __init__(s, op, variant): s.op, s.variant = op, variant; s.what, s.cx = SMALL[variant]; s.w = 2 if s.cx else 1; s.name = '%s::%s' % (s.what, op); s.fn = 'c_'+op; opinfo(s, op)
    def off(s, eng, f):
        f = eng.mod.get(f); eng.mod.load(f); return f.blocks[0].instrs[-1].ops[0].v
    def comps(s, eng, which):
        """byte offsets of the scalar components, in mathematical order"""
        w = s.w
        if s.variant < 12: return [8*w*i for i in range(3 if s.variant == 10 else 2)]
        if which == 'x': return [s.off(eng,'c_x0')] + [s.off(eng,'c_x1')+8*w*i for i in range(2)]
        return [s.off(eng,'c_y0')+8*w*i for i in range(2)] + [s.off(eng,'c_y1')]
    def obj(s, eng, st, name, size, ro): return eng.region(name, stride=size, length=I(1), readonly=ro)
    def rd(s, eng, st, reg, off): 
        out = []
        for c in range(s.w):
            o = off+8*c
            if o not in reg.fields: reg.fields[o] = Field('f%d' % o,'R')
            out.append(eng.rd(st, reg, 'f%d' % o, I(0)))
        return tuple(out)
    def matrix(s, eng, st, reg):
        w = s.w; n = 3 if s.variant in (10,12,13) else 2
        if s.variant < 12:
            p = s.rd(eng, st, reg, 0); z = (R(0),)*w
            return [[p if i == j else z for j in range(n)] for i in range(n)], [[0 if i == j else None for j in range(n)] for i in range(n)]
        o = [[s.off(eng,'c_m%d%d' % (i,j)) for j in range(2)] for i in range(2)]; offs = []
        for i in range(3):
            bi, ri = (0,i) if i < 2 else (1,0); row = []
            for j in range(3):
                bj, cj, nc = (0,0,1) if j < 1 else (1,j-1,2); row.append(o[bi][bj] + 8*w*(ri*nc+cj))
            offs.append(row)
        return [[s.rd(eng, st, reg, c) for c in row] for row in offs], offs
    def setup(s, eng, st):
        op = s.op; w = s.w; prod = op in OPS or op == 'solve'
        for f in s.comps(eng,'x'): pass
        A = s.Ar = s.obj(eng, st, 'A', layout(eng,'M_size'), prod or op in ('fro2','exists')); s.A, s.offs = s.matrix(eng, st, A); args = [Ptr(A, I(0))]
        if op in OPS:
            if s.scaled: ap, s.alpha = scalar(eng, st, w); args.append(ap)
            nx, ny = ('y','x') if s.trans else ('x','y')
            X = s.obj(eng, st, 'x', layout(eng, nx.upper()+'_size'), True); Y = s.Yr = s.obj(eng, st, 'y', layout(eng, ny.upper()+'_size'), False); s.yo = s.comps(eng, ny)
            s.x = [s.rd(eng, st, X, o) for o in s.comps(eng, nx)]; s.y0 = [s.rd(eng, st, Y, o) for o in s.yo]; args += [Ptr(X,I(0)), Ptr(Y,I(0))]
        elif op == 'solve':
            Y = s.Yr = s.obj(eng, st, 'x', layout(eng,'X_size'), False); X = s.obj(eng, st, 'b', layout(eng,'X_size'), True); s.yo = s.comps(eng,'x'); s.x = [s.rd(eng, st, X, o) for o in s.yo]; [s.rd(eng, st, Y, o) for o in s.yo]
            args += [Ptr(Y,I(0)), Ptr(X,I(0))]; eng.assume(st, or_(*[ne(z,R(0)) for z in s.A[0][0]]))
        elif op in ('iadd','isub'): B = s.obj(eng, st, 'B', layout(eng,'M_size'), True); s.B, _ = s.matrix(eng, st, B); args.append(Ptr(B,I(0)))
        elif op in ('imul','idiv','assign','kadd','ksub'):
            ap, s.alpha = scalar(eng, st, w); args.append(ap)
            if op == 'idiv': eng.assume(st, or_(*[ne(a,R(0)) for a in s.alpha]))
        elif op == 'invert': eng.assume(st, ne(s.A[0][0][0],R(0)))
        elif op == 'exists':
            s.i, s.j = var('i','I'), var('j','I'); [eng.assume(st, le(I(0),z)) for z in (s.i,s.j)]
            s.out = eng.region('out', stride=8, length=I(1), fields={0: Field('f0','I')}); args += [s.i, s.j, Ptr(s.out,I(0))]
        eng.call_function(st, eng.mod.get(s.fn), args)
    def post(s, eng, st, ret):
        op = s.op
        if op in OPS or op == 'solve':
            for d,o in enumerate(s.yo):
                now = s.rd(eng, st, s.Yr, o)
                if op == 'solve': tot = cdiv(s.x[d], s.A[0][0], s.cx)
                else:
                    tot = [R(0)]*s.w
                    for q,xv in enumerate(s.x):
                        a = s.A[q][d] if s.trans else s.A[d][q]
                        if s.conj and s.cx: a = (a[0], neg(a[1]))
                        pr = cmul(a, xv, s.cx); pr = cmul(s.alpha, pr, s.cx) if s.scaled else pr; tot = [add(t,z) for t,z in zip(tot,pr)]
                    if s.sign < 0: tot = [neg(t) for t in tot]
                    if not s.zero: tot = [add(b,t) for b,t in zip(s.y0[d],tot)]
                for c in range(s.w): eng.require(st, 'y[%d].%d' % (d,c), eq(now[c], tot[c]))
        elif op == 'exists': eng.require(st, 'exists(i,j) iff i==j', eq(eng.rd(st, s.out, 'f0', I(0)), ite(eq(s.i,s.j), I(1), I(0))))
        else:
            for i,row in enumerate(s.offs):
                for j,o in enumerate(row):
                    if o is None: continue
                    now = s.rd(eng, st, s.Ar, o); a = s.A[i][j]
                    want = {'iadd': lambda: [add(x,y) for x,y in zip(a,s.B[i][j])], 'isub': lambda: [sub(x,y) for x,y in zip(a,s.B[i][j])], 'imul': lambda: cmul(a,s.alpha,s.cx),
                            'idiv': lambda: cdiv(a,s.alpha,s.cx), 'assign': lambda: s.alpha, 'kadd': lambda: [add(x,y) for x,y in zip(a,s.alpha)], 'ksub': lambda: [sub(x,y) for x,y in zip(a,s.alpha)],
                            'invert': lambda: [inv(a[0])]}[op]()
                    for c in range(s.w): eng.require(st, 'entry (%d,%d).%d' % (i,j,c), eq(now[c], want[c]))
def contracts(tier):
    out = []
    for v in DENSE:
        cs = [Product(o,v) for o in OPS] + [Arith(o,v) for o in ('iadd','isub','imul','idiv','assign')]
        if v < 2: cs += [Product('mvop',v), Result('transpose',v), Result('mm',v)]
        out.append(('drivers/c02.cc', ['VARIANT=%d' % v], cs))
    for v in SMALL:
        ops = OPS + ['iadd','isub','imul','idiv','assign']
        if v < 12: ops = ops + ['solve','kadd','ksub','exists'] + (['invert'] if v == 10 else [])
        out.append(('drivers/c02.cc', ['VARIANT=%d' % v], [Small(o,v) for o in ops]))
    return out
