"""C01: sparse matrix-vector products of BCRSMatrix."""
from vc.common import *
from vc.terms import *

LEVEL = 'proof'
NOTE = 'Every product method, for all sizes, patterns and values, five entry types; z3 discharges each obligation generated from the compiled source. Trusts clang lowering, the VC generator, real-number arithmetic, non-aliasing arguments and the matrix representation invariant.'
BOUNDED = 'executable form of the same contracts on random matrices (up to 140 rows) against explicit sums; no function relies on it alone'
EXPLANATION = 'all eleven products under contract for five entry types; every obligation discharged for all sizes, patterns and values'
ASSUMPTIONS = ['BCRSMatrix representation invariant: row windows lie in the value/index arrays, column indices < M() (established by the building interface, C04)',
 'entry types covered: double, complex<double>, FieldMatrix<double,2,3>, FieldMatrix<double,1,1>, FieldMatrix<complex<double>,2,2>']
VARIANTS = {0:('double',1,1,False), 1:('complex<double>',1,1,True), 2:('FieldMatrix<double,2,3>',2,3,False),
            3:('FieldMatrix<double,1,1>',1,1,False), 4:('FieldMatrix<complex,2,2>',2,2,True)}
OPS = ['mv','umv','mmv','usmv','mtv','umtv','mmtv','usmtv','umhv','mmhv','usmhv']

def cmul(a, b, cx):
    if not cx: return (mul(a[0],b[0]),)
    return (sub(mul(a[0],b[0]),mul(a[1],b[1])), add(mul(a[0],b[1]),mul(a[1],b[0])))

class Product(Contract):
    def __init__(s, op, variant):
        s.op = op; s.variant = variant; s.what, s.br, s.bc, s.cx = VARIANTS[variant]
        s.name = 'BCRSMatrix<%s>::%s' % (s.what, op); s.fn = 'c_' + op
        s.trans = op.endswith('tv') or op.endswith('hv'); s.conj = op.endswith('hv')
        s.scaled = op.startswith('us'); s.sign = -1 if op.startswith('mm') else 1
        s.zero = op in ('mv','mtv')
    def setup(s, eng, st):
        w = 2 if s.cx else 1
        s.w = w
        A = s.A = BCRS(eng, st, 'A', comps=tuple(8*i for i in range(s.br*s.bc*w)))
        xb, yb = (s.br, s.bc) if s.trans else (s.bc, s.br)
        s.xb, s.yb = xb, yb
        X = s.X = Vec(eng, st, 'x', comps=tuple(8*i for i in range(xb*w)), n=(A.n if s.trans else A.m), readonly=True)
        Y = s.Y = Vec(eng, st, 'y', comps=tuple(8*i for i in range(yb*w)), n=(A.m if s.trans else A.n))
        args = [A.ptr()]
        if s.scaled:
            al = eng.region('alpha', stride=8*w, readonly=True, length=I(1), fields={8*i: Field('f%d' % (8*i),'R') for i in range(w)})
            s.alpha = tuple(sel(eng.getarr(st, al, 'f%d' % (8*i)), I(0)) for i in range(w))
            args.append(Ptr(al, I(0)))
        args += [X.ptr(), Y.ptr()]
        p = s.p = var('p','I'); eng.assume(st, le(I(0),p)); eng.assume(st, lt(p, Y.n))
        # contribution of entry (row i, position k) to the components of y
        def entry(i, k):
            e = A.ent(i, k); return [[e[(r*s.bc+c)*w:(r*s.bc+c)*w+w] for c in range(s.bc)] for r in range(s.br)]
        def contrib(i, k, comp):
            E = entry(i, k); xv = X.at0(i) if s.trans else X.at0(A.col(i,k))
            tot = [R(0)]*w
            for d in range(xb):
                a = E[d][comp//w] if s.trans else E[comp//w][d]
                if s.conj and s.cx: a = (a[0], neg(a[1]))
                pr = cmul(a, xv[d*w:d*w+w], s.cx)
                if s.scaled: pr = cmul(s.alpha, pr, s.cx)
                tot = [add(t,q) for t,q in zip(tot,pr)]
            return tot[comp % w] if s.sign > 0 else neg(tot[comp % w])
        s.S = []
        for c in range(yb*w):
            if not s.trans:
                def unf(t, i, k, c=c):
                    prev = app('S%d' % c, (i, sub(k,I(1))), 'R')
                    return [implies(le(k,I(0)), eq(t, R(0))), implies(lt(I(0),k), eq(t, add(prev, contrib(i, sub(k,I(1)), c))))]
                s.S.append(spec('S%d' % c, 'R', unf))
            else:
                def unf(t, i, k, c=c):
                    n = 'T%d' % c; i1 = sub(i,I(1)); k1 = sub(k,I(1))
                    return [implies(and_(le(k,I(0)),le(i,I(0))), eq(t,R(0))),
                            implies(and_(le(k,I(0)),lt(I(0),i)), eq(t, app(n,(i1,A.LEN(i1)),'R'))),
                            implies(lt(I(0),k), eq(t, add(app(n,(i,k1),'R'), ite(eq(A.col(i,k1),s.p), contrib(i,k1,c), R(0)))))]
                s.S.append(spec('T%d' % c, 'R', unf))
        s.y0 = Y.at0(p)
        s.base = [R(0)]*(yb*w) if s.zero else list(s.y0)
        eng.call_function(st, eng.mod.get(s.fn), args)
    def invariants(s, eng, v):
        p = s.p; y = s.Y.at(v, p); ks = v.k; out = []
        n = s.yb*s.w
        if s.trans:
            if len(ks) == 1:
                i = ks[0]
                for b, base in (('y0',s.y0),('0',[R(0)]*n)):
                    for c in range(n):
                        out.append(('y.%d=%s+T(p,k1)' % (c,b), eq(y[c], add(base[c], s.S[c](i, 0)))))
                for c in range(n): out.append(('zero.%d' % c, eq(y[c], ite(lt(p,i), R(0), s.y0[c]))))
            else:
                i, k = ks[0], ks[1]
                for b, base in (('y0',s.y0),('0',[R(0)]*n)):
                    for c in range(n):
                        out.append(('y.%d=%s+T(p,k1,k2)' % (c,b), eq(y[c], add(base[c], s.S[c](i, k)))))
        else:
            fin = lambda c, i: add(s.base[c], s.S[c](p, s.A.LEN(p)))
            if len(ks) == 1:
                i = ks[0]
                for c in range(n):
                    out.append(('y.%d done below k1' % c, eq(y[c], ite(lt(p,i), fin(c,i), s.y0[c]))))
                    out.append(('y.%d done above n-k1' % c, eq(y[c], ite(le(sub(s.A.n,i),p), fin(c,i), s.y0[c]))))
                    out.append(('zero.%d' % c, eq(y[c], ite(lt(p,i), R(0), s.y0[c]))))
                    if s.zero: out.append(('y.%d done below k1, else 0' % c, eq(y[c], ite(lt(p,i), fin(c,i), R(0)))))
            else:
                i, k = ks[0], ks[1]; rev = sub(sub(s.A.n,i),I(1))
                for c in range(n):
                    for b, base in (('y0',s.y0),('0',[R(0)]*n)):
                        out.append(('y.%d row partial from %s' % (c,b), eq(y[c], ite(lt(p,i), fin(c,i), ite(eq(p,i), add(base[c], s.S[c](i,k)), s.y0[c])))))
                        out.append(('y.%d rev row partial from %s' % (c,b), eq(y[c], ite(lt(rev,p), fin(c,i), ite(eq(p,rev), add(base[c], s.S[c](rev,k)), s.y0[c])))))
                    if s.zero: out.append(('y.%d row partial, else 0' % c, eq(y[c], ite(lt(p,i), fin(c,i), ite(eq(p,i), s.S[c](i,k), R(0))))))
                    out.append(('y.%d untouched in row' % c, eq(y[c], ite(lt(p,i), fin(c,i), s.y0[c]))))
                    for nm, ph in v.phis.items():
                        if isinstance(ph, Term) and ph.sort == 'R':
                            out.append(('acc %s.%d' % (nm,c), eq(ph, s.S[c](i,k))))
                            out.append(('-acc %s.%d' % (nm,c), eq(ph, neg(s.S[c](i,k)))))
                            yi = s.Y.at0(i)
                            out.append(('acc y0 %s.%d' % (nm,c), eq(ph, add(yi[c], s.S[c](i,k)))))
                            if s.scaled and not s.cx:
                                pass
        return out
    def post(s, eng, st, ret):
        y = s.Y.at_st(st, s.p)
        for c in range(s.yb*s.w):
            want = add(s.base[c], s.S[c](s.A.n, 0) if s.trans else s.S[c](s.p, s.A.LEN(s.p)))
            eng.require(st, 'y[p].%d is the exact sum' % c, eq(y[c], want))
def contracts(tier):
    vs = [0,1,2,3,4]
    return [('drivers/c01.cc', ['VARIANT=%d' % v], [Product(o, v) for o in OPS]) for v in vs]
