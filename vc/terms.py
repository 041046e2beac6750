"""Hash-consed terms: Int/Real polynomials over atoms, Booleans, functional arrays."""
from fractions import Fraction
from math import gcd
_tab = {}
MAXMONO = 4000
class Term:
    __slots__ = ('op','args','sort','id')
    def __repr__(s): return show(s)
    # arithmetic sugar
    def __add__(a,b): return add(a, lift(b,a.sort))
    __radd__ = __add__
    def __sub__(a,b): return sub(a, lift(b,a.sort))
    def __rsub__(a,b): return sub(lift(b,a.sort), a)
    def __mul__(a,b): return mul(a, lift(b,a.sort))
    __rmul__ = __mul__
    def __neg__(a): return neg(a)
    def __truediv__(a,b): return mul(a, inv(lift(b,'R')))
    def __lt__(a,b): return lt(a, lift(b,a.sort))
    def __le__(a,b): return le(a, lift(b,a.sort))
    def __gt__(a,b): return lt(lift(b,a.sort), a)
    def __ge__(a,b): return le(lift(b,a.sort), a)
def mk(op, args, sort):
    k = (op, args, sort)
    t = _tab.get(k)
    if t is None:
        t = Term(); t.op, t.args, t.sort, t.id = op, args, sort, len(_tab); _tab[k] = t
    return t
def lift(x, sort):
    if isinstance(x, Term): return x
    return const(x, sort)
def const(c, sort='I'):
    if sort == 'R': c = Fraction(c)
    return mk('const', (c,), sort)
def I(c): return const(c,'I')
def R(c): return const(c,'R')
TRUE = mk('true', (), 'B'); FALSE = mk('false', (), 'B')
def var(name, sort): return mk('var', (name,), sort)
_fresh = [0]
def fresh(name, sort):
    _fresh[0] += 1
    return mk('var', ('%s!%d' % (name, _fresh[0]),), sort)
def poly(t):
    if t.op == 'poly': return dict(t.args)
    if t.op == 'const': return {(): t.args[0]} if t.args[0] != 0 else {}
    return {(t,): 1}
def mkpoly(d, sort):
    d = {m:c for m,c in d.items() if c != 0}
    if not d: return const(0, sort)
    if len(d) == 1:
        (m,c), = d.items()
        if m == (): return const(c, sort)
        if len(m) == 1 and c == 1: return m[0]
    return mk('poly', tuple(sorted(d.items(), key=lambda mc: tuple(a.id for a in mc[0]))), sort)
def add(a, b, *more):
    if more: return add(add(a, b), *more)
    if a.op == 'const' and a.args[0] == 0: return b
    if b.op == 'const' and b.args[0] == 0: return a
    d = poly(a)
    for m,c in poly(b).items(): d[m] = d.get(m,0) + c
    return mkpoly(d, a.sort)
def neg(a): return mkpoly({m:-c for m,c in poly(a).items()}, a.sort)
def sub(a, b): return add(a, neg(b))
def _mm(m, n): return tuple(sorted(m+n, key=lambda a: a.id))
CANCEL = [True]
def _cancel(m):
    """x * inv(x) -> 1 (side condition x != 0 is a stated assumption: divisions are by nonzero)."""
    if len(m) < 2 or not any(a.op == 'inv' for a in m): return m
    m = list(m); ch = True
    while ch:
        ch = False
        for a in m:
            if a.op == 'inv' and a.args[0] in m:
                m.remove(a); m.remove(a.args[0]); ch = True; break
    return tuple(m)
def mul(a, b):
    if a.op == 'const':
        c = a.args[0]
        if c == 0: return const(0, a.sort)
        if c == 1: return b
        return mkpoly({m:c*k for m,k in poly(b).items()}, a.sort)
    if b.op == 'const': return mul(b, a)
    if a.sort == 'I' :
        pass
    pa, pb = poly(a), poly(b)
    if len(pa)*len(pb) > MAXMONO:
        x, y = (a,b) if a.id <= b.id else (b,a)
        return mk('omul', (x,y), a.sort)
    d = {}
    for m,c in pa.items():
        for n,k in pb.items():
            mn = _mm(m,n)
            if a.sort == 'R': mn = _cancel(mn)
            d[mn] = d.get(mn,0) + c*k
    return mkpoly(d, a.sort)
def inv(a):
    if a.op == 'const':
        return R(1/Fraction(a.args[0])) if a.args[0] != 0 else mk('inv', (a,), 'R')
    if a.op == 'inv': return a.args[0]
    p = poly(a)
    if len(p) == 1:
        (m,c), = p.items()
        r = R(1/Fraction(c))
        for x in m: r = mul(r, x.args[0] if x.op == 'inv' else mk('inv',(x,),'R'))
        return r
    # canonical: leading coefficient 1
    c = a.args[0][1] if a.op == 'poly' else 1
    n = mkpoly({m:Fraction(k)/c for m,k in p.items()}, 'R')
    return mul(R(1/Fraction(c)), mk('inv', (n,), 'R'))
def app(f, args, sort): return mk('app', (f,)+tuple(args), sort)
def ite(c, a, b):
    if c is TRUE: return a
    if c is FALSE: return b
    if a is b: return a
    if a.sort == 'B': return or_(and_(c,a), and_(not_(c),b))
    return mk('ite', (c,a,b), a.sort)
# ---- booleans
def not_(a):
    if a is TRUE: return FALSE
    if a is FALSE: return TRUE
    if a.op == 'not': return a.args[0]
    if a.op == 'le' : # p<=0 -> p>0
        p = a.args[0]; return lt0(neg(p))
    if a.op == 'lt': return le0(neg(a.args[0]))
    return mk('not', (a,), 'B')
def and_(*xs):
    out = []
    for x in xs:
        if x is FALSE: return FALSE
        if x is TRUE: continue
        if x.op == 'and':
            for y in x.args:
                if y not in out: out.append(y)
        elif x not in out: out.append(x)
    if not out: return TRUE
    if len(out) == 1: return out[0]
    return mk('and', tuple(out), 'B')
def or_(*xs):
    out = []
    for x in xs:
        if x is TRUE: return TRUE
        if x is FALSE: continue
        if x.op == 'or':
            for y in x.args:
                if y not in out: out.append(y)
        elif x not in out: out.append(x)
    for x in out:
        if not_(x) in out: return TRUE
    if not out: return FALSE
    if len(out) == 1: return out[0]
    return mk('or', tuple(out), 'B')
def implies(a, b): return or_(not_(a), b)
def iff(a, b): return and_(or_(not_(a), b), or_(a, not_(b)))
def _gcdnorm(p, sort):
    return p
def le0(p):
    if p.op == 'const': return TRUE if p.args[0] <= 0 else FALSE
    return mk('le', (p,), 'B')
def lt0(p):
    if p.op == 'const': return TRUE if p.args[0] < 0 else FALSE
    if p.sort == 'I': return le0(add(p, I(1)))
    return mk('lt', (p,), 'B')
def eq0(p):
    if p.op == 'const': return TRUE if p.args[0] == 0 else FALSE
    d = poly(p); ms = sorted(d.items(), key=lambda mc: tuple(a.id for a in mc[0]))
    if p.sort == 'I':
        from math import gcd
        g = 0
        for m,c in ms:
            if m != (): g = gcd(g, abs(c))
        c0 = d.get((),0)
        if g > 1:
            if c0 % g: return FALSE
            p = mkpoly({m:c//g for m,c in d.items()}, 'I'); d = poly(p); ms = sorted(d.items(), key=lambda mc: tuple(a.id for a in mc[0]))
    lead = [c for m,c in ms if m != ()][0]
    if p.sort == 'R' and lead != 1: p = mkpoly({m:Fraction(c)/lead for m,c in d.items()}, 'R')
    elif lead < 0: p = neg(p)
    return mk('eq0', (p,), 'B')
def eq(a, b):
    if a is b: return TRUE
    if a.sort == 'B': return or_(and_(a,b), and_(not_(a),not_(b)))
    if a.sort != b.sort: raise TypeError('eq sorts %s %s' % (a,b))
    return eq0(sub(a,b))
def le(a, b): return le0(sub(a,b))
def lt(a, b): return lt0(sub(a,b))
def ge(a,b): return le(b,a)
def gt(a,b): return lt(b,a)
def ne(a,b): return not_(eq(a,b))
# ---- arrays (functional); elements sorts I/R
def arr(name, sort): return mk('arr', (name,), 'A'+sort)
def elsort(a): return a.sort[1:]
def store(a, i, v): return mk('store', (a,i,v), a.sort)
def bulk(a, lo, hi, src): return mk('bulk', (a,lo,hi,src), a.sort)   # src: ('const',v) term or ('copy',arr,delta)
def sel(a, i):
    while a.op == 'store':
        d = sub(i, a.args[1])
        if d.op == 'const':
            if d.args[0] == 0: return a.args[2]
            a = a.args[0]; continue
        return ite(eq(i, a.args[1]), a.args[2], sel(a.args[0], i))
    if a.op == 'fun': return app(a.args[0], (i,), elsort(a))
    if a.op in ('mset','mcpy','havocrange'):
        b, lo, hi = a.args[:3]
        g = and_(le(lo,i), lt(i,hi))
        v = a.args[3] if a.op == 'mset' else sel(a.args[3], sub(i,a.args[4])) if a.op == 'mcpy' else sel(a.args[3], i)
        if g is TRUE: return v
        return ite(g, v, sel(b, i))
    return mk('sel', (a,i), elsort(a))
def show(t, depth=12):
    if depth <= 0: return '...'
    s = lambda x: show(x, depth-1) if isinstance(x, Term) else str(x)
    o = t.op
    if o == 'const': return str(t.args[0])
    if o in ('var','arr'): return str(t.args[0])
    if o == 'poly': return '(' + ' + '.join('*'.join(([str(c)] if c != 1 or not m else []) + [s(a) for a in m]) for m,c in t.args) + ')'
    if o == 'sel': return '%s[%s]' % (s(t.args[0]), s(t.args[1]))
    if o == 'app': return '%s(%s)' % (t.args[0], ', '.join(s(a) for a in t.args[1:]))
    if o in ('le','lt'): return '(%s %s 0)' % (s(t.args[0]), '<=' if o=='le' else '<')
    if o == 'eq0': return '(%s = 0)' % s(t.args[0])
    return '%s(%s)' % (o, ', '.join(s(a) for a in t.args))
def subterms(ts):
    seen = set(); st = list(ts)
    while st:
        t = st.pop()
        if t in seen: continue
        seen.add(t)
        if t.op == 'poly':
            for m,c in t.args: st.extend(m)
        else:
            st.extend(a for a in t.args if isinstance(a, Term))
    return seen
def substitute(t, mp, cache=None):
    if cache is None: cache = {}
    if t in mp: return mp[t]
    r = cache.get(t)
    if r is not None: return r
    o = t.op; S = lambda x: substitute(x, mp, cache)
    if o in ('const','var','arr','true','false'): r = t
    elif o == 'poly':
        r = const(0, t.sort)
        for m,c in t.args:
            x = const(c, t.sort)
            for a in m: x = mul(x, S(a))
            r = add(r, x)
    elif o == 'omul': r = mul(S(t.args[0]), S(t.args[1]))
    elif o == 'inv': r = inv(S(t.args[0]))
    elif o == 'ite': r = ite(*[S(a) for a in t.args])
    elif o == 'sel': r = sel(S(t.args[0]), S(t.args[1]))
    elif o == 'not': r = not_(S(t.args[0]))
    elif o == 'and': r = and_(*[S(a) for a in t.args])
    elif o == 'or': r = or_(*[S(a) for a in t.args])
    elif o == 'le': r = le0(S(t.args[0]))
    elif o == 'lt': r = lt0(S(t.args[0]))
    elif o == 'eq0': r = eq0(S(t.args[0]))
    else: r = mk(o, tuple(S(a) if isinstance(a, Term) else a for a in t.args), t.sort)
    cache[t] = r
    return r
