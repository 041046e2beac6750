"""Discharge obligations: normal form, z3 (in process), cvc5 (binary, SMT-LIB2)."""
import z3, time, subprocess, os
from .terms import *
STAT = {'normal_form':0, 'z3':0, 'cvc5':0, 'time':0.0, 'queries':0, 'cross_ok':0, 'cross_unknown':0, 'cross_sat':0}
CROSS = False
class Ctx:
    def __init__(self, mode='uf'):
        self.mode = mode; self.cache = {}; self.extra = []; self.mulseen = set()
        self.rmul = z3.Function('rmul', z3.RealSort(), z3.RealSort(), z3.RealSort())
        self.imul = z3.Function('imul', z3.IntSort(), z3.IntSort(), z3.IntSort())
        self.rinv = z3.Function('rinv', z3.RealSort(), z3.RealSort())
        self.fns = {}
    def srt(self, s): return {'I':z3.IntSort(),'R':z3.RealSort(),'B':z3.BoolSort()}[s]
    def num(self, c, s):
        return z3.IntVal(int(c)) if s == 'I' else z3.RealVal(str(c))
    def mono(self, m, s):
        xs = [self.tr(a) for a in m]
        if self.mode == 'nra' or len(xs) == 1:
            r = xs[0]
            for x in xs[1:]: r = r*x
            return r
        f = self.rmul if s == 'R' else self.imul
        def pr(a, b):
            k = (a.get_id(), b.get_id(), s)
            if k not in self.mulseen:
                self.mulseen.add(k)
                if a.get_id() != b.get_id(): self.extra.append(f(a,b) == f(b,a))
            return f(a,b)
        if len(xs) == 2: return pr(xs[0], xs[1])
        if len(xs) == 3:
            a,b,c = xs
            r = f(a, pr(b,c)); k = ('t', a.get_id(), b.get_id(), c.get_id())
            if k not in self.mulseen:
                self.mulseen.add(k); self.extra += [r == f(b, pr(a,c)), r == f(c, pr(a,b))]
            return r
        r = xs[-1]
        for x in reversed(xs[:-1]): r = pr(x, r)
        return r
    def tr(self, t):
        r = self.cache.get(t)
        if r is None:
            r = self._tr(t); self.cache[t] = r
        return r
    def fn(self, name, args, res):
        k = (name, tuple(a.sort for a in args), res)
        if k not in self.fns:
            self.fns[k] = z3.Function('%s/%d' % (name, len(self.fns)), *([self.srt(a.sort) for a in args] + [self.srt(res)]))
        return self.fns[k]
    def _tr(self, t):
        o = t.op; a = t.args
        if o == 'const': return self.num(a[0], t.sort)
        if o == 'var': return z3.Const(a[0], self.srt(t.sort))
        if o == 'poly':
            parts = []
            for m,c in a:
                if m == (): parts.append(self.num(c, t.sort)); continue
                x = self.mono(m, t.sort)
                parts.append(x if c == 1 else self.num(c, t.sort)*x)
            return parts[0] if len(parts) == 1 else z3.Sum(parts)
        if o == 'omul': return self.mono((a[0],a[1]), t.sort)
        if o == 'true': return z3.BoolVal(True)
        if o == 'false': return z3.BoolVal(False)
        if o == 'not': return z3.Not(self.tr(a[0]))
        if o == 'and': return z3.And([self.tr(x) for x in a])
        if o == 'or': return z3.Or([self.tr(x) for x in a])
        if o == 'le': return self.tr(a[0]) <= 0
        if o == 'lt': return self.tr(a[0]) < 0
        if o == 'eq0': return self.tr(a[0]) == 0
        if o == 'ite': return z3.If(self.tr(a[0]), self.tr(a[1]), self.tr(a[2]))
        if o == 'inv':
            x = self.tr(a[0]); r = self.rinv(x)
            if self.mode == 'nra': self.extra.append(z3.Implies(x != 0, x*r == 1))
            return r
        if o == 'sel':
            ar = a[0]
            f = self.fn('arr_' + ar.args[0], [a[1]], t.sort) if ar.op == 'arr' else None
            return f(self.tr(a[1]))
        if o == 'app': return self.fn(a[0], a[1:], t.sort)(*[self.tr(x) for x in a[1:]]) if len(a) > 1 else z3.Const(a[0]+'()', self.srt(t.sort))
        if o == 'idiv': return self.tr(a[0]) / self.tr(a[1])
        if o == 'imod': return self.tr(a[0]) % self.tr(a[1])
        if o == 'toreal': return z3.ToReal(self.tr(a[0]))
        raise ValueError('tr ' + o)
SPECS = {}          # name -> unfold(args)->list of Bool terms
AXIOMS = {}         # app name -> fn(args) -> facts (non-recursive)
def instances(ts, depth=1):
    """Ground instances of the defining equations of the spec functions that occur."""
    out = []; done = set(); cur = list(ts)
    for d in range(depth):
        new = []
        for t in subterms(cur):
            if t.op == 'app' and t not in done and t.args[0] in SPECS:
                done.add(t); new += SPECS[t.args[0]](t, *t.args[1:])
        out += new; cur = new
        if not new: break
    return out
def productlemmas(ts):
    """Universally valid facts about the integer products that occur: monotonicity of t -> t*c for c >= 0."""
    ms = set()
    for t in subterms(ts):
        if t.op == 'poly' and t.sort == 'I':
            for m,c in t.args:
                if len(m) == 2: ms.add(m)
    ms = sorted(ms, key=lambda m: (m[0].id, m[1].id))[:16]; out = []
    for i,m in enumerate(ms):
        a,b = m
        out.append(implies(and_(le(I(0),a),le(I(0),b)), le(I(0),mul(a,b))))
        for n in ms[i+1:]:
            for c in set(m) & set(n):
                x = m[1] if m[0] is c else m[0]; y = n[1] if n[0] is c else n[0]
                if x is y: continue
                out.append(implies(and_(le(I(0),c),lt(x,y)), le(add(mul(x,c),c), mul(y,c))))
                out.append(implies(and_(le(I(0),c),lt(y,x)), le(add(mul(y,c),c), mul(x,c))))
                out.append(implies(eq(x,y), eq(mul(x,c),mul(y,c))))
    return out
def knownset(facts):
    """lower bounds of linear integer forms that are syntactically among the facts"""
    d = {}; eqs = set(facts)
    for f in facts:
        if f.op == 'le':
            p = poly(f.args[0]); c = p.pop((), 0); k = frozenset(p.items()); d[k] = max(d.get(k,-10**18), c)
    return d, eqs
def known(g, ks):
    d, eqs = ks
    if g is TRUE or g in eqs: return True
    if g.op == 'and': return all(known(x, ks) for x in g.args)
    if g.op == 'le':
        p = poly(g.args[0]); c = p.pop((), 0); b = d.get(frozenset(p.items()))
        return b is not None and c <= b
    return False
def intonly(t, memo={}):
    """only integer and Boolean structure at the top (no real comparisons)"""
    r = memo.get(t)
    if r is None:
        if t.op in ('and','or','not'): r = all(intonly(x) for x in t.args)
        elif t.op in ('le','lt','eq0'): r = t.args[0].sort == 'I'
        else: r = t.sort == 'B' and t.op in ('var','true','false')
        memo[t] = r
    return r
PATIENCE = 1      # factor on all time limits (second attempts)
def normalize(facts, goal, budget=2.0):
    """Resolve conditionals and guards that the integer facts decide and identify atoms f(a), f(b) whose integer arguments are provably equal."""
    t0 = time.process_time(); budget *= PATIENCE
    c = Ctx('uf'); s = z3.Solver(); s.set('timeout', 200*PATIENCE)
    for f in facts:
        if f is not TRUE and intonly(f): s.add(c.tr(f))
    ninit = len(c.extra); s.add(c.extra); memo = {}
    def holds(g):
        if g is TRUE: return True
        if g is FALSE: return False
        r = memo.get(g)
        if r is None:
            if time.process_time()-t0 > budget: return False
            n = len(c.extra); e = c.tr(not_(g)); s.push(); s.add(c.extra[n:]); s.add(e); r = s.check() == z3.unsat; s.pop(); memo[g] = r
        return r
    for rnd in range(3):
        mp = {}
        relevant = [f for f in facts if not intonly(f)] + [goal]
        atoms = subterms(relevant)
        for t in atoms:
            if t.op == 'ite' and t.sort in ('R','I') and intonly(t.args[0]):
                if holds(t.args[0]): mp[t] = t.args[1]
                elif holds(not_(t.args[0])): mp[t] = t.args[2]
        groups = {}
        for t in atoms:
            if t.op == 'app' and t.sort == 'R' and len(t.args) > 1 and all(a.sort == 'I' for a in t.args[1:]): groups.setdefault((t.args[0],len(t.args)), []).append((t, t.args[1:]))
            elif t.op == 'sel' and t.sort == 'R': groups.setdefault(t.args[0], []).append((t, (t.args[1],)))
        for g,ts in groups.items():
            ts.sort(key=lambda x: x[0].id); reps = []
            for t,args in ts:
                if t in mp: continue
                for r,ra in reps:
                    if all(a is b or holds(eq(a,b)) for a,b in zip(args,ra)): mp[t] = r; break
                else: reps.append((t,args))
                if len(reps) > 30: break
        cache = {}; out = []
        for f in facts:
            if intonly(f): out.append(f); continue
            g = substitute(f, mp, cache) if mp else f
            if g.op == 'or':
                rest = [x for x in g.args if not (intonly(x) and holds(not_(x)))]
                if len(rest) < len(g.args): g = or_(*rest)
                if any(intonly(x) and holds(x) for x in rest): continue
            if g is not TRUE: out.append(g)
        ng = substitute(goal, mp, cache) if mp else goal
        if ng.op == 'or':
            rest = [x for x in ng.args if not (intonly(x) and holds(not_(x)))]
            if rest and len(rest) < len(ng.args): ng = or_(*rest)
        out = list(dict.fromkeys(out))
        if ng is goal and out == facts: break
        facts, goal = out, ng
        if goal is TRUE: break
    return facts, goal
def eliminate(facts, goal):
    """Use (unconditional) real equations x = t to eliminate x everywhere; returns the rewritten facts and goal."""
    facts = list(dict.fromkeys(facts)); ks = knownset(facts); out = []
    for f in facts:
        if f.op == 'or' and any(x.op == 'eq0' for x in f.args):
            rest = [x for x in f.args if not known(not_(x), ks)]
            if len(rest) < len(f.args): f = or_(*rest)
        out.append(f)
    facts = list(dict.fromkeys(out))
    for it in range(40):
        pick = None
        for f in facts:
            if f.op != 'eq0' or f.args[0].sort != 'R': continue
            p = poly(f.args[0]); 
            if len(p) > 400: continue
            for m,c in p.items():
                if len(m) != 1 or m[0].op not in ('var','app','sel'): continue
                a = m[0]
                if sum(1 for n in p if a in n) > 1: continue
                rest = {n:-k/c for n,k in p.items() if n != m}
                r = mkpoly(rest, 'R')
                if a in subterms([r]): continue
                rank = {'var':0,'app':1,'sel':2}[a.op]
                if pick is None or rank < pick[0]: pick = (rank, a, r, f)
            if pick and pick[0] == 0: break
        if pick is None: break
        mp = {pick[1]: pick[2]}; cache = {}
        facts = [f for f in (substitute(x, mp, cache) for x in facts if x is not pick[3]) if f is not TRUE]; facts = list(dict.fromkeys(facts))
        goal = substitute(goal, mp, cache)
        if goal is TRUE: return facts, goal
        if sum(len(f.args[0].args) if f.op == 'eq0' and f.args[0].op == 'poly' else 1 for f in facts) > 20000: break
    return facts, goal
def subprove(fs, goal, timeout, split, deadline):
    """normalize, split on the conditions of the goal that the facts leave open, eliminate equations, decide."""
    fs, g = normalize(fs, goal)
    if g is TRUE: return True
    conds = []
    for t in subterms([g]):
        if t.op == 'ite' and intonly(t.args[0]): conds.append(t.args[0])
    if conds and split > 0 and time.process_time() < deadline:
        conds.sort(key=lambda c: (0 if c.op == 'eq0' else 1, c.id)); c = conds[0]
        return all(subprove(fs+[x], g, timeout, split-1, deadline) for x in (c, not_(c)))
    fs, g = eliminate(fs, g)
    if g is not TRUE: fs, g = normalize(fs, g, 1.0)
    if g is TRUE: return True
    c = Ctx('uf'); s = z3.Solver(); s.set('timeout', timeout)
    es = [c.tr(f) for f in fs] + [c.tr(not_(g))]
    s.add(es); s.add(c.extra)
    return s.check() == z3.unsat
def check(facts, goal, timeout=4000, modes=('uf','nra'), depth=1, cvc5=False, model=False):
    """('proved', backend) | ('failed', model-text) | ('unknown', why)."""
    t0 = time.time(); STAT['queries'] += 1; timeout *= PATIENCE
    if goal is TRUE: STAT['normal_form'] += 1; return ('proved','normal_form')
    if goal in facts: STAT['normal_form'] += 1; return ('proved','normal_form')
    insts = instances([goal]+list(facts), depth)
    insts += productlemmas([goal]+list(facts)+insts)
    ng = not_(goal); res = None; why = ''
    nonlin = None; fs = [f for f in list(facts)+insts if f is not TRUE]
    if 'nra' in modes and 'sub' not in modes: modes = tuple(x for m in modes for x in (('sub',m) if m == 'nra' else (m,)))
    for mode in modes:
        if mode == 'sub':
            if goal.op == 'or':           # assume the negated integer literals of the goal
                lits = [x for x in goal.args if intonly(x)]; fs = fs + [not_(x) for x in lits]; fs = [y for f in fs for y in (f.args if f.op == 'and' else (f,))]; g1 = or_(*[x for x in goal.args if not intonly(x)])
                if g1 is FALSE: g1 = goal
            else: g1 = goal
            if subprove(fs, g1, timeout, 4, time.process_time()+20*PATIENCE): STAT['z3'] += 1; STAT['time'] += time.time()-t0; return ('proved','z3')
            res = res or ('unknown','sub'); continue
        c = Ctx(mode); s = z3.Solver(); s.set('timeout', timeout)
        es = [c.tr(f) for f in fs] + [c.tr(ng)]
        s.add(es); s.add(c.extra)
        r = s.check()
        if r == z3.unsat:
            if CROSS:
                x = cvc5_check(s, 5000); STAT['cross_ok' if x == 'unsat' else 'cross_sat' if x == 'sat' else 'cross_unknown'] += 1
            STAT['z3'] += 1; STAT['time'] += time.time()-t0; return ('proved','z3')
        if r == z3.sat:
            res = ('failed', str(s.model())[:2000] if model else 'sat')
        else:
            why = s.reason_unknown(); res = ('unknown', why)
        if mode == 'uf' and not c.mulseen: break     # purely linear: a second mode cannot help
    if cvc5 and res[0] != 'failed':
        r = cvc5_check(s, timeout)
        if r == 'unsat': STAT['cvc5'] += 1; STAT['time'] += time.time()-t0; return ('proved','cvc5')
    STAT['time'] += time.time()-t0
    return res
def cvc5_check(s, timeout):
    txt = '(set-logic ALL)\n' + s.to_smt2()
    try:
        p = subprocess.run(['cvc5','--lang=smt2','--tlimit=%d' % timeout], input=txt.encode(), capture_output=True, timeout=timeout/1000+5)
        return p.stdout.decode().split('\n')[0].strip()
    except Exception as e:
        return 'unknown'
def feasible(facts, timeout=300):
    if FALSE in facts: return False
    c = Ctx('uf'); s = z3.Solver(); s.set('timeout', timeout)
    s.add([c.tr(f) for f in facts if f is not TRUE]); s.add(c.extra)
    return s.check() != z3.unsat
