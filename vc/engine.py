"""Verification-condition generation for LLVM IR with loop contracts.

Cut points are the loop headers. On entry to a loop the invariants are asserted, everything
the loop may modify is havocked, the invariants are assumed, and they are re-asserted at every
back edge. Candidate invariants that are not inductive are dropped (Houdini) before the
postconditions are checked; the postconditions themselves are never dropped."""
import sys, time
from .terms import *
from . import terms as T, solve, llvm
sys.setrecursionlimit(20000)
class Unsupported(Exception): pass
class Ptr:
    __slots__ = ('reg','off')
    def __init__(s, reg, off): s.reg, s.off = reg, off
    def __repr__(s): return 'Ptr(%s,%s)' % (s.reg.name if s.reg else 'null', s.off)
class FnPtr:
    def __init__(s, fn): s.fn = fn
class Agg:
    def __init__(s, vals): s.vals = list(vals)
class Undef: pass
UNDEF = Undef()
class Region:
    """kind 'array': typed fields at residues of a stride, element index symbolic.
       kind 'cells': constant offsets only, any value kind (stack objects, small heap objects)."""
    def __init__(s, name, kind='array', stride=None, fields=None, length=None, readonly=False, maynull=False):
        s.name, s.kind, s.stride, s.fields, s.length = name, kind, stride, dict(fields or {}), length
        s.readonly = readonly; s.onload = {}; s.freed = False; s.lazy = None; s.isnull = None; s.inloop = False; s.opaque = False
    def __repr__(s): return s.name
class Field:
    def __init__(s, name, sort, target=None, facts=None, size=8, pred=None):
        s.name, s.sort, s.target, s.facts, s.size = name, sort, target, facts, size   # facts(eng,state,idx,val)->[Bool]
        s.pred = pred
NULL = None
class Frame:
    __slots__ = ('fn','block','prev','pc','env','loops','ret','key')
    def copy(s):
        f = Frame(); f.fn, f.block, f.prev, f.pc, f.env, f.loops, f.ret, f.key = s.fn, s.block, s.prev, s.pc, dict(s.env), list(s.loops), s.ret, s.key
        return f
class State:
    def __init__(s):
        s.frames = []; s.mem = {}; s.cells = {}; s.pc = []; s.quants = []; s.idx = []; s.ghost = {}; s.trace = []; s.depth = 0; s.thrown = frozenset()
        s.exc = None; s.regions = {}; s.ks = []
    def copy(s):
        n = State.__new__(State)
        n.frames = [f.copy() for f in s.frames]; n.mem = dict(s.mem); n.cells = {k:dict(v) for k,v in s.cells.items()}
        n.pc = list(s.pc); n.quants = list(s.quants); n.idx = list(s.idx); n.ghost = dict(s.ghost); n.thrown = s.thrown; n.trace = list(s.trace)
        n.depth = s.depth; n.exc = s.exc; n.regions = dict(s.regions); n.ks = list(s.ks)
        return n
class LoopInfo:
    def __init__(s, key):
        s.key = key; s.mods = set(); s.cellmods = set(); s.ghostmods = set(); s.phis = {}; s.cellkind = {}; s.dropped = set(); s.bounds = {}; s.order = None; s.unroll = True
class LoopCtx:
    __slots__ = ('unrolled','count','info','header','k','body','entry','hmem','hcells','hghost','phivals','eid','frame_depth','hphi','checked','assumed')
class View:
    """What an invariant may talk about: ghost counters, memory now / at function entry / at loop entry."""
    def __init__(s, eng, st, ks, phis, lc=None): s.eng, s.st, s.k, s.phis, s.lc = eng, st, ks, phis, lc
    def m(s, reg, fld, idx): return s.eng.rd(s.st, reg, fld, idx)
    def g(s, name): return s.st.ghost[name]
    def arr(s, reg, fld): return s.eng.getarr(s.st, s.eng.regions[reg], fld)
    def cell(s, reg, off): return s.st.cells[s.eng.regions[reg]].get(off)
class Quant:
    def __init__(s, name, fn, view): s.name, s.fn, s.view = name, fn, view
class Obl:
    __slots__ = ('name','facts','goal','result','backend','kind','path')

class Engine:
    def __init__(s, mod, contract, opts=None):
        s.mod, s.c = mod, contract
        s.regions = {}; s.infos = {}; s.obls = []; s.changed = False; s.cache = {}
        s.o = dict(prune=True, timeout=4000, maxpaths=4000, safety=True, maxsteps=400000, depth=1, modes=('uf','nra'), cvc5=False)
        s.o.update(opts or {}); s.o.update(getattr(contract, 'opts', {}))
        s.handlers = {}
        s.stackarr = {}; s.sites = {}; s.allocn = 0; s.notes = set(); s.exits = []; s.mode = 'struct'; s.failed_cands = []
        s.backedges = 0; s.assumes = []; s.funcs_seen = set(); s.quantsk = {}
        from .handlers import HANDLERS, INTRIN
        s.handlers.update(HANDLERS); s.handlers.update(getattr(contract, 'handlers', {})); s.intrin = INTRIN
    # ---- regions
    def region(s, name, **kw):
        r = Region(name, **kw); s.regions[name] = r; return r
    def getarr(s, st, reg, fld):
        k = (reg, fld); a = st.mem.get(k)
        if a is None:
            f = s.fieldbyname(reg, fld)
            a = arr('%s.%s' % (reg.name, fld), f.sort); st.mem[k] = a
        return a
    def fieldbyname(s, reg, fld):
        for f in reg.fields.values():
            if f.name == fld: return f
        raise Unsupported('field %s.%s' % (reg, fld))
    def rd(s, st, regname, fld, idx):
        reg = s.regions[regname] if isinstance(regname, str) else regname
        return sel(s.getarr(st, reg, fld), lift(idx,'I'))
    def split(s, reg, off, size, sort):
        """byte offset -> (field, element index)"""
        if reg.stride is None:
            st = size
            reg.stride = st; reg.fields = dict(reg.fields)
        if T.poly(off) and any(c % reg.stride for m,c in T.poly(off).items() if m != ()):
            raise Unsupported('offset %s not a multiple of stride %d in %s' % (off, reg.stride, reg))
        d = T.poly(off); c0 = d.get((),0); res = c0 % reg.stride
        q = {m:c//reg.stride for m,c in d.items() if m != ()}; q[()] = (c0-res)//reg.stride
        idx = T.mkpoly(q,'I')
        f = reg.fields.get(res)
        if f is None:
            f = Field('f%d' % res, sort, size=size)
            reg.fields[res] = f
        return f, idx
    def tysort(s, ty):
        if ty.kind == 'double' or ty.kind == 'float': return 'R'
        if ty.kind == 'int': return 'I'
        if ty.kind == 'ptr': return 'P'
        raise Unsupported('type ' + ty.text)
    def load(s, st, p, ty, where=''):
        if not isinstance(p, Ptr): raise Unsupported('load through %r' % (p,))
        if p.reg is NULL:
            s.require(st, 'null-deref', FALSE); raise PathEnd()
        sort = s.tysort(ty); reg = p.reg
        if reg.kind == 'const': return s.constload(st, p, ty)
        if reg.kind == 'cells':
            if p.off.op != 'const':
                s.retype(reg); raise Unsupported('symbolic offset %s in %s' % (p.off, reg))
            o = p.off.args[0]; cs = st.cells.setdefault(reg, {})
            if o not in cs:
                if reg.lazy is not None:
                    v = reg.lazy(s, st, o, ty)
                elif sort == 'P': raise Unsupported('load of uninitialised pointer %s+%d' % (reg, o))
                else: v = fresh('%s@%d' % (reg.name, o), sort)
                cs[o] = v
            v = cs[o]
            if isinstance(v, Undef): v = fresh('undef', sort) if sort != 'P' else UNDEF
            if isinstance(v, tuple) and v[0] == 'zero': v = s.zero(ty)
            if isinstance(v, Term):
                if v.sort == 'B' and sort == 'I': v = ite(v, I(1), I(0))
                if v.sort == 'R' and sort == 'I' and ty.size == 8: return ('bits', v)
                if v.sort == 'I' and sort == 'R' : raise Unsupported('int cell read as real')
                if v.sort == 'I' and sort == 'P': 
                    if v is I(0): return Ptr(NULL, I(0))
                    raise Unsupported('int cell read as ptr')
            elif sort != 'P' : 
                if isinstance(v, Ptr) and v.reg is NULL: return I(0)
                raise Unsupported('pointer cell read as %s' % ty.text)
            return v
        if reg.opaque: return fresh('opaque', sort)
        f, idx = s.split(reg, p.off, ty.size, sort)
        if sort == 'P' and f.target is None: raise Unsupported('pointer load from untyped field %s.%s' % (reg, f.name))
        if reg.length is not None: s.safe(st, reg, idx)
        st.idx.append((reg, f.name, idx))
        if sort == 'P':
            if callable(f.target): return f.target(s, st, idx)
            v = sel(s.getarr(st, reg, f.name), idx)
            tr = s.regions[f.target]
            if f.facts: 
                for x in f.facts(s, st, idx, v): s.assume(st, x)
            return Ptr(tr, mul(I(tr.stride or 8), v))
        v = sel(s.getarr(st, reg, f.name), idx)
        if f.facts:
            for x in f.facts(s, st, idx, v): s.assume(st, x)
        if f.sort != sort:
            if f.sort == 'B': v = ite(v, I(1), I(0))
            elif f.sort == 'R' and sort == 'I' and ty.size == 8: return ('bits', v)      # copied as an integer of the same size
            else: raise Unsupported('field %s.%s sort' % (reg, f.name))
        return v
    def safe(s, st, reg, idx):
        if not s.o['safety']: return
        if reg.isnull is not None and reg.isnull is not FALSE: pass
        s.require(st, 'in-bounds ' + reg.name, and_(le(I(0), idx), lt(idx, reg.length if isinstance(reg.length, Term) else reg.length(st))), 'safety')
    def retype(s, reg):
        """a stack object indexed symbolically: restart with the object modelled as an array of its element type"""
        ty = getattr(reg, 'aty', None)
        while ty is not None and ty.kind == 'struct' and ty.fields and all(t.size == 0 for o,t in ty.fields[1:]): ty = ty.fields[0][1]
        if ty is None or ty.kind != 'array' or reg.name in s.stackarr: return False
        leaves = {}
        def walk(t, o):
            if t.kind == 'struct':
                for fo, ft in t.fields: walk(ft, o+fo)
            elif t.kind == 'array':
                for i in range(t.count): walk(t.elem, o+i*t.elem.size)
            elif t.kind in ('double','int'): leaves[o] = ('R' if t.kind == 'double' else 'I', t.size)
            else: raise Unsupported('stack array of %s' % t.text)
        walk(ty.elem, 0)
        s.stackarr[reg.name] = (ty.elem.size, ty.count, leaves)
        raise Restart()
    def stackarray(s, st, r, stride, n, leaves):
        r.kind = 'array'; r.stride = stride; r.length = I(n); r.fields = {o: Field('f%d' % o, srt, size=sz) for o,(srt,sz) in leaves.items()}
        for f in r.fields.values(): st.mem[(r, f.name)] = s.fa(st, r.name+'.'+f.name, f.sort)
    def storev(s, st, p, v, ty):
        if not isinstance(p, Ptr): raise Unsupported('store through %r' % (p,))
        if p.reg is NULL:
            s.require(st, 'null-deref', FALSE); raise PathEnd()
        reg = p.reg; sort = s.tysort(ty)
        if reg.kind == 'const': raise Unsupported('store to constant')
        if isinstance(v, Undef): v = fresh('undef', sort) if sort != 'P' else UNDEF
        if isinstance(v, Term) and v.sort == 'B': v = ite(v, I(1), I(0))
        if isinstance(v, tuple) and v[0] == 'bits': v = v[1]; sort = 'R'
        if reg.kind == 'cells':
            if p.off.op != 'const': s.retype(reg); raise Unsupported('symbolic offset store %s in %s' % (p.off, reg))
            o = p.off.args[0]; st.cells.setdefault(reg, {})[o] = v
            s.notemod(st, ('cell', reg, o)); return
        if reg.opaque: return
        f, idx = s.split(reg, p.off, ty.size, sort)
        if reg.readonly:
            s.require(st, 'frame: write to %s' % reg.name, FALSE)
        if reg.length is not None: s.safe(st, reg, idx)
        st.idx.append((reg, f.name, idx))
        if sort == 'P':
            if f.target is None and v.__class__ is Ptr and v.reg is not NULL and v.reg.inloop: f.target = v.reg.name; v.reg.opaque = True; f.sort = 'I'
            if f.target is None and v.__class__ is Ptr and v.reg is NULL: return
            if f.target is None or callable(f.target): 
                raise Unsupported('pointer store to %s.%s' % (reg, f.name))
            if not isinstance(v, Ptr): raise Unsupported('store %r' % v)
            if v.reg is NULL: v = fresh('nullpos','I')
            else:
                if v.reg.name != f.target: raise Unsupported('pointer store into %s.%s of %s' % (reg, f.name, v.reg))
                ff, vi = s.split(v.reg, v.off, 8, 'I') if v.reg.stride else (None, None)
                v = vi
        if f.sort == 'I' and sort == 'R': raise Unsupported('sort')
        st.mem[(reg, f.name)] = store(s.getarr(st, reg, f.name), idx, v)
        s.notemod(st, ('mem', reg, f.name))
    def notemod(s, st, what):
        for fr in st.frames:
            for lc in fr.loops:
                if lc.unrolled: continue
                inf = lc.info
                if what[0] == 'mem':
                    # only regions that existed at loop entry matter
                    if (what[1].name, what[2]) not in inf.mods:
                        inf.mods.add((what[1].name, what[2])); s.changed = True
                elif what[0] == 'cell':
                    if what[1] in lc.hcells and (what[1].name, what[2]) not in inf.cellmods:
                        inf.cellmods.add((what[1].name, what[2])); s.changed = True
                elif what[0] == 'ghost':
                    if what[1] not in inf.ghostmods: inf.ghostmods.add(what[1]); s.changed = True
    def setghost(s, st, name, v):
        st.ghost[name] = v; s.notemod(st, ('ghost', name))
    def zero(s, ty):
        k = s.tysort(ty)
        return {'R':R(0),'I':I(0),'P':Ptr(NULL,I(0))}[k]
    def constload(s, st, p, ty):
        c = p.reg.lazy  # Const initializer
        if p.off.op != 'const': raise Unsupported('symbolic offset in constant')
        o = p.off.args[0]
        while True:
            if c is None: raise Unsupported('opaque global %s' % p.reg)
            if c.kind == 'zero': return s.zero(ty)
            if c.kind == 'agg':
                t = c.ty
                if t.kind == 'struct':
                    for i,(fo,ft) in reversed(list(enumerate(t.fields))):
                        if fo <= o: c = c.v[i]; o -= fo; break
                    continue
                i = o // t.elem.size; c = c.v[i]; o -= i*t.elem.size; continue
            return s.value(st, c)
    def glob(s, st, g):
        nm = '@'+g.name
        if nm in s.regions: return s.regions[nm]
        init = s.mod.glob_init(g)
        if g.const and init is not None:
            r = s.region(nm, kind='const'); r.lazy = init
        else:
            r = s.region(nm, kind='cells')
            gh = getattr(s.c, 'global_lazy', None)
            if gh: r.lazy = gh
            elif init is not None and init.kind in ('zero','int','real'):
                r.lazy = lambda e, st, o, ty: fresh(nm, e.tysort(ty))
            else: r.lazy = None
        return r
    # ---- values
    def value(s, st, v):
        if isinstance(v, llvm.Const):
            k = v.kind
            if k == 'int':
                if v.ty.width == 1: return TRUE if v.v else FALSE
                return I(v.v)
            if k == 'real':
                if v.v != v.v or v.v in (float('inf'), float('-inf')): return ('special', v.v)
                return R(v.v)
            if k == 'null': return Ptr(NULL, I(0))
            if k == 'undef':
                if v.ty.kind == 'struct': return Agg([UNDEF]*len(v.ty.fields))
                return UNDEF
            if k == 'func': return FnPtr(v.v)
            if k == 'global': return Ptr(s.glob(st, v.v), I(0))
            if k == 'zero':
                if v.ty.kind == 'struct': return Agg([s.zero(t) for o,t in v.ty.fields])
                return s.zero(v.ty)
            if k == 'agg': return Agg([s.value(st, x) for x in v.v])
            if k == 'cexpr':
                oc, ops, x = v.v
                if oc == 'gep': return s.gep(s.value(st, ops[0]), x, [s.value(st, o) for o in ops[1:]])
                if oc in ('bitcast',): return s.value(st, ops[0])
            raise Unsupported('const %s' % k)
        env = st.frames[-1].env
        if v not in env: raise Unsupported('unbound %s' % v.name)
        return env[v]
    def gep(s, base, ty, idxs):
        if not isinstance(base, Ptr): raise Unsupported('gep on %r' % (base,))
        off = base.off; first = True; t = ty
        for ix in idxs:
            if isinstance(ix, Undef): raise Unsupported('gep undef')
            if first: off = add(off, mul(I(t.size), s.asint(ix))); first = False
            elif t.kind == 'struct':
                fo, ft = t.fields[ix.args[0]]; off = add(off, I(fo)); t = ft
            elif t.kind == 'array':
                off = add(off, mul(I(t.elem.size), s.asint(ix))); t = t.elem
            else: raise Unsupported('gep into ' + t.text)
        return Ptr(base.reg, off)
    def asint(s, v):
        if isinstance(v, Term) and v.sort == 'B': return ite(v, I(1), I(0))
        return v
    # ---- facts and obligations
    def assume(s, st, f):
        if f is TRUE: return
        if f.op == 'and':
            for x in f.args: s.assume(st, x)
            return
        if f not in st.pc: st.pc.append(f)
    def quantfacts(s, st, extra=()):
        out = []
        for q in st.quants:
            for ix in q.fn['terms'](s, st) + list(extra):
                out.append(q.fn['body'](q.view, ix))
        return [f for f in out if f is not TRUE]
    def require(s, st, name, goal, kind='assert'):
        if s.mode != 'final': return
        if kind == 'safety' and s.mode != 'final': return
        if goal is TRUE and kind == 'safety':
            o = Obl(); o.name, o.goal, o.kind, o.result, o.backend, o.facts, o.path = name, goal, kind, 'proved', 'normal_form', [], ''
            solve.STAT['normal_form'] += 1
            s.obls.append(o); return
        o = Obl(); o.name, o.goal, o.kind = name, goal, kind
        o.path = ' > '.join(st.trace[-12:])
        facts = st.pc + s.quantfacts(st)
        o.facts = facts
        r = s.prove(facts, goal, model=True)
        o.result, o.backend = r
        s.obls.append(o)
        if s.o.get('verbose') and r[0] != 'proved': print('   OBL', name, r[0])
        if r[0] == 'proved': s.assume(st, goal)
    def prove(s, facts, goal, model=False, timeout=None):
        if goal is TRUE: return solve.check([], TRUE)
        key = (frozenset(facts), goal)
        if key in s.cache: return s.cache[key]
        if s.o.get('intfirst') and solve.intonly(goal):      # index arithmetic: the facts about integers alone
            r = solve.check([f for f in facts if solve.intonly(f)], goal, timeout=timeout or s.o['timeout'], modes=('uf',), depth=s.o['depth'], cvc5=s.o['cvc5'], model=model)
            s.cache[key] = r
            return r
        r = solve.check(facts, goal, timeout=timeout or s.o['timeout'], modes=s.o['modes'], depth=s.o['depth'], cvc5=s.o['cvc5'], model=model)
        s.cache[key] = r
        return r
    # ---- running
    def run(s):
        """Fixpoint over loop frames, affine induction variables and candidate invariants; then the final pass."""
        t0 = time.time()
        for it in range(60):
            s.mode = 'struct'; s.changed = False; s.pass_(); 
            if not s.changed: break
        else: raise Unsupported('structure fixpoint')
        for it in range(80):
            s.mode = 'houdini'; s.changed = False; s.failed_cands = []
            s.pass_()
            if not s.changed: break
            if time.time()-t0 > s.o.get('budget', 400): raise Unsupported('time budget')
        else: raise Unsupported('houdini fixpoint')
        s.mode = 'final'; s.obls = []; s.exits = []; s.backedges = 0
        s.pass_()
        if s.changed: raise Unsupported('unstable final pass')
        s.wall = time.time()-t0
        return s.obls
    def pass_(s):
        for i in range(200):
            try: return s.pass1()
            except Restart: s.changed = True
        raise Unsupported('restarts')
    def pass1(s):
        s.obls = []
        s.freshn = {}
        s.allocn = 0
        st = State(); s.regions = {}; s.entry = None
        s.c.setup(s, st)
        s.st0 = st.copy()
        work = [st]; n = 0; s.steps = 0; s.exits = []
        if not st.frames: s.exits.append(('return', list(st.pc), st)); return     # a pure lemma
        while work:
            cur = work.pop(); n += 1
            if n > s.o['maxpaths']: raise Unsupported('too many paths')
            try: work.extend(s.path(cur))
            except PathEnd: pass
    def fv(s, st, name, sort):
        """Deterministic fresh variable: the name depends on the path position only, so obligations recur across passes."""
        key = '|'.join(st.trace[-400:]) + '#' + name
        h = s.freshn.setdefault('ids', {})
        if not hasattr(s, 'fvtab'): s.fvtab = {}
        cnt = h.get(key, 0); h[key] = cnt+1
        kk = (key, cnt, sort)
        if kk not in s.fvtab: s.fvtab[kk] = var('%s.%d' % (name, len(s.fvtab)), sort)
        return s.fvtab[kk]
    def fa(s, st, name, sort):
        key = '|'.join(st.trace[-400:]) + '#a' + name
        h = s.freshn.setdefault('ids', {})
        if not hasattr(s, 'fvtab'): s.fvtab = {}
        cnt = h.get(key, 0); h[key] = cnt+1
        kk = (key, cnt, sort)
        if kk not in s.fvtab: s.fvtab[kk] = arr('%s.%d' % (name, len(s.fvtab)), sort)
        return s.fvtab[kk]
    def call_function(s, st, fn, args, ret=None):
        s.mod.load(fn)
        if fn.irreducible: raise Unsupported('irreducible ' + fn.name)
        f = Frame(); f.fn = fn; f.block = fn.blocks[0]; f.prev = None; f.pc = 0; f.env = {}; f.loops = []; f.ret = ret
        f.key = (st.frames[-1].key + ((ret.block.name, id(ret)),)) if st.frames else ()
        if len(st.frames) > 40: raise Unsupported('recursion')
        for a,v in zip(fn.args, args): f.env[a] = v
        st.frames.append(f); s.funcs_seen.add(fn.name)
    def path(s, st):
        """Run until the path forks or ends; returns successor states."""
        while True:
            s.steps += 1
            if s.steps > s.o['maxsteps']: raise Unsupported('too many steps')
            fr = st.frames[-1]
            ins = fr.block.instrs[fr.pc]; op = ins.op
            if op == 'phi': raise Unsupported('stray phi')
            if op == 'ret':
                v = s.value(st, ins.ops[0]) if ins.ops else None
                st.frames.pop()
                if not st.frames:
                    s.at_exit(st, v); return []
                c = fr.ret; caller = st.frames[-1]
                caller.env[c] = v
                if c.op == 'invoke':
                    if not s.goto(st, c.x['normal']): return []
                else: caller.pc += 1
                continue
            if op == 'br':
                if not ins.ops:
                    if not s.goto(st, ins.x[0]): return []
                    continue
                c = s.value(st, ins.ops[0])
                if isinstance(c, Undef): c = s.fv(st,'undefb','B')
                if isinstance(c, tuple): raise Unsupported('branch on special')
                s.boundcands(st, c)
                if c is TRUE or c is FALSE:
                    if not s.goto(st, ins.x[0] if c is TRUE else ins.x[1]): return []
                    continue
                return s.fork(st, [(c, ins.x[0]), (not_(c), ins.x[1])])
            if op == 'switch':
                v = s.value(st, ins.ops[0]); alts = []; rest = TRUE
                for cv, b in ins.x[1]:
                    e = eq(v, s.value(st, cv)); alts.append((e, b)); rest = and_(rest, not_(e))
                alts.append((rest, ins.x[0]))
                alts = [(c,b) for c,b in alts if c is not FALSE]
                if any(c is TRUE for c,b in alts): alts = [(c,b) for c,b in alts if c is TRUE][:1]
                if len(alts) == 1:
                    if not s.goto(st, alts[0][1]): return []
                    continue
                return s.fork(st, alts)
            if op == 'unreachable':
                if st.exc == 'noreturn': return []
                s.require(st, 'unreachable code reached', FALSE); return []
            if op in ('call','invoke'):
                r = s.call(st, fr, ins)
                if r is None: continue           # pushed a frame
                if r == 'end': return []
                if r == 'throw':
                    if not s.unwind(st): return []
                    continue
                if isinstance(r, list): return r  # forked states
                if op == 'invoke':
                    if not s.goto(st, ins.x['normal']): return []
                else: fr.pc += 1
                continue
            if s.o.get('splitrem') and (op == 'urem' or op == 'and' and ins.ops[1].__class__ is llvm.Const and ins.ops[1].kind == 'int' and 0 < ins.ops[1].v < 4 and ins.ty.width > 1) :
                s.simple(st, fr, ins); r = fr.env[ins]                   # case split on a small remainder
                if isinstance(r, Term) and r.op != 'const':
                    m = ins.ops[1].v + (op == 'and'); out = []
                    for k in range(m):
                        n = st.copy(); s.assume(n, eq(r,I(k)))
                        if FALSE in n.pc or not s.alive(n): continue
                        g = n.frames[-1]; g.env[ins] = I(k); g.pc += 1; out.append(n)
                    return out
                fr.pc += 1; continue
            if op == 'resume':
                if not s.unwind(st): return []
                continue
            if op == 'select':
                c = s.value(st, ins.ops[0]); a = s.value(st, ins.ops[1]); b = s.value(st, ins.ops[2])
                if isinstance(c, Undef): c = s.fv(st,'undefb','B')
                if c is TRUE: fr.env[ins] = a
                elif c is FALSE: fr.env[ins] = b
                elif isinstance(a, Term) and isinstance(b, Term):
                    if a.sort != b.sort: a, b = s.asint(a), s.asint(b)
                    fr.env[ins] = ite(c, a, b)
                elif isinstance(a, Undef): fr.env[ins] = b
                elif isinstance(b, Undef): fr.env[ins] = a
                elif isinstance(a, Ptr) and isinstance(b, Ptr) and a.reg is b.reg and a.off is b.off: fr.env[ins] = a
                else:
                    out = []
                    for cc, v in ((c,a),(not_(c),b)):
                        n = st.copy(); s.assume(n, cc); n.frames[-1].env[ins] = v; n.frames[-1].pc += 1
                        n.trace.append('sel' + ('T' if v is a else 'F'))
                        if s.alive(n): out.append(n)
                    return out
                fr.pc += 1; continue
            if op == 'icmp':
                r = s.icmp(st, ins)
                fr.env[ins] = r; fr.pc += 1; continue
            s.simple(st, fr, ins); fr.pc += 1
    def alive(s, st):
        if not s.o['prune']: return True
        key = frozenset(st.pc)
        if not hasattr(s, 'alivec'): s.alivec = {}
        r = s.alivec.get(key)
        if r is None: r = solve.feasible(st.pc, 250); s.alivec[key] = r
        return r
    def fork(s, st, alts):
        out = []
        fr = st.frames[-1]
        for lc in fr.loops:
            if lc.unrolled and any(b not in lc.body for c,b in alts):
                if lc.info.unroll: lc.info.unroll = False
                raise Restart()
        for i,(c,b) in enumerate(alts):
            n = st.copy(); s.assume(n, c)
            if FALSE in n.pc or not_(c) in st.pc: continue
            if not s.alive(n): continue
            n.trace.append('%s%s' % (st.frames[-1].block.name[:28], '-TF'[1+i] if i < 2 else i))
            try:
                if s.goto(n, b): out.append(n)
            except PathEnd: pass
        return out
    def boundcands(s, st, c):
        if s.mode != 'struct': return
        fr = st.frames[-1]
        if not fr.loops: return
        for lc in [l for l in fr.loops if not l.unrolled][-2:]:
            for t in ([c] if c.op in ('le','lt','eq0') else [x for x in subterms([c]) if x.op in ('le','lt','eq0')]):
                p = t.args[0]
                if p.sort != 'I': continue
                d = T.poly(p)
                if any(lc.k in m and len(m) > 1 for m in d):      # divide by a common factor: k*c against n*c
                    common = set.intersection(*[set(m) for m in d]) - {lc.k}
                    for c0 in common:
                        nd = {}
                        for m,co in d.items():
                            l = list(m); l.remove(c0); nd[tuple(l)] = co
                        p = T.mkpoly(nd,'I'); d = T.poly(p); break
                    g = 0
                    for co in d.values(): g = T.gcd(g, abs(int(co)))
                    if g > 1: p = T.mkpoly({m:co//g for m,co in d.items()},'I'); d = T.poly(p)
                if any(lc.k in m for m in d):
                    ck = d.get((lc.k,))
                    if ck is None or abs(ck) != 1 : continue
                    # normalise so that the counter has coefficient 1
                    q = p if ck == 1 else neg(p)
                    # express with the entry-time symbols only: skip if it mentions header-fresh symbols
                    bad = False
                    for a in subterms([q]):
                        if a is lc.k: continue
                        if a.op == 'var' and a in lc.hphi: bad = True
                        if a.op in ('sel',) and any(x.op == 'var' and x is lc.k for x in subterms([a])): bad = True
                    if bad: continue
                    B = sub(lc.k, q)      # k - q: loop compares k with B
                    for delta in ((0,) if t.op != 'le' else (0,1)):
                        nm = 'k<=%s' % show(add(B,I(delta)))[:200]
                        if (nm, lc.eid) not in lc.info.bounds: s.changed = True
                        lc.info.bounds[(nm, lc.eid)] = add(B, I(delta))
    # ---- control flow
    def goto(s, st, blk):
        """Transfer to blk (phi evaluation, loop entry / back edge). False if the path ends here."""
        fr = st.frames[-1]; src = fr.block
        while fr.loops and blk not in fr.loops[-1].body: 
            lc = fr.loops.pop(); 
        phis = [i for i in blk.instrs if i.op == 'phi']
        vals = {}
        for p in phis:
            for b, v in p.x:
                if b is src: vals[p] = s.value(st, v); break
            else: raise Unsupported('phi edge')
        if blk in fr.fn.loops:
            if fr.loops and fr.loops[-1].header is blk and fr.loops[-1].unrolled:
                lc = fr.loops[-1]
                if lc.count >= s.o.get('unroll', 40): lc.info.unroll = False; raise Restart()
                n = LoopCtx(); n.unrolled = True; n.count = lc.count+1; n.info, n.header, n.body, n.k = lc.info, lc.header, lc.body, None
                fr.loops[-1] = n
                st.trace.append('u%d' % n.count)
                fr.env.update(vals); fr.prev = src; fr.block = blk; fr.pc = len(phis)
                return True
            if fr.loops and fr.loops[-1].header is blk:
                s.back_edge(st, fr, fr.loops[-1], blk, vals); return False
            if any(l.header is blk for l in fr.loops): raise Unsupported('loop nesting')
            s.enter_loop(st, fr, blk, vals)
        else:
            fr.env.update(vals)
        fr.prev = src; fr.block = blk; fr.pc = len(phis)
        return True
    def site(s, k):
        """stable name of a call site (block name, instruction identity)"""
        n = s.sites.setdefault(k, len(s.sites)); return '%s:%d' % (str(k[0])[:12], n)
    def enter_loop(s, st, fr, blk, vals):
        key = (fr.key, fr.fn.name, blk.name)
        inf = s.infos.get(key)
        if inf is None: inf = s.infos[key] = LoopInfo(key); inf.order = len(s.infos); s.changed = True
        lc = LoopCtx(); lc.info, lc.header, lc.body = inf, blk, fr.fn.loops[blk]
        lc.unrolled = False
        if inf.unroll:
            lc.unrolled = True; lc.count = 0; lc.k = None
            fr.env.update(vals); fr.loops.append(lc); st.trace.append('u:'+blk.name[:24])
            return
        st.trace.append('loop:'+blk.name[:24])
        lc.eid = '|'.join(st.trace)
        lc.k = s.fv(st, 'k', 'I')
        for (rn, f) in sorted(inf.mods):       # what the loop is the first to write
            r = s.regions.get(rn)
            if r is not None and any(x.name == f for x in r.fields.values()): s.getarr(st, r, f)
        lc.hmem = dict(st.mem); lc.hcells = {r:dict(c) for r,c in st.cells.items()}; lc.hghost = dict(st.ghost); lc.phivals = vals
        lc.hphi = set()
        entry_state = st.copy() if s.mode != 'struct' else None
        lc.entry = st.copy()
        # 1. initiation
        if s.mode != 'struct':
            fr.loops.append(lc); 
            fr.env.update(vals)
            s.check_inv(st, fr, lc, I(0), vals, 'entry')
            fr.loops.pop()
        # 2. havoc
        hv = {}
        for p, v in vals.items():
            k = inf.phis.get(p.name)
            if k is None: k = inf.phis[p.name] = ('new',)
            if isinstance(v, Undef) : 
                k = ('free',)
            if k[0] in ('new','affine') and isinstance(v, (Term, Ptr)):
                step = k[1] if k[0] == 'affine' else None
                if isinstance(v, Ptr):
                    if v.reg is NULL: hv[p] = Ptr(NULL, I(0)) if step == 0 else s.freshptr(st, lc, p.name, v, inf); 
                    else: hv[p] = Ptr(v.reg, add(v.off, mul(lift(step,'I'), lc.k))) if step is not None else s.freshptr(st, lc, p.name, v, inf)
                elif v.sort == 'I': 
                    if step is not None: hv[p] = add(v, mul(lift(step,'I'), lc.k))
                    else: hv[p] = s.fv(st, p.name or 'phi', 'I'); lc.hphi.add(hv[p])
                else:
                    if step == 0: hv[p] = v
                    else: hv[p] = s.fv(st, p.name or 'phi', v.sort); lc.hphi.add(hv[p])
            else:
                if isinstance(v, Ptr): hv[p] = s.freshptr(st, lc, p.name, v, inf)
                elif isinstance(v, FnPtr): hv[p] = v
                elif isinstance(v, Undef) or isinstance(v, tuple):
                    srt = s.tysort(p.ty)
                    if srt == 'P': raise Unsupported('undef pointer phi')
                    hv[p] = s.fv(st, p.name or 'phi', 'B' if p.ty.width == 1 else srt)
                    lc.hphi.add(hv[p])
                else:
                    hv[p] = s.fv(st, p.name or 'phi', v.sort); lc.hphi.add(hv[p])
        for (rn, f) in sorted(inf.mods):
            r = s.regions.get(rn)
            if r is None: continue
            if (r, f) not in st.mem and all(x.name != f for x in r.fields.values()): continue
            srt = elsort(s.getarr(st, r, f))
            st.mem[(r, f)] = s.fa(st, '%s.%s' % (r.name, f), srt)
        for (rn, o) in sorted(inf.cellmods):
            r = s.regions.get(rn)
            if r is None or r not in st.cells or o not in st.cells[r]: continue
            v = st.cells[r][o]; kk = inf.cellkind.get((rn,o))
            if isinstance(v, Term):
                if v.sort == 'I' and kk and kk[0] == 'affine':
                    st.cells[r][o] = add(v, mul(I(kk[1]), lc.k))
                else:
                    st.cells[r][o] = s.fv(st, '%s@%d' % (rn,o), v.sort); lc.hphi.add(st.cells[r][o])
            elif isinstance(v, Ptr):
                st.cells[r][o] = s.freshptr(st, lc, '%s@%d' % (rn,o), v, inf)
            elif isinstance(v, Undef):
                pass
            elif isinstance(v, tuple) and v[0] in ('zero','bits'):
                st.cells[r][o] = s.fv(st, '%s@%d' % (rn,o), 'R'); lc.hphi.add(st.cells[r][o])
            else: raise Unsupported('havoc cell')
        for g in sorted(inf.ghostmods):
            v = st.ghost[g]
            kk = inf.cellkind.get(('ghost',g))
            if v.sort.startswith('A'): st.ghost[g] = s.fa(st, g, v.sort[1:])
            elif v.sort == 'I' and kk and kk[0] == 'affine': st.ghost[g] = add(v, mul(I(kk[1]), lc.k))
            else: st.ghost[g] = s.fv(st, g, v.sort); lc.hphi.add(st.ghost[g])
        fr.env.update(hv); fr.loops.append(lc); st.ks = s.allks(st)
        lc.phivals = (vals, hv)
        lc.entry.ks = None
        s.assume(st, le(I(0), lc.k))
        if s.mode != 'struct':
            lc.assumed = set()
            for nm, f in s.cands(st, fr, lc, lc.k, hv):
                if nm in inf.dropped: continue
                if nm not in lc.checked:
                    if s.mode == 'final': raise Unsupported('candidate not checked at entry ' + nm)
                    inf.dropped.add(nm); s.changed = True
                    if s.o.get('verbose'): print('   drop', inf.key[2], nm, 'not stated at the entry')
                    continue
                lc.assumed.add(nm)
                if isinstance(f, dict): st.quants.append(Quant(nm, f, s.mkview(st.copy(), fr, lc, lc.k, hv)))
                else: s.assume(st, f)
    def allks(s, st):
        return [lc.k for f in st.frames for lc in f.loops if not lc.unrolled]
    def freshptr(s, st, lc, name, v, inf):
        if v.reg is NULL: return Ptr(NULL, I(0))   # stays null: back_edge rejects a change of region
        if v.reg.kind == 'cells':
            x = s.fv(st, name or 'p', 'I'); lc.hphi.add(x); return Ptr(v.reg, x)
        stride = v.reg.stride or 8
        d = T.poly(v.off); res = d.get((),0) % stride
        x = s.fv(st, name or 'p', 'I'); lc.hphi.add(x)
        return Ptr(v.reg, add(I(res), mul(I(stride), x)))
    def mkview(s, st, fr, lc, k, phis):
        ks = []
        for f in st.frames:
            for l in f.loops:
                if not l.unrolled: ks.append(k if l.k is lc.k else l.k)
        if not any(l is lc for f in st.frames for l in f.loops): ks.append(k)
        return View(s, st, ks, {p.name: v for p, v in phis.items()}, lc)
    def cands(s, st, fr, lc, k, phis):
        out = []
        for (nm, eid), b in lc.info.bounds.items():
            if eid == lc.eid: out.append((nm, le(k, b)))
        v = s.mkview(st, fr, lc, k, phis)
        out += list(s.c.invariants(s, v))
        # generic: a modified Int/Real scalar is unchanged / nonneg
        for p, x in phis.items():
            if isinstance(x, Term) and x.sort == 'I' and lc.info.phis.get(p.name, ('new',))[0] != 'affine':
                out.append(('nonneg:'+p.name, le(I(0), x)))
        return out
    def check_inv(s, st, fr, lc, k, phis, where):
        inf = lc.info
        made = set()
        for nm, f in s.cands(st, fr, lc, k, phis):
            made.add(nm)
            if nm in inf.dropped: continue
            if isinstance(f, dict):
                sk = var('sk.'+nm, 'I')
                goal = f['body'](s.mkview(st, fr, lc, k, phis), sk)
                facts = st.pc + s.quantfacts(st, (sk,))
            else:
                goal = f; facts = st.pc + s.quantfacts(st)
            if s.mode == 'houdini':
                if goal is TRUE: continue
                r = s.prove(facts, goal)
                if r[0] != 'proved':
                    inf.dropped.add(nm); s.changed = True; s.failed_cands.append((inf.key[2], nm, where, r[0], st.trace[-6:]))
                    if s.o.get('verbose'):
                        print('   drop', inf.key[2], nm, where, r[0])
                        if s.o.get('dump') and s.o['dump'] in nm:
                            for f in facts: print('        F', show(f)[:400])
                            print('        GOAL', show(goal)[:800], '\n        ', str(r[1]), st.trace[-8:])
                            r2 = solve.check(facts, goal, timeout=8000, modes=('uf',), model=True); print('        ', r2)
            else:
                o = Obl(); o.name = 'inv %s %s @%s' % (nm, where, lc.header.name[:30]); o.goal, o.facts, o.kind, o.path = goal, facts, 'invariant', ''
                r = s.prove(facts, goal); o.result, o.backend = r; s.obls.append(o)
                if r[0] != 'proved': raise Unsupported('candidate unstable ' + nm)
        # a candidate is assumed at the header only if it was stated (hence checked) at the entry and at every back edge
        if where == 'entry': lc.checked = made
        else:
            for nm in lc.assumed - made:
                if nm in inf.dropped: continue
                if s.mode == 'final': raise Unsupported('candidate not restated ' + nm)
                inf.dropped.add(nm); s.changed = True
                if s.o.get('verbose'): print('   drop', inf.key[2], nm, 'not restated')
    def invariant_step(s, lc, d):
        """every symbol of d already existed at loop entry"""
        e = lc.entry; ts = list(e.pc) + list(e.mem.values()) + list(e.ghost.values())
        for f in e.frames:
            for v in f.env.values():
                if isinstance(v, Term): ts.append(v)
                elif isinstance(v, Ptr) and isinstance(v.off, Term): ts.append(v.off)
        for c in e.cells.values():
            for v in c.values():
                if isinstance(v, Term): ts.append(v)
                elif isinstance(v, Ptr) and isinstance(v.off, Term): ts.append(v.off)
        have = set(t for t in subterms(ts) if t.op in ('var','arr'))
        return all(t in have for t in subterms([d]) if t.op in ('var','arr'))
    def back_edge(s, st, fr, lc, blk, vals):
        inf = lc.info; k1 = add(lc.k, I(1)); init, hv = lc.phivals
        s.backedges += 1
        # induction variables
        for p, v in vals.items():
            kind = inf.phis[p.name]; h = hv[p]
            if isinstance(init[p], Undef):
                continue
            if isinstance(h, Ptr):
                if not isinstance(v, Ptr): raise Unsupported('ptr phi')
                if v.reg is not h.reg: raise Unsupported('pointer phi changes region: %s -> %s' % (h.reg, v.reg))
            if kind[0] == 'new':
                a = v.off if isinstance(v, Ptr) else v; b = h.off if isinstance(h, Ptr) else h
                if isinstance(a, Term) and a.sort == b.sort and a.sort in ('I','R'):
                    d = sub(a, b)
                    if d.op == 'const' and (a.sort == 'I' or d.args[0] == 0): inf.phis[p.name] = ('affine', d.args[0])
                    elif d.op != 'const' and a.sort == 'I' and s.invariant_step(lc, d): inf.phis[p.name] = ('affine', d)
                    else: inf.phis[p.name] = ('free',)
                else: inf.phis[p.name] = ('free',)
                s.changed = True
            elif kind[0] == 'affine':
                a = v.off if isinstance(v, Ptr) else v; b = h.off if isinstance(h, Ptr) else h
                ok = isinstance(a, Term) and a.sort == b.sort and sub(a, b) is lift(kind[1], b.sort) and (not isinstance(kind[1], Term) or s.invariant_step(lc, kind[1]))
                if not ok: inf.phis[p.name] = ('free',); s.changed = True
        for (rn, o) in inf.cellmods:
            r = s.regions.get(rn)
            if r is None or r not in lc.hcells or o not in lc.hcells[r]: continue
            iv = lc.hcells[r][o]; nv = st.cells[r].get(o)
            if isinstance(iv, Term) and iv.sort == 'I' and isinstance(nv, Term):
                kk = inf.cellkind.get((rn,o)); 
                if kk is None:
                    # header value is a fresh var; find it
                    hvv = next((x for x in lc.hphi if x.op == 'var' and x.args[0].startswith('%s@%d.' % (rn,o))), None)
                    d = sub(nv, hvv) if hvv is not None and nv.sort == 'I' else None
                    inf.cellkind[(rn,o)] = ('affine', d.args[0]) if d is not None and d.op == 'const' else ('free',)
                    s.changed = True
                elif kk[0] == 'affine':
                    want = add(iv, mul(I(kk[1]), k1))
                    if nv is not want: inf.cellkind[(rn,o)] = ('free',); s.changed = True
            if isinstance(iv, Ptr) and isinstance(nv, Ptr) and nv.reg is not iv.reg: raise Unsupported('pointer cell changes region')
            if isinstance(iv, Ptr) and not isinstance(nv, Ptr): raise Unsupported('pointer cell')
        for g in inf.ghostmods:
            iv = lc.hghost[g]; nv = st.ghost[g]
            if iv.sort == 'I':
                kk = inf.cellkind.get(('ghost',g))
                if kk is None:
                    hvv = next((x for x in lc.hphi if x.op == 'var' and x.args[0].startswith(g + '.')), None)
                    d = sub(nv, hvv) if hvv is not None else None
                    inf.cellkind[('ghost',g)] = ('affine', d.args[0]) if d is not None and d.op == 'const' else ('free',)
                    s.changed = True
                elif kk[0] == 'affine':
                    if nv is not add(iv, mul(I(kk[1]), k1)): inf.cellkind[('ghost',g)] = ('free',); s.changed = True
        if s.mode == 'struct': return
        fr.env.update(vals)
        s.check_inv(st, fr, lc, k1, vals, 'preserved')
    def unwind(s, st):
        while st.frames:
            fr = st.frames[-1]
            ins = fr.block.instrs[fr.pc] if fr.pc < len(fr.block.instrs) else None
            if ins is not None and ins.op == 'invoke':
                st.trace.append('unwind')
                return s.goto(st, ins.x['unwind'])
            st.frames.pop()
        st.exc = 'throw'
        s.at_throw(st)
        return False
    def at_exit(s, st, v):
        s.exits.append(('return', list(st.pc), st))
        if s.mode == 'final':
            s.c.post(s, st, v)
    def throwntypes(s, st): return st.thrown
    def at_throw(s, st):
        s.exits.append(('throw', list(st.pc), st))
        if s.mode == 'final':
            s.c.on_throw(s, st)
    # ---- instructions
    def icmp(s, st, ins):
        a = s.value(st, ins.ops[0]); b = s.value(st, ins.ops[1]); p = ins.x
        if isinstance(a, Undef) or isinstance(b, Undef): return s.fv(st,'undefb','B')
        if isinstance(a, (Ptr,FnPtr)) or isinstance(b, (Ptr,FnPtr)):
            if isinstance(a, FnPtr) or isinstance(b, FnPtr):
                if isinstance(a, FnPtr) and isinstance(b, FnPtr): same = a.fn is b.fn
                else: same = False
                return (TRUE if same else FALSE) if p == 'eq' else (FALSE if same else TRUE)
            if not (isinstance(a, Ptr) and isinstance(b, Ptr)): raise Unsupported('ptr cmp')
            if a.reg is not b.reg and hasattr(s.c, 'ptrcmp'):
                r = s.c.ptrcmp(s, st, a, b)
                if r is not None and p in ('eq','ne'): return r if p == 'eq' else not_(r)
            if a.reg is b.reg:
                d = {'eq':eq,'ne':ne,'ult':lt,'ule':le,'ugt':gt,'uge':ge,'slt':lt,'sle':le,'sgt':gt,'sge':ge}[p](a.off, b.off)
                return d
            if p in ('eq','ne'):
                r = FALSE
                n = a if a.reg is NULL else b if b.reg is NULL else None
                o = b if n is a else a
                if n is not None and o.reg.isnull is not None: r = o.reg.isnull
                return r if p == 'eq' else not_(r)
            raise Unsupported('ordering of unrelated pointers')
        if isinstance(a, Term) and isinstance(b, Term) and a.sort == 'B' and b.sort == 'B':
            if p == 'eq': return eq(a,b)
            if p == 'ne': return not_(eq(a,b))
            if p == 'ult': return and_(not_(a), b)
            if p == 'ugt': return and_(a, not_(b))
        a, b = s.asint(a), s.asint(b)
        if p == 'eq': return eq(a,b)
        if p == 'ne': return ne(a,b)
        if p[0] == 's': return {'slt':lt,'sle':le,'sgt':gt,'sge':ge}[p](a,b)
        if p in ('ugt','uge'):
            a, b = b, a; p = {'ugt':'ult','uge':'ule'}[p]
        return s.ucmp(st, p, a, b)
    def ucmp(s, st, p, a, b):
        f = lt if p == 'ult' else le
        na = s.nonneg(st, a); nb = s.nonneg(st, b)
        if na and nb: return f(a,b)
        if nb: return and_(le(I(0),a), f(a,b))
        if na: return or_(lt(b,I(0)), f(a,b))
        return or_(and_(lt(b,I(0)), le(I(0),a)), and_(f(a,b), or_(le(I(0),a), lt(b,I(0)))))
    def nonneg(s, st, a):
        if a.op == 'const': return a.args[0] >= 0
        g = le(I(0), a)
        if g in st.pc: return True
        d = T.poly(a)
        return all(c >= 0 and all(le(I(0),x) in st.pc for x in m) for m,c in d.items())
    def simple(s, st, fr, ins):
        op = ins.op; V = lambda i: s.value(st, ins.ops[i])
        env = fr.env
        if op == 'load': env[ins] = s.load(st, V(0), ins.ty)
        elif op == 'store':
            v = V(0); s.storev(st, V(1), v, ins.ops[0].ty)
        elif op == 'gep': env[ins] = s.gep(V(0), ins.x, [s.value(st, o) for o in ins.ops[1:]])
        elif op == 'alloca':
            nm = 'stk.%s.%s' % ('/'.join(s.site(k) for k in fr.key) , ins.name or str(fr.block.instrs.index(ins)))
            if fr.loops: nm += '.'+str(len(fr.loops))
            r = Region(nm, kind='cells'); s.regions[nm] = r
            shape = s.stackarr.get(nm)
            if shape: s.stackarray(st, r, *shape)
            else: st.cells[r] = {}; r.aty = ins.x
            env[ins] = Ptr(r, I(0))
        elif op in ('add','sub','mul'):
            a, b = V(0), V(1)
            if isinstance(a, Undef) or isinstance(b, Undef): env[ins] = UNDEF; return
            if isinstance(a, tuple) and a[0] == 'ptrint' or isinstance(b, tuple) and b[0] == 'ptrint':
                if op == 'sub' and isinstance(a, tuple) and isinstance(b, tuple) and a[1].reg is b[1].reg:
                    env[ins] = sub(a[1].off, b[1].off); return
                raise Unsupported('pointer arithmetic')
            a, b = s.asint(a), s.asint(b)
            env[ins] = {'add':add,'sub':sub,'mul':mul}[op](a,b)
        elif op in ('and','or','xor'):
            a, b = V(0), V(1)
            if isinstance(a, Undef) or isinstance(b, Undef): env[ins] = UNDEF; return
            if ins.ty.width == 1:
                env[ins] = and_(a,b) if op == 'and' else or_(a,b) if op == 'or' else not_(eq(a,b))
            else:
                a, b = s.asint(a), s.asint(b)
                if b.op == 'const' and op == 'xor' and b.args[0] == -1: env[ins] = sub(I(-1), a)
                elif b.op == 'const' and op == 'and' and b.args[0] >= 0 and (b.args[0] & (b.args[0]+1)) == 0 :
                    env[ins] = s.divmod(a, I(b.args[0]+1))[1] if not (b.args[0] >= (1<<31)-1) else a
                elif b.op == 'const' and op == 'and' and b.args[0] < 0 and (-b.args[0] & (-b.args[0]-1)) == 0:
                    env[ins] = mul(I(-b.args[0]), s.divmod(a, I(-b.args[0]))[0])
                elif op == 'or': env[ins] = self_or(s, st, a, b)
                elif op == 'xor' and s.isbool(a) and s.isbool(b): env[ins] = ite(eq(a,b), I(0), I(1))
                elif op == 'and' and (s.isbool(a) or s.isbool(b)):
                    env[ins] = app('bvand', (a,b), 'I')
                else: env[ins] = app('bv'+op, (a,b), 'I')
        elif op == 'shl':
            a, b = V(0), V(1)
            if b.op != 'const': raise Unsupported('shl')
            env[ins] = mul(s.asint(a), I(1 << b.args[0]))
        elif op in ('lshr','ashr'):
            a, b = V(0), V(1)
            if b.op != 'const': raise Unsupported('shr')
            env[ins] = s.divmod(s.asint(a), I(1 << b.args[0]))[0]
        elif op in ('udiv','sdiv','urem','srem'):
            a, b = s.asint(V(0)), s.asint(V(1)); q, r = s.divmod(a, b)
            if op[0] == 's' and r is not I(0): s.require(st, 'signed division of nonnegative numbers', and_(le(I(0),a), lt(I(0),b)), 'safety')     # truncation = floor only then
            env[ins] = q if op.endswith('div') else r
        elif op in ('zext','sext'):
            v = V(0)
            if isinstance(v, Term) and v.sort == 'B': v = ite(v, I(1 if op == 'zext' else -1), I(0))
            env[ins] = v
        elif op == 'trunc':
            v = V(0)
            if isinstance(v, Undef): env[ins] = v
            elif ins.ty.width == 1: env[ins] = v if v.sort == 'B' else s.tobool(v)
            else: env[ins] = v
        elif op in ('sitofp','uitofp'):
            v = s.asint(V(0))
            env[ins] = toreal(v)
        elif op in ('fptosi','fptoui'):
            x = V(0); q = app('fptoi', (x,), 'I'); env[ins] = q; f = toreal(q)
            s.assume(st, implies(le(R(0),x), and_(le(f,x), lt(x,add(f,R(1)))))); s.assume(st, implies(lt(x,R(0)), and_(le(x,f), lt(sub(f,R(1)),x))))    # truncation
        elif op in ('fpext','fptrunc','freeze','bitcast'):
            v = V(0); env[ins] = v[1] if op == 'bitcast' and isinstance(v, tuple) and v[0] == 'bits' and s.tysort(ins.ty) == 'R' else v
        elif op in ('fadd','fsub','fmul','fdiv','fneg'):
            vs = [V(i) for i in range(len(ins.ops))]
            if any(isinstance(v, Undef) for v in vs): env[ins] = s.fv(st,'undefr','R'); return
            if any(isinstance(v, tuple) for v in vs): env[ins] = s.fv(st,'special','R'); return
            if op == 'fneg': env[ins] = neg(vs[0])
            elif op == 'fdiv': env[ins] = mul(vs[0], inv(vs[1]))
            else: env[ins] = {'fadd':add,'fsub':sub,'fmul':mul}[op](*vs)
        elif op == 'fcmp': env[ins] = s.fcmp(st, ins.x, V(0), V(1))
        elif op == 'ptrtoint':
            p = V(0)
            env[ins] = ('ptrint', p) if isinstance(p, Ptr) else ('fnint', p)
        elif op == 'inttoptr':
            p = V(0)
            if isinstance(p, tuple) and p[0] == 'ptrint': env[ins] = p[1]
            elif p is I(0): env[ins] = Ptr(NULL, I(0))
            else: raise Unsupported('inttoptr')
        elif op == 'extractvalue':
            v = V(0)
            for i in ins.x: v = v.vals[i] if isinstance(v, Agg) else UNDEF
            env[ins] = v
        elif op == 'insertvalue':
            v = V(0); x = V(1)
            if len(ins.x) != 1: raise Unsupported('insertvalue')
            if not isinstance(v, Agg): v = Agg([UNDEF]*len(ins.ty.fields))
            n = Agg(v.vals); n.vals[ins.x[0]] = x; env[ins] = n
        elif op == 'landingpad':
            env[ins] = Agg([Ptr(s.excreg(), I(0)), s.fv(st,'excsel','I')])
        elif op == 'fence': pass
        elif op == 'atomicrmw':
            p = V(0); v = V(1); old = s.load(st, p, ins.ty); env[ins] = old
            if ins.x == 1: s.storev(st, p, add(old, v), ins.ty)
            elif ins.x == 2: s.storev(st, p, sub(old, v), ins.ty)
            elif ins.x == 0: s.storev(st, p, v, ins.ty)
            else: raise Unsupported('atomicrmw')
        else: raise Unsupported('instruction ' + op)
    def excreg(s):
        if 'exc' not in s.regions: s.region('exc', kind='cells')
        return s.regions['exc']
    def isbool(s, v): return v.op == 'ite' and all(x.op == 'const' and x.args[0] in (0,1) for x in v.args[1:]) or v.op == 'const' and v.args[0] in (0,1) or v.op == 'imod' and v.args[1] is I(2)
    def tobool(s, v):
        if v.op == 'ite' and v.args[1] is I(1) and v.args[2] is I(0): return v.args[0]
        return ne(v, I(0))
    def divmod(s, a, b):
        if a.op == 'const' and b.op == 'const' and b.args[0] != 0 and a.args[0] >= 0 and b.args[0] > 0:
            return I(a.args[0]//b.args[0]), I(a.args[0]%b.args[0])
        if b.op == 'const' and b.args[0] > 0:
            d = T.poly(a); n = b.args[0]
            if all(c % n == 0 for c in d.values()):
                return T.mkpoly({m:c//n for m,c in d.items()}, 'I'), I(0)
        return mk('idiv', (a,b), 'I'), mk('imod', (a,b), 'I')
    def fcmp(s, st, p, a, b):
        if isinstance(a, Undef) or isinstance(b, Undef): return s.fv(st,'undefb','B')
        if isinstance(a, tuple) or isinstance(b, tuple):
            h = getattr(s.c, 'special_cmp', None)
            if h: return h(s, st, p, a, b)
            return s.spec_cmp(st, p, a, b)
        if p in ('ord','true'): return TRUE
        if p in ('uno','false'): return FALSE
        q = p[1:]
        return {'eq':eq,'ne':ne,'lt':lt,'le':le,'gt':gt,'ge':ge}[q](a,b)
    def spec_cmp(s, st, p, a, b):
        # finite reals against +-inf / nan constants
        x, y = (a[1] if isinstance(a, tuple) else 0.0), (b[1] if isinstance(b, tuple) else 0.0)
        if x != x or y != y: return TRUE if p[0] == 'u' and p != 'uno' or p == 'uno' else FALSE
        q = p[1:] if p not in ('ord','uno','true','false') else p
        if q in ('ord','true'): return TRUE
        if q in ('uno','false'): return FALSE
        return TRUE if {'eq':x==y,'ne':x!=y,'lt':x<y,'le':x<=y,'gt':x>y,'ge':x>=y}[q] else FALSE
    # ---- calls
    def call(s, st, fr, ins):
        cal = ins.x['callee']
        if isinstance(cal, llvm.Const) and cal.kind == 'func': fn = cal.v
        elif isinstance(cal, llvm.Const): raise Unsupported('call %r' % cal)
        else:
            t = s.value(st, cal)
            if isinstance(t, FnPtr): fn = t.fn
            else: raise Unsupported('indirect call through %r' % (t,))
        args = [s.value(st, o) if o.ty.kind != 'meta' else None for o in ins.ops]
        h = s.handlers.get(fn.name)
        if h is None:
            for pre, hh in s.intrin:
                if fn.name.startswith(pre): h = hh; break
        if h is None and hasattr(s.c, 'handler'): h = s.c.handler(s, fn.name)
        if h is not None:
            r = h(s, st, ins, args)
            if isinstance(r, tuple) and r and r[0] == 'ret': fr.env[ins] = r[1]; return 'ok'
            if r in ('throw','end'): return r
            if isinstance(r, list): return r
            if r == 'pushed': return None
            fr.env[ins] = r
            return 'ok'
        if fn.decl: raise Unsupported('external function ' + fn.name)
        s.call_function(st, fn, args, ins)
        return None
    def vacuity(s):
        """Reason why the run proves nothing, or None: some exit must be reachable under the assumptions."""
        want = getattr(s.c, 'expect_exit', 'return')
        ex = [e for e in s.exits if e[0] == want] or s.exits
        if not ex: return 'no exit is reachable'
        if not s.obls: return 'no obligations'
        for kind, pc, st in ex[:12]:
            r = solve.check(pc + s.quantfacts(st), FALSE, timeout=2000, modes=('uf',), depth=s.o['depth'])
            if r[0] != 'proved': return None
        return 'the assumptions at every exit are contradictory'
class PathEnd(Exception): pass
class Restart(Exception): pass
def toreal(v):
    if v.op == 'const': return R(v.args[0])
    d = T.poly(v)
    if d != {(v,):1}:
        r = R(0)
        for m,c in d.items():
            x = R(c)
            for a in m: x = mul(x, mk('toreal',(a,),'R'))
            r = add(r, x)
        return r
    if v.op == 'ite': return ite(v.args[0], toreal(v.args[1]), toreal(v.args[2]))
    return mk('toreal', (v,), 'R')
def self_or(s, st, a, b):
    if a.op == 'const' and a.args[0] == 0: return b
    if b.op == 'const' and b.args[0] == 0: return a
    if a.op == 'const': a, b = b, a
    if b.op == 'const' and b.args[0] > 0 and all(c % (1 << b.args[0].bit_length()) == 0 for c in T.poly(a).values()): return add(a, b)
    if s.isbool(a) and s.isbool(b): return ite(or_(s.tobool(a), s.tobool(b)), I(1), I(0))
    return app('bvor', (a,b), 'I')
class Contract:
    """Base: one function under contract."""
    name = '?'; opts = {}
    def setup(s, eng, st): raise NotImplementedError
    def invariants(s, eng, v): return []
    def post(s, eng, st, ret): pass
    def on_throw(s, eng, st): eng.require(st, 'no exception is thrown', FALSE)
