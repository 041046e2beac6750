"""Contracts assumed for library functions and LLVM intrinsics (the trusted boundary)."""
from .terms import *
from . import terms as T
def _ret(v): return ('ret', v)
def nop(s, st, ins, a): return _ret(None)
def _region_bytes(e, p):
    return p.reg
def memset(e, st, ins, a):
    p, val, n = a[0], a[1], a[2]
    from .engine import Unsupported, Ptr
    if p.reg is None: return _ret(None)
    if not (isinstance(val, Term) and val.op == 'const' and val.args[0] == 0): raise Unsupported('memset value')
    if p.reg.kind == 'cells':
        if n.op != 'const' or p.off.op != 'const': raise Unsupported('memset cells')
        cs = st.cells.setdefault(p.reg, {}); o = p.off.args[0]
        for x in [x for x in cs if o <= x < o+n.args[0]]: del cs[x]
        for x in range(o, o+n.args[0]):
            cs[x] = ('zero',); e.notemod(st, ('cell', p.reg, x))
        return _ret(None)
    if p.reg.stride is None: p.reg.stride = 8
    sd = p.reg.stride
    if not p.reg.fields: 
        from .engine import Field
        p.reg.fields[0] = Field('f0','R')
    if n.op == 'const' and n.args[0] % sd and n.args[0] % 8 == 0 and n.args[0] <= 256:      # part of a block
        for o in range(0, n.args[0], 8): e.storev(st, Ptr(p.reg, add(p.off, I(o))), R(0), _FakeTy('double', 8))
        return _ret(None)
    f, lo = e.split(p.reg, p.off, 8, 'R')
    q, r = e.divmod(n, I(sd))
    if r is not I(0): raise Unsupported('memset size %s %s %s' % (p.reg.name, sd, n))
    for ff in p.reg.fields.values():
        a0 = e.getarr(st, p.reg, ff.name)
        st.mem[(p.reg, ff.name)] = mk('mset', (a0, lo, add(lo,q), const(0, ff.sort)), a0.sort)
        e.notemod(st, ('mem', p.reg, ff.name))
    return _ret(None)
def memcpy(e, st, ins, a):
    from .engine import Unsupported, Ptr, Field
    d, s, n = a[0], a[1], a[2]
    if n.op == 'const' and n.args[0] == 0: return _ret(d)
    if d.reg is None or s.reg is None: 
        e.require(st, 'memcpy null with size 0', eq(n, I(0))); return _ret(d)
    if d.reg.opaque: return _ret(d)
    if s.reg.opaque: raise Unsupported('copy out of a family')
    if d.reg.kind == 'array' and s.reg.kind == 'const' and n.op == 'const':
        for o in range(0, n.args[0], 8): e.storev(st, Ptr(d.reg, add(d.off, I(o))), e.load(st, Ptr(s.reg, add(s.off, I(o))), _FakeTy('double', 8)), _FakeTy('double', 8))
        return _ret(d)
    if d.reg.kind == 'cells' and s.reg.kind in ('cells','const'):
        for q in (d, s):
            if q.off.op != 'const': e.retype(q.reg)
        if n.op != 'const' or d.off.op != 'const' or s.off.op != 'const': raise Unsupported('memcpy cells')
        so, do = s.off.args[0], d.off.args[0]
        if s.reg.kind == 'const':
            for o in range(0, n.args[0], 8): e.storev(st, Ptr(d.reg, add(d.off, I(o))), e.load(st, Ptr(s.reg, add(s.off, I(o))), _FakeTy('double', 8)), _FakeTy('double', 8))
            return _ret(d)
        cs = st.cells.setdefault(s.reg, {}); cd = st.cells.setdefault(d.reg, {})
        new = {x - so + do: v for x, v in cs.items() if so <= x < so + n.args[0]}
        for x in [x for x in cd if do <= x < do+n.args[0]]: del cd[x]
        cd.update(new)
        for x in new: e.notemod(st, ('cell', d.reg, x))
        return _ret(d)
    if d.reg.kind == 'array' and s.reg.kind == 'array' and s.reg.stride and d.reg.stride and n.op == 'const' and n.args[0] <= 512 and n.args[0] % 8 == 0 and (s.reg.stride != d.reg.stride or n.args[0] % s.reg.stride):
        vals = []
        for o in range(0, n.args[0], 8):
            c0 = T.poly(add(s.off,I(o))).get((),0) % s.reg.stride
            ff = s.reg.fields.get(c0)
            if ff is None: ff = s.reg.fields[c0] = Field('f%d' % c0, 'R')
            ty = _FakeTy({'R':'double','I':'int'}[ff.sort] if ff.target is None else 'ptr', 8)
            vals.append((o, e.load(st, Ptr(s.reg, add(s.off, I(o))), ty), ty))
        for o, v, ty in vals: e.storev(st, Ptr(d.reg, add(d.off, I(o))), v, ty)
        return _ret(d)
    if d.reg.kind == 'array' and s.reg.kind == 'array':
        if s.reg.stride is None and d.reg.stride is None: s.reg.stride = 8; s.reg.fields[0] = Field('f0','R')
        if d.reg.stride is None:
            d.reg.stride = s.reg.stride
            for o,f in s.reg.fields.items(): d.reg.fields[o] = Field(f.name, f.sort, f.target, None, f.size)
        if s.reg.stride is None:
            s.reg.stride = d.reg.stride
            for o,f in d.reg.fields.items(): s.reg.fields[o] = Field(f.name, f.sort, f.target, None, f.size)
        if d.reg.stride != s.reg.stride: raise Unsupported('memcpy strides')
        sd = d.reg.stride
        q, r = e.divmod(n, I(sd))
        if r is not I(0): raise Unsupported('memcpy size %s' % n)
        _, dlo = _idx(e, d, sd); _, slo = _idx(e, s, sd)
        if e.o['safety']:
            for reg, lo in ((d.reg, dlo), (s.reg, slo)):
                if reg.length is not None:
                    e.require(st, 'block copy in bounds of ' + reg.name, or_(eq(q,I(0)), and_(le(I(0),lo), le(add(lo,q), reg.length))), 'safety')
        if d.reg.readonly: e.require(st, 'frame: write to %s' % d.reg.name, eq(q, I(0)))
        for o, ff in list(s.reg.fields.items()):
            if q is I(1): st.idx += [(d.reg, ff.name, dlo), (s.reg, ff.name, slo)]
            if o not in d.reg.fields: d.reg.fields[o] = Field(ff.name, ff.sort, ff.target, None, ff.size)
            df = d.reg.fields[o]
            sa = e.getarr(st, s.reg, ff.name); da = e.getarr(st, d.reg, df.name)
            st.mem[(d.reg, df.name)] = mk('mcpy', (da, dlo, add(dlo,q), sa, sub(dlo,slo)), da.sort)
            e.notemod(st, ('mem', d.reg, df.name))
        return _ret(d)
    # small constant copies between an array element and cells
    if n.op == 'const' and n.args[0] <= 512:
        if d.reg.kind == 'cells' and d.off.op == 'const':
            cd = st.cells.setdefault(d.reg, {}); do = d.off.args[0]
            for o, ff in s.reg.fields.items():
                c0 = T.poly(s.off).get((),0) % s.reg.stride
                if c0 <= o < c0 + n.args[0]:
                    ty = _FakeTy({'R':'double','I':'int'}[ff.sort], ff.size)
                    cd[do + o - c0] = e.load(st, Ptr(s.reg, add(s.off, I(o-c0))), ty)
                    e.notemod(st, ('cell', d.reg, do + o - c0))
            return _ret(d)
        if s.reg.kind == 'cells' and s.off.op == 'const':
            so = s.off.args[0]
            for o, v in sorted(st.cells.get(s.reg, {}).items()):
                if so <= o < so + n.args[0] and isinstance(v, Term):
                    ty = _FakeTy({'R':'double','I':'int','B':'int'}[v.sort], 8)
                    e.storev(st, Ptr(d.reg, add(d.off, I(o-so))), v, ty)
            return _ret(d)
    raise Unsupported('memcpy kinds')
class _FakeTy:
    def __init__(s, k, size): s.kind, s.size, s.text, s.width = k, size, k, 64
def _idx(e, p, sd):
    d = T.poly(p.off); c0 = d.get((),0)
    from .engine import Unsupported
    if any(c % sd for c in d.values()): raise Unsupported('memcpy offset')
    return None, T.mkpoly({m:c//sd for m,c in d.items()}, 'I')
def fabs(e, st, ins, a):
    x = a[0]
    if isinstance(x, tuple): return _ret(x)
    return _ret(ite(le(R(0), x), x, neg(x)))
def sqrt(e, st, ins, a):
    x = a[0]; r = app('sqrt', (x,), 'R')
    e.assume(st, or_(lt(x,R(0)), le(R(0), r)))
    e.assume(st, or_(le(x,R(0)), lt(R(0), r)))
    e.assume(st, or_(lt(x,R(0)), eq(mul(r,r), x)))
    return _ret(r)
def cabs(e, st, ins, a):
    r = app('hypot', (a[0],a[1]), 'R'); e.assume(st, le(R(0), r)); return _ret(r)
def divdc3(e, st, ins, a):
    from .engine import Agg
    ar, ai, br, bi = a; d = inv(add(mul(br,br), mul(bi,bi)))
    return _ret(Agg([mul(add(mul(ar,br),mul(ai,bi)),d), mul(sub(mul(ai,br),mul(ar,bi)),d)]))
def muldc3(e, st, ins, a):
    from .engine import Agg
    ar, ai, br, bi = a
    return _ret(Agg([sub(mul(ar,br),mul(ai,bi)), add(mul(ar,bi),mul(ai,br))]))
def mx(cmp):
    def h(e, st, ins, a): return _ret(ite(cmp(a[0],a[1]), a[1], a[0]))
    return h
def opnew(e, st, ins, a):
    from .engine import Region, Ptr
    site = '.'.join(e.site(k) for k in st.frames[-1].key + ((ins.block.name, id(ins)),))
    nm = 'heap:' + site
    if nm in e.regions and st.frames[-1].loops: nm += '#%d' % len([k for k in e.regions if k.startswith(nm)])
    n = a[0]
    r = Region(nm); e.regions[nm] = r
    r.inloop = any(not lc.unrolled for f in st.frames for lc in f.loops)
    if n.op == 'const':
        r.kind = 'cells'; st.cells[r] = {}
    else:
        r.kind = 'array'; r.bytes = n
        h = getattr(e.c, 'alloc', None)
        if h: h(e, st, r, n)
    return _ret(Ptr(r, I(0)))
def opdel(e, st, ins, a): return _ret(None)
def throwntypes(st, ins):
    """types of the exceptions whose throw follows the current point (a Dune::Exception base is just being constructed)"""
    def name(i):
        c = i.x['callee'] if i.op in ('call','invoke') else None
        return c.v.name if c is not None and getattr(c, 'kind', '') == 'func' else ''
    if name(ins) == '__cxa_throw': return frozenset({ins.ops[1].v.name}) if getattr(ins.ops[1], 'kind', '') == 'global' else frozenset()
    for fr in reversed(st.frames):
        at = fr.block.instrs[fr.pc]; out = set(); seen = set(); work = [(fr.block, fr.pc+1)] if at.op == 'call' else []
        if at.op == 'invoke': work = [(at.x['normal'], 0)]
        while work:
            b, i = work.pop(); stop = False
            for q in b.instrs[i:]:
                if name(q) == '__cxa_throw':
                    o = q.ops[1]; out.add(o.v.name if getattr(o, 'kind', '') == 'global' else '?'); stop = True; break
                if q.op == 'invoke': nxt = [q.x['normal']]; break
            else: nxt = list(b.succs)
            if stop: continue
            for n in nxt:
                if n not in seen: seen.add(n); work.append((n, 0))
        if out: return frozenset(out)
    return frozenset()
def throw(e, st, ins, a):
    st.exc = 'throwing'; st.thrown = throwntypes(st, ins); return 'throw'
def allocexc(e, st, ins, a):
    from .engine import Region, Ptr
    nm = 'exc.' + ins.block.name
    r = Region(nm, kind='cells'); e.regions[nm] = r; st.cells[r] = {}
    r.lazy = lambda e2, st2, o, ty: fresh('exc', e2.tysort(ty))
    return _ret(Ptr(r, I(0)))
def vc_assert(e, st, ins, a):
    nm = 'assert'
    v = a[0]
    if v.sort == 'I': v = ne(v, I(0))
    if len(a) > 1: nm = cstr(e, a[1]) or nm
    e.require(st, nm, v); return _ret(None)
def cstr(e, p):
    try:
        c = p.reg.lazy; 
        return ''.join(chr(x.v & 255) for x in c.v if x.v)
    except Exception: return None
def vc_assume(e, st, ins, a):
    v = a[0]
    if v.sort == 'I': v = ne(v, I(0))
    e.assume(st, v); return _ret(None)
def vc_real(e, st, ins, a): return _ret(e.fv(st, 'nd', 'R'))
def vc_int(e, st, ins, a): return _ret(e.fv(st, 'ndi', 'I'))
def vc_size(e, st, ins, a):
    x = e.fv(st, 'nds', 'I'); e.assume(st, le(I(0), x)); return _ret(x)
def vc_bool(e, st, ins, a): return _ret(e.fv(st, 'ndb', 'B'))
def isfpclass(e, st, ins, a):
    # reals are finite: only the finite classes can hold
    from .engine import Unsupported
    h = getattr(e.c, 'fpclass', None)
    if h: return _ret(h(e, st, a))
    m = a[1].args[0]
    # 3: nan, 516: inf, 504 (0x1f8) finite
    if m & 0x1f8 == 0x1f8: return _ret(TRUE)
    if m & 0x1f8 == 0: return _ret(FALSE)
    raise Unsupported('fpclass')
def fmuladd(e, st, ins, a): return _ret(add(mul(a[0],a[1]), a[2]))
def retarg0(e, st, ins, a): return _ret(a[0] if a else None)
def nomem(e, st, ins, a): return 'end'      # allocation succeeds (assumption)
HANDLERS = {
 'cabs': cabs, 'hypot': cabs, '__divdc3': divdc3, '__muldc3': muldc3,
 'vc_assert': vc_assert, 'vc_assume': vc_assume, 'vc_real': vc_real, 'vc_int': vc_int, 'vc_size': vc_size, 'vc_bool': vc_bool,
 '_Znwm': opnew, '_Znam': opnew, '_ZdlPv': opdel, '_ZdlPvm': opdel, '_ZdaPv': opdel, '_ZdlPvSt11align_val_t': opdel, '_ZdlPvmSt11align_val_t': opdel,
 '_ZnwmSt11align_val_t': opnew,
 '_ZN4Dune9ExceptionC2Ev': throw, '_ZN4Dune9ExceptionC1Ev': throw,      # DUNE_THROW constructs the exception it throws: the exception leaves from here
 '__cxa_throw': throw, '__cxa_rethrow': throw, '__cxa_allocate_exception': allocexc, '__cxa_free_exception': nop,
 '_ZSt20__throw_length_errorPKc': nomem, '_ZSt17__throw_bad_allocv': nomem, '_ZSt28__throw_bad_array_new_lengthv': nomem,
 '_ZSt24__throw_out_of_range_fmtPKcz': throw, '__cxa_begin_catch': retarg0, '__cxa_end_catch': nop, '_ZSt9terminatev': throw,
 '__clang_call_terminate': lambda e, st, ins, a: 'end',
 'sqrt': sqrt, 'fabs': fabs, 'memset': memset, 'memcpy': memcpy, 'memmove': memcpy,
}
INTRIN = [('llvm.lifetime', nop), ('llvm.dbg', nop), ('llvm.assume', nop), ('llvm.experimental.noalias', nop), ('llvm.invariant', nop), ('llvm.stack', nop),
 ('llvm.fabs', fabs), ('llvm.sqrt', sqrt), ('llvm.memset', memset), ('llvm.memcpy', memcpy), ('llvm.memmove', memcpy),
 ('llvm.umax', mx(lt)), ('llvm.smax', mx(lt)), ('llvm.umin', mx(gt)), ('llvm.smin', mx(gt)), ('llvm.maxnum', mx(lt)), ('llvm.minnum', mx(gt)),
 ('llvm.fmuladd', fmuladd), ('llvm.is.fpclass', isfpclass), ('llvm.expect', retarg0),
]
from .engine import Ptr
