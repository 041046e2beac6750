"""Load LLVM IR through the LLVM-C API (ctypes) into plain Python objects.

The IR is what clang emits for a driver translation unit that instantiates the
templates of /repo/dune/istl; nothing is written by hand in between."""
import ctypes as C, re
_L = C.CDLL('/usr/lib/llvm-18/lib/libLLVM.so.1')
P = C.c_void_p
def _f(name, res, *args):
    fn = getattr(_L, name); fn.restype = res; fn.argtypes = list(args); return fn
_ctx = _f('LLVMContextCreate', P)
_membuf = _f('LLVMCreateMemoryBufferWithContentsOfFile', C.c_int, C.c_char_p, C.POINTER(P), C.POINTER(C.c_char_p))
_parse = _f('LLVMParseIRInContext', C.c_int, P, P, C.POINTER(P), C.POINTER(C.c_char_p))
_ffirst = _f('LLVMGetFirstFunction', P, P); _fnext = _f('LLVMGetNextFunction', P, P)
_gfirst = _f('LLVMGetFirstGlobal', P, P); _gnext = _f('LLVMGetNextGlobal', P, P)
_ginit = _f('LLVMGetInitializer', P, P); _gconst = _f('LLVMIsGlobalConstant', C.c_int, P)
_bfirst = _f('LLVMGetFirstBasicBlock', P, P); _bnext = _f('LLVMGetNextBasicBlock', P, P)
_ifirst = _f('LLVMGetFirstInstruction', P, P); _inext = _f('LLVMGetNextInstruction', P, P)
_bname = _f('LLVMGetBasicBlockName', C.c_char_p, P)
_opc = _f('LLVMGetInstructionOpcode', C.c_int, P)
_nops = _f('LLVMGetNumOperands', C.c_int, P); _op = _f('LLVMGetOperand', P, P, C.c_uint)
_vname = _f('LLVMGetValueName2', C.c_char_p, P, C.POINTER(C.c_size_t))
_vkind = _f('LLVMGetValueKind', C.c_int, P)
_typeof = _f('LLVMTypeOf', P, P); _tkind = _f('LLVMGetTypeKind', C.c_int, P)
_iwidth = _f('LLVMGetIntTypeWidth', C.c_uint, P)
_print = _f('LLVMPrintValueToString', P, P); _tprint = _f('LLVMPrintTypeToString', P, P)
_dispose = _f('LLVMDisposeMessage', None, P)
_phin = _f('LLVMCountIncoming', C.c_uint, P); _phiv = _f('LLVMGetIncomingValue', P, P, C.c_uint)
_phib = _f('LLVMGetIncomingBlock', P, P, C.c_uint)
_icmp = _f('LLVMGetICmpPredicate', C.c_int, P); _fcmp = _f('LLVMGetFCmpPredicate', C.c_int, P)
_nsucc = _f('LLVMGetNumSuccessors', C.c_uint, P); _succ = _f('LLVMGetSuccessor', P, P, C.c_uint)
_cisext = _f('LLVMConstIntGetSExtValue', C.c_longlong, P)
_creal = _f('LLVMConstRealGetDouble', C.c_double, P, C.POINTER(C.c_int))
_called = _f('LLVMGetCalledValue', P, P); _nargs = _f('LLVMGetNumArgOperands', C.c_uint, P)
_gepty = _f('LLVMGetGEPSourceElementType', P, P)
_copc = _f('LLVMGetConstOpcode', C.c_int, P)
_nidx = _f('LLVMGetNumIndices', C.c_uint, P); _idx = _f('LLVMGetIndices', C.POINTER(C.c_uint), P)
_dl = _f('LLVMGetModuleDataLayout', P, P)
_sizeof = _f('LLVMABISizeOfType', C.c_ulonglong, P, P)
_offset = _f('LLVMOffsetOfElement', C.c_ulonglong, P, P, C.c_uint)
_nel = _f('LLVMCountStructElementTypes', C.c_uint, P); _sel = _f('LLVMStructGetTypeAtIndex', P, P, C.c_uint)
_ael = _f('LLVMGetElementType', P, P); _alen = _f('LLVMGetArrayLength2', C.c_ulonglong, P)
_allocty = _f('LLVMGetAllocatedType', P, P)
_nparams = _f('LLVMCountParams', C.c_uint, P); _param = _f('LLVMGetParam', P, P, C.c_uint)
_isdecl = _f('LLVMIsDeclaration', C.c_int, P)
_ndest = _f('LLVMGetNormalDest', P, P); _udest = _f('LLVMGetUnwindDest', P, P)
_iscond = _f('LLVMIsConditional', C.c_int, P); _cond = _f('LLVMGetCondition', P, P)
_aggel = _f('LLVMGetAggregateElement', P, P, C.c_uint)
_iscleanup = _f('LLVMIsCleanup', C.c_int, P)
_armwop = _f('LLVMGetAtomicRMWBinOp', C.c_int, P)
_verify = _f('LLVMVerifyModule', C.c_int, P, C.c_int, C.POINTER(C.c_char_p))

OPC = {1:'ret',2:'br',3:'switch',4:'indirectbr',5:'invoke',7:'unreachable',8:'add',9:'fadd',10:'sub',11:'fsub',
 12:'mul',13:'fmul',14:'udiv',15:'sdiv',16:'fdiv',17:'urem',18:'srem',19:'frem',20:'shl',21:'lshr',22:'ashr',
 23:'and',24:'or',25:'xor',26:'alloca',27:'load',28:'store',29:'gep',30:'trunc',31:'zext',32:'sext',33:'fptoui',
 34:'fptosi',35:'uitofp',36:'sitofp',37:'fptrunc',38:'fpext',39:'ptrtoint',40:'inttoptr',41:'bitcast',
 42:'icmp',43:'fcmp',44:'phi',45:'call',46:'select',49:'vaarg',50:'extractelement',51:'insertelement',
 52:'shufflevector',53:'extractvalue',54:'insertvalue',55:'fence',56:'cmpxchg',57:'atomicrmw',58:'resume',
 59:'landingpad',60:'addrspacecast',66:'fneg',67:'callbr',68:'freeze'}
ICMP = {32:'eq',33:'ne',34:'ugt',35:'uge',36:'ult',37:'ule',38:'sgt',39:'sge',40:'slt',41:'sle'}
FCMP = {0:'false',1:'oeq',2:'ogt',3:'oge',4:'olt',5:'ole',6:'one',7:'ord',8:'uno',9:'ueq',10:'ugt',11:'uge',12:'ult',13:'ule',14:'une',15:'true'}
# value kinds (LLVMValueKind)
VK_ARG, VK_BB, VK_MEMUSE, VK_FUNC, VK_ALIAS, VK_IFUNC, VK_GVAR = 0,1,2,5,6,7,8
VK_BLOCKADDR, VK_CEXPR, VK_CARRAY, VK_CSTRUCT, VK_CVEC = 9,10,11,12,13
VK_UNDEF, VK_AGGZERO, VK_DARRAY, VK_DVEC, VK_CINT, VK_CFP, VK_CNULL, VK_TOKNONE = 14,15,16,17,18,19,20,21
VK_INSTR, VK_POISON = 24,25

class Ty:
    __slots__ = ('kind','width','size','fields','elem','count','text')
    def __repr__(self): return self.text
class Val: pass
class Arg(Val):
    def __init__(s, name, ty, no): s.name, s.ty, s.no = name, ty, no
class Const(Val):
    # kind: int real null undef global func agg zero cexpr
    def __init__(s, kind, ty, v=None): s.kind, s.ty, s.v = kind, ty, v
    def __repr__(s): return f'Const({s.kind},{s.v})'
class Instr(Val):
    __slots__ = ('op','ty','ops','x','name','block','text','_raw')
class Block:
    def __init__(s, name, fn): s.name, s.fn, s.instrs, s.succs, s.preds = name, fn, [], [], []
    def __repr__(s): return '%'+s.name
class Func:
    def __init__(s, name): s.name, s.args, s.blocks, s.decl = name, [], [], True
class Glob:
    def __init__(s, name): s.name, s.init, s.const, s.ty = name, None, False, None

class Module:
    def __init__(self, path):
        ctx = _ctx(); buf = P(); err = C.c_char_p(); mod = P()
        if _membuf(path.encode(), C.byref(buf), C.byref(err)): raise IOError(err.value)
        if _parse(ctx, buf, C.byref(mod), C.byref(err)): raise IOError(err.value)
        self.mod = mod; self.dl = _dl(mod); self._ty = {}; self._gl = {}; self._fn = {}
        self.funcs = {}; self.globals = {}
        f = _ffirst(mod)
        while f:
            fn = Func(self.name(f)); fn._raw = f; fn.decl = bool(_isdecl(f)); self._fn[f] = fn; self.funcs[fn.name] = fn
            f = _fnext(f)
        g = _gfirst(mod)
        while g:
            gl = Glob(self.name(g)); gl._raw = g; gl.const = bool(_gconst(g)); self._gl[g] = gl; self.globals[gl.name] = gl
            g = _gnext(g)
        self._loaded = set()
    def name(self, v):
        n = C.c_size_t(); s = _vname(v, C.byref(n)); return s.decode() if s else ''
    def glob_init(self, gl):
        if gl.init is None:
            i = _ginit(gl._raw)
            if i: gl.init = self.val(i, {})
        return gl.init
    def ty(self, t):
        r = self._ty.get(t)
        if r is not None: return r
        k = _tkind(t); r = Ty(); self._ty[t] = r; r.width = r.size = 0; r.fields = r.elem = r.count = None
        p = _tprint(t); r.text = C.cast(p, C.c_char_p).value.decode(); _dispose(p)
        r.kind = {0:'void',2:'float',3:'double',4:'x86fp80',7:'label',8:'int',9:'func',10:'struct',11:'array',12:'ptr',13:'vector',14:'meta',16:'token'}.get(k,'k%d'%k)
        if r.kind == 'int': r.width = _iwidth(t); r.size = max(1, _sizeof(self.dl, t))
        elif r.kind == 'struct':
            n = _nel(t); r.size = _sizeof(self.dl, t) if 'opaque' not in r.text else 0
            r.fields = [(_offset(self.dl, t, i), self.ty(_sel(t, i))) for i in range(n)]
        elif r.kind == 'array':
            r.elem = self.ty(_ael(t)); r.count = _alen(t); r.size = r.elem.size * r.count
        elif r.kind in ('double','float','ptr','x86fp80','vector'): r.size = _sizeof(self.dl, t)
        return r
    def text(self, v):
        p = _print(v); s = C.cast(p, C.c_char_p).value.decode(); _dispose(p); return s.strip()
    def val(self, v, loc):
        if v in loc: return loc[v]
        k = _vkind(v); ty = self.ty(_typeof(v))
        if k == VK_CINT:
            if ty.width > 64:
                return Const('int', ty, int(re.search(r'(-?\d+)$', self.text(v)).group(1)))
            x = _cisext(v)
            if ty.width == 1: x = x & 1
            return Const('int', ty, x)
        if k == VK_CFP:
            l = C.c_int(); return Const('real', ty, _creal(v, C.byref(l)))
        if k == VK_CNULL: return Const('null', ty)
        if k in (VK_UNDEF, VK_POISON): return Const('undef', ty)
        if k == VK_FUNC: return Const('func', ty, self._fn[v])
        if k == VK_GVAR: return Const('global', ty, self._gl[v])
        if k == VK_AGGZERO: return Const('zero', ty)
        if k in (VK_CARRAY, VK_CSTRUCT):
            return Const('agg', ty, [self.val(_op(v,i), loc) for i in range(_nops(v))])
        if k in (VK_DARRAY, VK_DVEC):
            return Const('agg', ty, [self.val(_aggel(v,i), loc) for i in range(ty.count or 0)])
        if k == VK_CEXPR:
            oc = OPC[_copc(v)]; ops = [self.val(_op(v,i), loc) for i in range(_nops(v))]
            x = self.ty(_gepty(v)) if oc == 'gep' else None
            return Const('cexpr', ty, (oc, ops, x))
        return Const('other', ty, self.text(v)[:80])
    def load(self, fn):
        if fn.name in self._loaded or fn.decl: return fn
        self._loaded.add(fn.name)
        loc = {}; bl = {}
        for i in range(_nparams(fn._raw)):
            p = _param(fn._raw, i); a = Arg(self.name(p) or 'arg%d'%i, self.ty(_typeof(p)), i); loc[p] = a; fn.args.append(a)
        b = _bfirst(fn._raw); cnt = 0
        while b:
            nm = (_bname(b) or b'').decode() or 'bb%d'%cnt
            blk = Block(nm, fn); bl[b] = blk; fn.blocks.append(blk); cnt += 1
            i = _ifirst(b)
            while i:
                ins = Instr(); ins._raw = i; ins.op = OPC.get(_opc(i), 'op%d'%_opc(i)); ins.ty = self.ty(_typeof(i)); ins.block = blk
                ins.name = self.name(i); ins.text = None; ins.x = None; ins.ops = []
                loc[i] = ins; blk.instrs.append(ins)
                i = _inext(i)
            b = _bnext(b)
        V = lambda v: self.val(v, loc)
        for blk in fn.blocks:
            for ins in blk.instrs:
                i = ins._raw; op = ins.op
                if op == 'phi':
                    ins.x = [(bl[_phib(i,k)], V(_phiv(i,k))) for k in range(_phin(i))]
                elif op == 'br':
                    ins.x = [bl[_succ(i,k)] for k in range(_nsucc(i))]
                    ins.ops = [V(_cond(i))] if _iscond(i) else []
                    blk.succs = ins.x
                elif op == 'switch':
                    n = _nsucc(i); ins.ops = [V(_op(i,0))]
                    # operands: cond, default, (val, dest)*
                    ins.x = (bl[_succ(i,0)], [(V(_op(i,2*k)), bl[_succ(i,k)]) for k in range(1,n)])
                    blk.succs = [bl[_succ(i,k)] for k in range(n)]
                elif op in ('call','invoke'):
                    ins.ops = [V(_op(i,k)) for k in range(_nargs(i))]
                    cal = V(_called(i)); ins.x = {'callee': cal}
                    if op == 'invoke':
                        ins.x['normal'] = bl[_ndest(i)]; ins.x['unwind'] = bl[_udest(i)]
                        blk.succs = [ins.x['normal'], ins.x['unwind']]
                elif op == 'gep':
                    ins.ops = [V(_op(i,k)) for k in range(_nops(i))]; ins.x = self.ty(_gepty(i))
                elif op in ('extractvalue','insertvalue'):
                    ins.ops = [V(_op(i,k)) for k in range(_nops(i))]
                    n = _nidx(i); ix = _idx(i); ins.x = [ix[k] for k in range(n)]
                elif op == 'alloca':
                    ins.x = self.ty(_allocty(i)); ins.ops = [V(_op(i,0))]
                else:
                    ins.ops = [V(_op(i,k)) for k in range(_nops(i)) if _vkind(_op(i,k)) != VK_BB]
                    if op == 'icmp': ins.x = ICMP[_icmp(i)]
                    elif op == 'fcmp': ins.x = FCMP[_fcmp(i)]
                    elif op == 'landingpad': ins.x = bool(_iscleanup(i))
                    elif op == 'atomicrmw': ins.x = _armwop(i)
        for blk in fn.blocks:
            for s in blk.succs: s.preds.append(blk)
        self._loops(fn)
        return fn
    def get(self, name): return self.load(self.funcs[name])
    def _loops(self, fn):
        bs = fn.blocks; ent = bs[0]; seen = set(); order = []
        st = [(ent, iter(ent.succs))]; seen.add(ent)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen: seen.add(s); st.append((s, iter(s.succs))); break
            else: order.append(b); st.pop()
        order.reverse(); num = {b:i for i,b in enumerate(order)}
        idom = {ent: ent}; ch = True
        while ch:
            ch = False
            for b in order[1:]:
                new = None
                for p in b.preds:
                    if p in idom:
                        if new is None: new = p
                        else:
                            x, y = p, new
                            while x is not y:
                                while num[x] > num[y]: x = idom[x]
                                while num[y] > num[x]: y = idom[y]
                            new = x
                if idom.get(b) is not new: idom[b] = new; ch = True
        def dom(a, b):
            while True:
                if a is b: return True
                if b is ent: return False
                b = idom[b]
        fn.loops = {}; fn.irreducible = False; fn.rpo = num
        for b in order:
            for s in b.succs:
                if num.get(s, 1<<30) <= num[b]:
                    if not dom(s, b): fn.irreducible = True; continue
                    body = fn.loops.setdefault(s, set([s])); st = [b]
                    while st:
                        x = st.pop()
                        if x not in body:
                            body.add(x); st.extend(p for p in x.preds if p in seen)
