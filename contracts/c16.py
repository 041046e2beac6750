"""C16: operator and solver adapters are transparent."""
from vc.common import *
from vc.terms import *
from vc.engine import toreal
from fractions import Fraction
LEVEL = 'proof'
NOTE = ('MatrixAdapter, SeqScalarProduct, SeqSSOR, SeqSOR (both directions), SeqGS, SeqJac, SeqDILU, SeqILU (levels 0 and n, with and without resorting), Richardson, InverseOperator2Preconditioner: constructor, pre, apply and post, for every number of sweeps and every factor. '
        'The sweeps, factorizations, products and norms they call are used through their contract only (uninterpreted functions of what they are given; C01, C05, C06, C07 say what they compute). SeqILDL and the ParameterTree constructors are exercised by the bounded part only.')
BOUNDED = 'all adapters and preconditioners, built directly and from a ParameterTree, on random matrices with scalar and block entries against the kernels called directly; SeqILDL against its factorization kernels on a hand-built lower triangle'
ASSUMPTIONS = ['the kernels are functions of the matrix, their vector arguments and the relaxation factor (C01, C05, C06, C07)', 'a factor within 1e-15 of one counts as one in SeqILU and SeqDILU (documented in the code)']
def fun(tag, *a): return app('fun%d' % tag, tuple(list(a)+[R(0)]*(4-len(a))), 'R')
def ifun(tag, a, b=None): return app('ifun%d' % tag, (a, I(0) if b is None else b), 'I')
def h_fun(e, st, ins, a): return ('ret', app('fun%d' % a[0].args[0], tuple(a[1:]), 'R'))
def h_ifun(e, st, ins, a): return ('ret', app('ifun%d' % a[0].args[0], tuple(a[1:]), 'I'))
class Ad(Contract):
    def __init__(s, op, name): s.op, s.name, s.fn = op, name, 'c_'+op; s.cost = 1
    def handler(s, eng, name): return {'vc_fun': h_fun, 'vc_ifun': h_ifun}.get(name)
    def setup(s, eng, st):
        op = s.op
        A = eng.region('A', stride=16, readonly=True, length=I(1), fields={0: Field('id','I'), 8: Field('n','I')})
        s.id, s.nr = var('A.id','I'), var('A.nr','I')
        st.mem[(A,'id')] = mk('mset', (arr('A.id_','I'), I(0), I(1), s.id), 'AI'); st.mem[(A,'n')] = mk('mset', (arr('A.n_','I'), I(0), I(1), s.nr), 'AI')
        bound(eng, st, le(I(0),s.id), le(I(0),s.nr)); s.A = A
        vec = lambda nm, ro=False: eng.region(nm, stride=8, length=I(1), readonly=ro, fields={0: Field('u','R')})
        s.n, s.w = var('n','I'), var('w','R'); bound(eng, st, le(I(-2**31),s.n), lt(s.n,I(2**31)))
        ro = lambda nm: Ptr(vec(nm,True), I(0))
        if op in PREC:
            s.v, s.d = vec('v'), vec('d', True); s.v0, s.d0 = eng.rd(st, s.v, 'u', I(0)), eng.rd(st, s.d, 'u', I(0));
            def F(t, k):
                k1 = sub(k,I(1)); x = app('F',(k1,),'R')
                for tag in SWEEP[op]: x = fun(tag, x, s.d0, s.w, toreal(s.id))
                return [implies(le(k,I(0)), eq(t,s.v0)), implies(lt(I(0),k), eq(t,x))]
            if op in SWEEP: s.F = spec('F','R',F)
            args = [Ptr(A,I(0)), Ptr(s.v,I(0)), Ptr(s.d,I(0)), s.n, s.w]
        elif op == 'inv':
            s.v, s.d = vec('v'), vec('d', True); s.v0, s.d0 = eng.rd(st, s.v, 'u', I(0)), eng.rd(st, s.d, 'u', I(0))
            s.g = eng.region('g', stride=4, length=I(1), fields={0: Field('calls','I',size=4)}); st.mem[(s.g,'calls')] = mk('mset', (arr('g.c','I'), I(0), I(1), I(0)), 'AI')
            args = [Ptr(s.v,I(0)), Ptr(s.d,I(0)), Ptr(s.g,I(0))]
        elif op in ('mv','usmv','mvs','usmvs'):
            x = vec('x', True); s.y = vec('y'); s.x0, s.y0 = eng.rd(st, x, 'u', I(0)), eng.rd(st, s.y, 'u', I(0))
            args = [Ptr(A,I(0)), Ptr(x,I(0)), Ptr(s.y,I(0))] + ([s.w] if 'us' in op else [])
        elif op in ('dot','norm'):
            xs = [vec('x',True), vec('y',True)][:2 if op == 'dot' else 1]; s.xs = [eng.rd(st, x, 'u', I(0)) for x in xs]; args = [Ptr(x,I(0)) for x in xs]
        elif op in PAR:
            s.v, s.d = vec('v'), vec('d', op not in ('bp_pre','nbp_pre')); s.v0, s.d0 = eng.rd(st, s.v, 'u', I(0)), eng.rd(st, s.d, 'u', I(0)); s.k = var('k','I'); bound(eng, st, le(I(0),s.k), le(s.k,I(2)))
            c = eng.region('com', stride=8, readonly=True, length=I(1), fields={0: Field('id','I')}); s.cid = toreal(eng.rd(st, c, 'id', I(0))); C = Ptr(c,I(0)); V, D, AP = Ptr(s.v,I(0)), Ptr(s.d,I(0)), Ptr(A,I(0))
            if op in ('osop','osops'): args = [AP, D, V, C] + ([s.w] if op == 'osops' else [])
            elif op == 'pssor': 
                def F(t, k):
                    k1 = sub(k,I(1)); x = app('F',(k1,),'R')
                    for tag in (1,2): x = fun(tag, x, s.d0, s.w, toreal(s.id))
                    return [implies(le(k,I(0)), eq(t,s.v0)), implies(lt(I(0),k), eq(t,x))]
                s.F = spec('F','R',F); args = [AP, V, D, s.n, s.w, C]
            else: args = {'oscat':[AP,C],'pssor_pre':[V,D,C,AP],'pcat':[s.k,AP,C],'pdot':[V,D,C,s.k],'mdot':[V,D,C,s.k],'pnorm':[V,C,s.k],'mnorm':[V,C,s.k],'nspcat':[C],'ospcat':[C]}.get(op, [V,D,C])
        elif op == 'spcat': args = []
        else: args = [Ptr(A,I(0))]
        eng.call_function(st, eng.mod.get(s.fn), args)
    def invariants(s, eng, v):
        if s.op not in SWEEP and s.op != 'pssor': return []
        out = [('v = F(k)', eq(eng.rd(v.st, s.v, 'u', I(0)), s.F(v.k[-1]))), ('k<=max(n,0)', or_(le(v.k[-1],s.n), le(v.k[-1],I(0))))]
        return out
    def on_throw(s, eng, st): eng.require(st, 'no exception is thrown', FALSE)
    def post(s, eng, st, ret):
        op = s.op
        if op in PREC or op == 'inv': now = eng.rd(st, s.v, 'u', I(0))
        one = not_(or_(lt(R(Fraction(1e-15)), sub(s.w,R(1))), lt(R(Fraction(1e-15)), sub(R(1),s.w)))) if op in ('dilu','ilu','ilur','ilu0','ilu0r') else None
        if op in SWEEP: eng.require(st, 'v is the result of exactly n sweeps', eq(now, s.F(s.n)))
        elif op in PREC and op != 'rich':
            i = toreal
            if op == 'dilu': b = fun(23, i(s.id), i(ifun(10,s.id)), s.d0)
            else:
                f = ite(eq(s.n,I(0)), ifun(5,s.id), ifun(6,s.id,s.n)) if op in ('ilu','ilur') else ifun(5,s.id)
                if op in ('ilu','ilur'):
                    for case, f in ((eq(s.n,I(0)), ifun(5,s.id)), (ne(s.n,I(0)), ifun(6,s.id,s.n))):
                        b = fun(22, i(ifun(7,f)), i(ifun(8,f)), i(ifun(9,f)), s.d0) if op == 'ilur' else fun(21, i(f), s.d0)
                        eng.require(st, 'v is the factor times the solution with the factorization of the requested level', implies(case, or_(and_(one, eq(now,b)), and_(not_(one), eq(now, mul(s.w,b))))))
                    return
                b = fun(22, i(ifun(7,f)), i(ifun(8,f)), i(ifun(9,f)), s.d0) if op == 'ilu0r' else fun(21, i(f), s.d0)
            eng.require(st, 'v is the factor times the solution with the factorization', or_(and_(one, eq(now,b)), and_(not_(one), eq(now, mul(s.w,b)))))
        elif op == 'rich': eng.require(st, 'v is the factor times the defect', eq(now, mul(s.w,s.d0)))
        elif op == 'inv':
            eng.require(st, 'the solver runs exactly once', eq(eng.rd(st, s.g, 'calls', I(0)), I(1)))
            eng.require(st, 'v is what the solver returned for this defect', eq(now, fun(31, s.v0, s.d0)))
        elif op in PAR:
            now = eng.rd(st, s.v, 'u', I(0)); c, v, d, i = s.cid, s.v0, s.d0, toreal(s.id)
            com = lambda tag, *x: fun(tag, c, *x)
            want = {'osop': lambda: com(41, fun(15, i, d, R(0))), 'osops': lambda: com(41, fun(12, i, s.w, d, v)), 'pssor': lambda: com(42, s.F(s.n)), 'pssor_pre': lambda: com(42, v), 'bp_pre': lambda: fun(51, com(42,v), d), 'bp_apply': lambda: com(42, fun(52,v,d)),
              'bp_fwd': lambda: com(42, fun(54,v,d)), 'bp_bwd': lambda: com(42, fun(55,v,d)), 'bp_post': lambda: fun(53,v), 'nbp_pre': lambda: fun(51,v,d), 'nbp_apply': lambda: com(43, fun(52,v,d)), 'nbp_fwd': lambda: com(43, fun(54,v,d)), 'nbp_bwd': lambda: com(43, fun(55,v,d)), 'nbp_post': lambda: fun(53,v)}.get(op)
            if want: eng.require(st, 'the vector is the result of the local operation and the exchange of its consistency model', eq(now, want())); return
            if op == 'pdot': w = com(44,v,d)
            elif op == 'pnorm': w = com(45,v)
            elif op == 'mdot': w = ite(eq(s.k,I(0)), fun(13,v,d), com(44,v,d))
            elif op == 'mnorm': w = ite(eq(s.k,I(0)), fun(14,v), com(45,v))
            elif op == 'pcat': w = ite(eq(s.k,I(2)), I(1), I(2))
            else: w = I({'oscat':2,'nspcat':1,'ospcat':2}[op])
            eng.require(st, 'the communication decides the value', eq(ret, w)); eng.require(st, 'the operand is unchanged', eq(now, v))
        elif op in ('mv','mvs'): eng.require(st, 'y = A x', eq(eng.rd(st, s.y, 'u', I(0)), fun(11, toreal(s.id), s.x0)))
        elif op in ('usmv','usmvs'): eng.require(st, 'y += alpha A x', eq(eng.rd(st, s.y, 'u', I(0)), fun(12, toreal(s.id), s.w, s.x0, s.y0)))
        elif op == 'getmat': eng.require(st, 'the wrapped matrix is returned', eq(ret.off, I(0)) if ret.reg is s.A else FALSE)
        elif op in ('opcat','spcat'): eng.require(st, 'the category is sequential', eq(ret, I(0)))
        elif op == 'dot': eng.require(st, 'the scalar product is that of the vectors', eq(ret, fun(13, s.xs[0], s.xs[1])))
        else: eng.require(st, 'the norm is that of the vector', eq(ret, fun(14, s.xs[0])))
SWEEP = {'ssor':(1,2),'sor':(1,),'sorf':(1,),'sorb':(2,),'gs':(1,),'jac':(3,)}
PREC = dict(SWEEP, dilu=0, ilu=0, ilur=0, ilu0=0, ilu0r=0, rich=0)
NAMES = {'ssor':'SeqSSOR','sor':'SeqSOR','sorf':'SeqSOR::apply<true>','sorb':'SeqSOR::apply<false>','gs':'SeqGS','jac':'SeqJac','dilu':'SeqDILU','ilu':'SeqILU(A,n,w)','ilur':'SeqILU(A,n,w,resort)','ilu0':'SeqILU(A,w)','ilu0r':'SeqILU(A,w,resort)','rich':'Richardson',
 'inv':'InverseOperator2Preconditioner','mv':'MatrixAdapter::apply','usmv':'MatrixAdapter::applyscaleadd','mvs':'MatrixAdapter(shared)::apply','usmvs':'MatrixAdapter(shared)::applyscaleadd','getmat':'MatrixAdapter::getmat','opcat':'MatrixAdapter::category','dot':'SeqScalarProduct::dot','norm':'SeqScalarProduct::norm','spcat':'SeqScalarProduct::category'}
PAR = {'osop':'OverlappingSchwarzOperator::apply','osops':'OverlappingSchwarzOperator::applyscaleadd','oscat':'OverlappingSchwarzOperator::category','pssor':'ParSSOR::apply','pssor_pre':'ParSSOR::pre','bp_pre':'BlockPreconditioner::pre','bp_apply':'BlockPreconditioner::apply','bp_fwd':'BlockPreconditioner::apply<true>','bp_bwd':'BlockPreconditioner::apply<false>','bp_post':'BlockPreconditioner::post',
 'nbp_pre':'NonoverlappingBlockPreconditioner::pre','nbp_apply':'NonoverlappingBlockPreconditioner::apply','nbp_fwd':'NonoverlappingBlockPreconditioner::apply<true>','nbp_bwd':'NonoverlappingBlockPreconditioner::apply<false>','nbp_post':'NonoverlappingBlockPreconditioner::post','pcat':'category of the parallel preconditioners',
 'pdot':'ParallelScalarProduct::dot','pnorm':'ParallelScalarProduct::norm','nspcat':'NonoverlappingSchwarzScalarProduct::category','ospcat':'OverlappingSchwarzScalarProduct::category','mdot':'createScalarProduct: dot','mnorm':'createScalarProduct: norm'}
NAMES.update(PAR)
def contracts(tier): return [('drivers/c16.cc', ['VARIANT=0'], [Ad(k,n) for k,n in NAMES.items()])]
