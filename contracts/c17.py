"""C17: strong connections, aggregation and the hierarchy."""
from vc.common import *
from vc.terms import *
from vc.engine import Quant
from fractions import Fraction
LEVEL = 'proof'
NOTE = ('Aggregator::build (both values of useFilteredMatrix) for every graph and every set of parameters: partition, reason for exclusion, every number used, counts. growAggregate, growIsolatedAggregate and mergeNeighbour '
        'meet what build assumes of them; the aggregate map is allocated with the size of the matrix and every vertex unaggregated; buildDependency is proved to ask the criterion for every row and every off-diagonal entry once and '
        'in the right order and to exclude exactly the vertices it must; Dependency and SymmetricDependency (FirstDiagonal and RowSum, scalar and 2x2 blocks) compute strength, maximum, marks and isolation as documented. '
        'Aggregate::seed/add (front bookkeeping) and the connection counts are assumed; the hierarchy is covered by the bounded part only. Trusts clang lowering and the VC generator.')
BOUNDED = 'random sparse matrices (scalar and blocks, symmetric and unsymmetric patterns, several norms and both criteria): dependency bits, isolated and border vertices, aggregates, hierarchy sizes, Galerkin matrices, map to the coarsest aggregates, against independent reference implementations'
ASSUMPTIONS = ['Aggregate::seed/add enter the given vertices with the number of the aggregate and nothing else (bounded part checks the result)', 'growAggregate: minAggregateSize is at most maxAggregateSize',
               'the front holds unaggregated vertices (bounded part)', 'buildDependency: one call per examined row sets the properties as the criterion asks (the criteria are under contract of their own); findEdge returns the position of the edge or the sentinel',
               'infinity_norm of dune-common is a function of the entries of the block', 'edge properties are written through setDepends/setInfluences of dune-istl (recorded, not expanded)', 'fewer than 2^31 vertices; real arithmetic']
UN, ISO = I(-1), I(-2)
class Build(Contract):
    """Aggregator::build: every vertex is in exactly one aggregate or excluded for a reason, aggregate numbers are contiguous"""
    fn = 'c_build'; name = 'Aggregator::build'; cost = 3
    def __init__(s, first): s.first = first; s.name = 'Aggregator::build(useFilteredMatrix=%d)' % first
    def reason(s, i): return or_(s.EX(i), and_(s.IS(i), ne(s.skip,I(0))))
    def setup(s, eng, st):
        L = lambda f: layout(eng, f); n = s.n = var('n','I'); s.p, s.t = var('p','I'), var('t','I')
        s.EX = lambda i: eq(app('excluded',(lift(i,'I'),),'I'),I(1)); s.IS = lambda i: eq(app('isolated',(lift(i,'I'),),'I'),I(1))
        A = s.A = eng.region('aggregates', stride=8, length=n, fields={0: Field('v','I')})
        st.mem[(A,'v')] = s.init = arr('aggregates.v','I')
        st.quants.append(Quant('unaggregated before', dict(terms=s.terms, body=lambda vw,i: implies(s.inr(i), s.initial(i))), None))
        m = s.m = eng.region('matrix', kind='cells'); st.cells[m] = {L('m_n'): n}
        mg = eng.region('matrixgraph', kind='cells'); st.cells[mg] = {L('mg_m'): Ptr(m,I(0))}
        vp = s.vp = eng.region('vertexproperties', stride=L('vp'), length=n)
        g = s.g = eng.region('graph', kind='cells'); st.cells[g] = {L('g_graph'): Ptr(mg,I(0)), L('g_vp'): Ptr(vp,I(0))}
        am = eng.region('map', kind='cells'); st.cells[am] = {L('am_p'): Ptr(A,I(0))}
        s.FL = var('frontlength','I'); F = s.F = eng.region('front', stride=8, length=var('frontcap','I'), fields={0: Field('v','I', facts=s.frontfacts)})
        s.fr = L('ag_front'); ag = s.ag = eng.region('aggregator', kind='cells'); st.cells[ag] = {L('g_graph'): Ptr(g,I(0)), L('ag_agg'): Ptr(None,I(0)), s.fr: Ptr(F,I(0)), s.fr+8: Ptr(F,mul(I(8),s.FL)), s.fr+16: Ptr(F,mul(I(8),var('frontcap','I')))}
        s.skip, s.maxsize = var('skipisolated','I'), var('maxsize','I'); cr = s.cr = eng.region('criterion', kind='cells'); st.cells[cr] = {L('cr_skip'): s.skip, L('cr_max'): s.maxsize, L('cr_min'): var('minsize','I'), L('cr_dist'): var('maxdistance','I'), L('cr_con'): var('maxconnectivity','I')}
        r = s.r = eng.region('result', kind='cells'); st.cells[r] = {o: I(0) for o in (0,4,8,12)}
        bound(eng, st, le(I(0),n), lt(n,I(2**31-1)), le(I(0),s.p), lt(s.p,n), or_(eq(s.skip,I(0)),eq(s.skip,I(1))), le(I(0),s.FL), le(s.FL,var('frontcap','I')), lt(var('frontcap','I'),I(2**60)), *[and_(le(I(0),var(x,'I')), lt(var(x,'I'),I(2**62))) for x in ('maxsize','minsize','maxdistance','maxconnectivity')])
        for k, x in (('id',-1),('size',0),('dep',0),('seed',-1),('W',-1)): eng.setghost(st, k, I(x))
        s.handlers = dict(x for f in dir(s) if f.startswith('h_') for x in [(f, getattr(s,f))])
        eng.handlers.update({'_ZNSt6chrono3_V212system_clock3nowEv': lambda e,st_,ins,a: ('ret', fresh('clock','I')), 'llvm.memcpy.p0.p0.i64': s.copy})
        s.am = am; s.mg = mg; s.graph(eng, st); s.call(eng, st)
    def graph(s, eng, st): pass
    def call(s, eng, st): eng.call_function(st, eng.mod.get(s.fn), [Ptr(s.m,I(0)), Ptr(s.g,I(0)), Ptr(s.am,I(0)), Ptr(s.cr,I(0)), Ptr(s.ag,I(0)), I(s.first), Ptr(s.r,I(0))])
    def initial(s, i): return eq(sel(s.init,i),UN)
    def copy(s, e, st, ins, a):
        if not (isinstance(a[1],Ptr) and a[1].reg is s.cr): from vc.handlers import memcpy; return memcpy(e, st, ins, a)
        s.crcopy = a[0].reg; return ('ret', a[0])
    def inr(s, i): return and_(le(I(0),i), lt(i,s.n))
    def terms(s, e, st): return list(dict.fromkeys([s.p, st.ghost['W'], st.ghost['seed']] + [i for r,f,i in st.idx if r is s.A]))
    def frontfacts(s, e, st, i, v): return [implies(and_(le(I(0),i), lt(mul(I(8),i), st.cells[s.ag][s.fr+8].off)), and_(s.inr(v), eq(sel(e.getarr(st,s.A,'v'),v),UN)))]
    # ---- the functions build calls
    def handler(s, eng, name):
        for pat, h in (('15buildDependency', s.dependency), ('9AggregateI', s.aggregate), ('10AggregatorI', s.aggregator), ('4Dune3Amg16VertexProperties', s.vertex), ('St6vectorImSaImEE', s.vector)):
            if pat in name: return lambda e,st,ins,a: h(e, st, name, a)
        return None
    def vec(s, st, p): return st.cells[p.reg], p.off.args[0]
    def vector(s, e, st, name, a):
        if '7reserve' in name:
            C = s.C = e.regions.get('candidates') or e.region('candidates', stride=8, length=I(2**61), fields={0: Field('v','I')})
            c, o = s.vec(st, a[0])
            for k in (0,8): c[o+k] = Ptr(C,I(0)); e.notemod(st, ('cell', a[0].reg, o+k))
        elif '9push_back' in name:
            c, o = s.vec(st, a[0]); q = e.load(st, a[1], _I64)
            e.require(st, 'a candidate is not in an aggregate yet', and_(s.inr(q), eq(sel(e.getarr(st,s.A,'v'),q),UN)))
            c[o+8] = Ptr(s.C, add(c[o+8].off,I(8))); e.notemod(st, ('cell', a[0].reg, o+8))
        elif '5clearEv' in name:
            c, o = s.vec(st, a[0]); c[o+8] = Ptr(s.C,I(0)); e.notemod(st, ('cell', a[0].reg, o+8))
        elif '6resize' in name:
            c, o = s.vec(st, a[0]); e.require(st, 'the candidates are only cut', and_(le(I(0),a[1]), le(mul(I(8),a[1]), c[o+8].off)))
            c[o+8] = Ptr(s.C, mul(I(8),a[1])); e.notemod(st, ('cell', a[0].reg, o+8))
        elif 'D2Ev' not in name: raise Unsupported(name)
        return ('ret', None)
    def vertex(s, e, st, name, a):
        if a[0].reg is not s.vp: raise Unsupported('vertex properties %s' % (a[0],))
        z = layout(e,'vp'); d = poly(a[0].off)
        if any(c % z for c in d.values()): raise Unsupported('vertex properties')
        i = mkpoly({m:c//z for m,c in d.items()}, 'I')
        e.require(st, 'the properties of a vertex are read', s.inr(i)); e.require(st, 'the dependencies are known before they are used', eq(st.ghost['dep'],I(1)))
        f = s.IS if '8isolated' in name else s.EX if '14excludedBorder' in name else None
        if f is None: raise Unsupported(name)
        x = f(i).args; e.assume(st, and_(*[and_(le(I(0),y), le(y,I(1))) for y in x if y.op == 'app'])); return ('ret', f(i))
    def dependency(s, e, st, name, a):
        e.require(st, 'the dependencies of this matrix are computed with the given criterion', and_(*[TRUE if x else FALSE for x in (a[0].reg is s.g, a[1].reg is s.m, getattr(s,'crcopy',None) is a[2].reg)]))
        e.require(st, 'the filtered matrix is used as asked for', eq(e.asint(a[3]), I(s.first))); e.setghost(st,'dep',I(1)); return ('ret', None)
    def havoc(s, e, st, own):
        """vertices without aggregate may join the current one; the front is rebuilt"""
        old = e.getarr(st, s.A, 'v'); new = e.fa(st, 'aggregates.v', 'I'); st.mem[(s.A,'v')] = new; e.notemod(st, ('mem', s.A, 'v')); ID = st.ghost['id']
        st.quants.append(Quant('joined', dict(terms=s.terms, body=lambda vw,i: implies(s.inr(i), and_(implies(ne(sel(old,i),UN), eq(sel(new,i),sel(old,i))), implies(eq(sel(old,i),UN), or_(eq(sel(new,i),UN), eq(sel(new,i),ID)) if not own else eq(sel(new,i), UN))))), None))
        z = e.fv(st, 'size', 'I'); e.assume(st, and_(le(I(1),z), le(z,s.n))); e.setghost(st,'size',z); s.newfront(e, st)
    def newfront(s, e, st):
        st.mem[(s.F,'v')] = e.fa(st, 'front.v', 'I'); e.notemod(st, ('mem', s.F, 'v')); l = e.fv(st, 'frontlength', 'I'); e.assume(st, and_(le(I(0),l), le(l,var('frontcap','I')))); st.cells[s.ag][s.fr+8] = Ptr(s.F, mul(I(8),l)); e.notemod(st, ('cell', s.ag, s.fr+8))
    def aggregate(s, e, st, name, a):
        g = st.ghost; ID = g['id']
        def fn(x): return x in name
        if fn('4seedE'):
            v = e.load(st, a[1], _I64); old = e.getarr(st, s.A, 'v'); e.require(st, 'the seed is a vertex without aggregate', and_(s.inr(v), eq(sel(old,v),UN)))
            e.setghost(st,'id',add(ID,I(1))); ID = g['id']; e.setghost(st,'W',ite(eq(ID,s.t), v, g['W'])); e.setghost(st,'seed',v); e.setghost(st,'size',I(1))
            st.mem[(s.A,'v')] = store(old,v,ID); e.notemod(st, ('mem', s.A, 'v')); s.newfront(e, st)
        elif fn('3addERKm'):
            v = e.load(st, a[1], _I64); e.require(st, 'a vertex joins that is in no aggregate', and_(s.inr(v), eq(sel(e.getarr(st,s.A,'v'),v),UN))); s.havoc(e, st, False)
        elif fn('11connectSizeE'): z = e.fv(st, 'connected', 'I'); e.assume(st, and_(le(I(0),z), lt(z,I(2**61)))); return ('ret', z)
        elif fn('3addE'):
            if not a[1].reg is s.C and not any(isinstance(x,Ptr) and x.reg is s.C for x in st.cells.get(a[1].reg,{}).values()): raise Unsupported('add')
            s.havoc(e, st, False)
        elif fn('4sizeE'):
            A = e.getarr(st, s.A, 'v'); sd = g['seed']; z = g['size']
            st.quants.append(Quant('single', dict(terms=s.terms, body=lambda vw,i: implies(and_(s.inr(i), eq(z,I(1)), eq(sel(A,i),ID)), eq(i,sd))), None)); return ('ret', z)
        elif fn('10invalidateE'):
            e.require(st, 'only an aggregate that was merged into another one is dropped', and_(eq(g['size'],I(1)), ne(sel(e.getarr(st,s.A,'v'),g['seed']),ID))); e.setghost(st,'id',sub(ID,I(1)))
        elif fn('2idEv'): return ('ret', ID)
        elif not (fn('C2E') or fn('D2E')): raise Unsupported(name[:200])
        return ('ret', None)
    def aggregator(s, e, st, name, a):
        if 'growAggregate' in name or 'growIsolatedAggregate' in name:
            sd = e.load(st, a[1], _I64); e.require(st, 'the aggregate grows from its seed', eq(sd, st.ghost['seed'])); s.havoc(e, st, False)
        elif '11unmarkFront' in name: pass
        elif '14mergeNeighbour' in name:
            v = e.fv(st, 'neighbour', 'I'); A = e.getarr(st, s.A, 'v'); sd = e.load(st, a[1], _I64) if isinstance(a[1],Ptr) else a[1]
            e.assume(st, or_(eq(v,UN), and_(s.inr(v), ne(v,sd), ne(sel(A,v),UN), ne(sel(A,v),ISO)))); st.idx.append((s.A,'v',v)); return ('ret', v)
        elif '9admissible' in name or '10admissible' in name: return ('ret', ne(e.fv(st,'admissible','I'),I(0)))
        elif '12connectivity' in name: return ('ret', e.fv(st,'connectivity','R'))
        elif any(x in name for x in ('noFrontNeighbours','twoWay','oneWay','neighbours','distance','connectivity')): x = e.fv(st,'count','I'); e.assume(st, and_(le(I(0),x), lt(x,I(2**31)))); return ('ret', x)
        else: raise Unsupported(name[:200])
        return ('ret', None)
    def alloc(s, eng, st, region, nbytes): region.kind = 'cells'; st.cells[region] = {}
    def invariants(s, eng, v):
        A = eng.getarr(v.st, s.A, 'v'); A0 = v.lc.entry.mem[(s.A,'v')]; g = v.st.ghost; ID = g['id']
        T = s.terms; out = [('id', le(UN,ID)), ('bound', lt(ID,s.n)), ('dep', eq(g['dep'],I(1))), ('size', and_(le(I(0),g['size']), le(g['size'],s.n))), ('witness', implies(and_(le(I(0),s.t), le(s.t,ID)), and_(s.inr(g['W']), eq(sel(A,g['W']),s.t))))]
        out.append(('state', dict(terms=T, body=lambda vw,i: implies(s.inr(i), or_(eq(sel(A,i),UN), and_(eq(sel(A,i),ISO), s.reason(i)), and_(le(I(0),sel(A,i)), le(sel(A,i),ID)))))))
        out.append(('kept', dict(terms=T, body=lambda vw,i: implies(and_(s.inr(i), ne(sel(A0,i),UN)), eq(sel(A,i),sel(A0,i))))))
        ints = [(k,x) for k,x in v.phis.items() if isinstance(x, Term) and x.sort == 'I']
        out.append(('seed has an aggregate', implies(s.inr(g['seed']), ne(sel(A,g['seed']),UN))))
        for k, x in ints:
            out += [(k+' range', and_(le(I(0),x), le(x,s.n))), (k+' visited', dict(terms=T, body=lambda vw,i,x=x: implies(and_(s.inr(i), lt(i,x)), ne(sel(A,i),UN))))]
            for l, y in ints:
                if k < l: out += [(k+l+' sum', eq(add(x,y),add(ID,I(1))))]
                if k != l: out += [(k+l+' at most', le(x,y)), (k+l+' popped', le(add(ID,I(1),x), y))]
            out += [(k+' pops', le(add(ID,I(1)),x)), (k+' at most the aggregates', le(x,add(ID,I(1))))]
        return out
    def post(s, eng, st, ret):
        A = eng.getarr(st, s.A, 'v'); N = st.cells[s.r][0]; x = sel(A,s.p)
        eng.require(st, 'every vertex is in an aggregate with a valid number or excluded', or_(eq(x,ISO), and_(le(I(0),x), lt(x,N))))
        eng.require(st, 'only border vertices and skipped isolated vertices are excluded', implies(eq(x,ISO), s.reason(s.p)))
        eng.require(st, 'every number below the returned number of aggregates is used', implies(and_(le(I(0),s.t), lt(s.t,N)), and_(s.inr(st.ghost['W']), eq(sel(A,st.ghost['W']),s.t))))
        eng.require(st, 'the parts of the count fit', and_(le(I(0),st.cells[s.r][4]), le(st.cells[s.r][4],N), le(I(0),st.cells[s.r][8]), le(I(0),st.cells[s.r][12]), le(add(N,st.cells[s.r][12]),s.n)))
class Grow(Build):
    """growAggregate, growIsolatedAggregate: only vertices of the front are added, to the aggregate being built, until the size or the distance is reached"""
    cost = 1
    def __init__(s, fn, nm): s.fn = fn; s.name = 'Aggregator::' + nm; s.nm = nm
    def handler(s, eng, name):
        if s.nm in name or '24nonisoNei' in name or '10AggregatorI' in name and '9connectedE' in name: return None
        return Build.handler(s, eng, name)
    def graph(s, eng, st):
        """the matrix behind the graph and the numbers of the edges"""
        B = s.B = BCRS(eng, st, 'A', square=True, diag=True); eng.assume(st, eq(B.n, s.n))
        S = s.S = eng.region('edgestarts', stride=8, length=add(s.n,I(1)), readonly=True, fields={0: Field('v','I')}); st.mem[(S,'v')] = mk('fun', ('edgestart',), 'AI')
        st.cells[s.mg][layout(eng,'mg_m')] = B.ptr(); st.cells[s.mg][layout(eng,'mg_start')] = Ptr(S,I(0))
    def call(s, eng, st):
        s.id, s.seed = var('id','I'), var('seed','I'); [eng.setghost(st,k,x) for k,x in (('id',s.id),('seed',s.seed),('dep',I(1)),('size',var('size0','I')))]; eng.assume(st, and_(le(I(1),var('size0','I')), le(var('size0','I'),s.n), le(var('minsize','I'),s.maxsize)))
        A = s.init; ID = st.ghost['id']; eng.assume(st, and_(le(I(0),ID), s.inr(s.seed), eq(sel(A,s.seed),ID)))
        v = eng.region('seed', kind='cells'); st.cells[v] = {0: s.seed}; st.cells[s.ag][layout(eng,'ag_agg')] = Ptr(eng.region('aggregate', kind='cells'),I(0))
        eng.call_function(st, eng.mod.get(s.fn), [Ptr(s.ag,I(0)), Ptr(v,I(0)), Ptr(s.am,I(0)), Ptr(s.cr,I(0))])
    def initial(s, i): return TRUE
    def invariants(s, eng, v):
        A = eng.getarr(v.st, s.A, 'v'); A0 = s.init; ID = v.st.ghost['id']
        out = [('size', and_(le(I(1),v.st.ghost['size']), le(v.st.ghost['size'],s.n))), ('changes', dict(terms=s.terms, body=lambda vw,i: implies(s.inr(i), or_(eq(sel(A,i),sel(A0,i)), and_(eq(sel(A0,i),UN), eq(sel(A,i),ID))))))]
        x = v.st.cells[s.ag][s.fr+8].off; out.append(('front', and_(le(I(0),x), le(x,mul(I(8),var('frontcap','I'))))))
        for r, c in v.st.cells.items():
            for o, x in c.items():
                if isinstance(x, Ptr) and x.reg is getattr(s,'C',None): out.append(('candidates %s %s' % (r.name,o), le(I(0),x.off)))
                elif r.name.startswith('stk') and isinstance(x, Term) and x.sort == 'I': out.append(('in front %s %s' % (r.name,o), or_(eq(x,UN), and_(s.inr(x), eq(sel(A,x),UN)))))
        for k, x in v.phis.items():
            if isinstance(x, Ptr) and x.reg is s.F: out += [(k+' iterator', le(x.off, v.st.cells[s.ag][s.fr+8].off))]
            if isinstance(x, Term) and x.sort == 'I': out += [(k+' in front', or_(eq(x,UN), and_(s.inr(x), eq(sel(A,x),UN))))]
        return out
    def post(s, eng, st, ret):
        A = eng.getarr(st, s.A, 'v'); A0 = s.init
        eng.require(st, 'only unaggregated vertices change, and only to the aggregate being built', or_(eq(sel(A,s.p),sel(A0,s.p)), and_(eq(sel(A0,s.p),UN), eq(sel(A,s.p),s.id))))
class Merge(Grow):
    """mergeNeighbour: another vertex that is in an aggregate and strongly connected, or the unaggregated mark"""
    def __init__(s): s.fn = 'c_merge'; s.name = 'Aggregator::mergeNeighbour'; s.nm = '14mergeNeighbour'
    def call(s, eng, st):
        s.id, s.v = var('id','I'), var('vertex','I'); eng.setghost(st,'dep',I(1)); eng.assume(st, s.inr(s.v)); EP = s.EP = eng.region('edgeproperties', stride=layout(eng,'ep'), length=add(app('edgestart',(s.v,),'I'), s.B.LEN(s.v)))
        eng.assume(st, le(I(0),app('edgestart',(s.v,),'I'))); st.cells[s.g][layout(eng,'g_ep')] = Ptr(EP,I(0)); v = eng.region('vertex', kind='cells'); st.cells[v] = {0: s.v}
        eng.call_function(st, eng.mod.get(s.fn), [Ptr(s.ag,I(0)), Ptr(v,I(0)), Ptr(s.am,I(0))])
    def edgeno(s, i, k): return add(app('edgestart',(i,),'I'), sub(k, ite(lt(s.B.DG(i),k), I(1), I(0))))
    def edge(s, e, st, name, a):
        z = layout(e,'ep'); d = poly(a[0].off)
        if a[0].reg is not s.EP or any(c % z for c in d.values()): raise Unsupported('edge properties')
        i = mkpoly({m:c//z for m,c in d.items()}, 'I'); e.require(st, 'the properties of the edge that is visited are read', eq(i, s.edgeno(s.v, s.here(e, st))))
        x = app('depends' if '7depends' in name else 'influences' if '10influences' in name else None, (i,), 'I'); e.assume(st, and_(le(I(0),x), le(x,I(1)))); return ('ret', eq(x,I(1)))
    def here(s, e, st): return sub([i for r,f,i in st.idx if r is s.B.cols][-1], s.B.P(s.v))
    def handler(s, eng, name):
        if '4Dune3Amg14EdgeProperties' in name: return lambda e,st,ins,a: s.edge(e, st, name, a)
        return Grow.handler(s, eng, name)
    def invariants(s, eng, v):
        out = []; B = s.B; i = s.v; ph = [(k,x) for k,x in v.phis.items() if isinstance(x, Term) and x.sort == 'I']
        for k, x in ph:
            out += [(k+' position', and_(le(I(0),x), le(x,B.LEN(i)))), (k+' not the diagonal', ne(x,B.DG(i)))]
            for l, y in ph: out.append((k+l+' edge', eq(y, s.edgeno(i, x))))
        return out
    def post(s, eng, st, ret):
        A = eng.getarr(st, s.A, 'v')
        eng.require(st, 'another vertex of an aggregate or none', or_(eq(ret,UN), and_(s.inr(ret), ne(ret,s.v), ne(sel(A,ret),UN), ne(sel(A,ret),ISO))))
class Allocate(Contract):
    """AggregatesMap: a new map has the given size and no vertex is in an aggregate"""
    def __init__(s, fn): s.fn = fn; s.name = 'AggregatesMap::' + fn[2:]
    def setup(s, eng, st):
        n = s.n = var('n','I'); s.p = var('p','I'); L = lambda f: layout(eng,f); bound(eng, st, le(I(0),n), lt(n,I(2**60)), le(I(0),s.p), lt(s.p,n))
        s.m = eng.region('map', kind='cells'); st.cells[s.m] = {L('am_p'): Ptr(None,I(0)), L('am_n'): var('before','I')}; s.A = None
        eng.call_function(st, eng.mod.get(s.fn), [Ptr(s.m,I(0)), n])
    def alloc(s, eng, st, region, nbytes): eng.require(st, 'room for every vertex', eq(nbytes, mul(I(8),s.n))); region.stride, region.length, region.fields = 8, s.n, {0: Field('v','I')}; s.A = region
    def invariants(s, eng, v):
        if s.A is None: return []
        A = eng.getarr(v.st, s.A, 'v'); T = lambda e, st: [s.p]; out = []
        for m, x in list(v.phis.items()) + list(enumerate(v.k)):
            if not isinstance(x, Term) or x.sort != 'I': continue
            out += [('upto %s' % (m,), le(x,s.n)), ('set %s' % (m,), dict(terms=T, body=lambda vw,i,x=x: implies(and_(le(I(0),i), lt(i,x)), eq(sel(A,i),UN))))]
        return out
    def post(s, eng, st, ret):
        L = lambda f: layout(eng,f); x = st.cells[s.m]; eng.require(st, 'the map has the given size', eq(x[L('am_n')], s.n)); q = x[L('am_p')]
        eng.require(st, 'the map holds the new array', and_(TRUE if isinstance(q, Ptr) and q.reg is s.A else FALSE, eq(q.off,I(0)))); eng.require(st, 'no vertex is in an aggregate', eq(sel(eng.getarr(st,s.A,'v'),s.p),UN))
class Depend(Contract):
    """buildDependency: every off-diagonal entry of a row is shown to the criterion once before it decides, every edge once afterwards; isolated and border vertices are marked"""
    fn = 'c_depend'
    def __init__(s, first): s.first = first; s.name = 'buildDependency(firstlevel=%d)' % first
    def setup(s, eng, st):
        L = lambda f: layout(eng, f); s.p, s.t = var('p','I'), var('t','I'); B = s.B = BCRS(eng, st, 'A', square=True, diag=True); n = s.n = B.n
        bound(eng, st, lt(n,I(2**31-1)), le(I(0),s.p), lt(s.p,n), le(I(0),s.t), lt(s.t,B.LEN(s.p)), ne(s.t,B.DG(s.p)))
        s.zero = eq(var('allzero','I'),I(1)); s.val = lambda k: B.ent(s.p,k)[0]
        st.quants.append(Quant('off-diagonal entries are zero', dict(terms=lambda e,st_: list(dict.fromkeys([s.t]+[s.pos(e,i) for r,f,i in st_.idx if r in (B.vals,)])), body=lambda vw,k: implies(and_(s.zero, le(I(0),k), lt(k,B.LEN(s.p)), ne(k,B.DG(s.p))), eq(s.val(k),R(0)))), None))
        S = eng.region('edgestarts', stride=8, length=add(n,I(1)), readonly=True, fields={0: Field('v','I')}); st.mem[(S,'v')] = mk('fun', ('edgestart',), 'AI'); s.start = lambda i: app('edgestart',(i,),'I')
        mg = eng.region('matrixgraph', kind='cells'); st.cells[mg] = {L('mg_m'): B.ptr(), L('mg_start'): Ptr(S,I(0))}; vp = s.vp = eng.region('vertexproperties', stride=L('vp'), length=n); ep = eng.region('edgeproperties', stride=L('ep'), length=I(2**60))
        g = s.g = eng.region('graph', kind='cells'); st.cells[g] = {L('g_graph'): Ptr(mg,I(0)), L('g_vp'): Ptr(vp,I(0)), L('g_ep'): Ptr(ep,I(0))}; cr = eng.region('criterion', kind='cells'); st.cells[cr] = {0: var('criterion','I')}
        for k, x in (('init',0),('row',-1),('asked',0),('seen',0),('edges',0),('iso',0),('border',0)): eng.setghost(st, k, I(x))
        eng.call_function(st, eng.mod.get(s.fn), [Ptr(g,I(0)), B.ptr(), Ptr(cr,I(0)), TRUE if s.first else FALSE])
    def pos(s, e, i): return sub(i, s.B.P(s.p))
    def ISO(s, i): return eq(app('isolated',(i,),'I'),I(1))
    def row(s, st): return st.ghost['row']
    def col(s, e, st, a, off=0):
        """the position a column iterator stands on, in the current row"""
        L = lambda f: layout(e,f); r = s.row(st); q = [e.load(st, Ptr(a.reg, add(a.off,I(off+L('ci_'+f)))), ty) for f, ty in (('p',_Ptr),('j',_Ptr),('i',_I64))]
        if q[0].reg is not s.B.vals or q[1].reg is not s.B.cols: raise Unsupported('iterator')
        e.require(st, 'the iterator stands in the row that is examined', and_(eq(q[0].off, mul(I(8),s.B.P(r))), eq(q[1].off, mul(I(8),s.B.P(r))), le(I(0),q[2]), lt(q[2],s.B.LEN(r)))); return q[2]
    def handler(s, eng, name):
        for pat, h in (('_ZN4Crit4initE',s.init), ('_ZN4Crit7initRow',s.initrow), ('_ZN4Crit10isIsolated',s.isolated), ('_ZN4Crit7examineERKN',s.examine), ('_ZN4Crit7examineER',s.edge), ('_ZN4Dune3Amg16VertexProperties17setExcludedBorder',s.border), ('_ZN4Dune3Amg16VertexProperties11setIsolated',s.setiso)):
            if name.startswith(pat): return lambda e,st,ins,a: (h(e,st,a) , ('ret', s.res))[1]
        return None
    res = None
    def init(s, e, st, a): s.res = None; e.require(st, 'the criterion gets the matrix', TRUE if a[1].reg is s.B.head else FALSE); e.setghost(st,'init',I(1))
    def initrow(s, e, st, a):
        s.res = None; e.require(st, 'the criterion knows the matrix', eq(st.ghost['init'],I(1))); i = e.asint(a[2])
        e.require(st, 'the row is the one of the vertex', and_(TRUE if a[1].reg is s.B.rows else FALSE, eq(a[1].off, mul(I(layout(e,'bcrs_row_size')),i)), le(I(0),i), lt(i,s.n), eq(i, add(s.row(st),I(1))), or_(eq(i,I(0)), eq(st.ghost['asked'],I(1))))); e.setghost(st,'row',i); e.setghost(st,'asked',I(0))
    def examine(s, e, st, a):
        s.res = None; k = s.col(e, st, a[1]); r = s.row(st); e.require(st, 'off-diagonal entries are examined before the criterion decides', and_(eq(st.ghost['asked'],I(0)), ne(k,s.B.DG(r))))
        e.setghost(st,'seen', add(st.ghost['seen'], ite(and_(eq(r,s.p), eq(k,s.t)), I(1), I(0))))
    def isolated(s, e, st, a):
        r = s.row(st); e.require(st, 'every off-diagonal entry was examined', and_(eq(st.ghost['asked'],I(0)), implies(eq(r,s.p), eq(st.ghost['seen'],I(1))))); e.setghost(st,'asked',I(1)); x = app('isolated',(r,),'I'); e.assume(st, and_(le(I(0),x), le(x,I(1)))); s.res = s.ISO(r)
    def edge(s, e, st, a):
        s.res = None; L = lambda f: layout(e,f); r = s.row(st); B = s.B; k = s.col(e, st, a[2], L('ei_block')); c = s.col(e, st, a[3]); src, no = [e.load(st, Ptr(a[2].reg, add(a[2].off,I(L('ei_'+f)))), _I64) for f in ('source','edge')]
        e.assume(st, and_(*[implies(and_(le(I(0),x), lt(x,y), lt(y,B.LEN(r))), lt(B.col(r,x),B.col(r,y))) for x, y in ((k,c),(c,k))]))
        e.require(st, 'the edges of a vertex that is not isolated are examined', and_(TRUE if a[1].reg is s.g else FALSE, eq(st.ghost['asked'],I(1)), not_(s.ISO(r))))
        e.require(st, 'edge and matrix entry belong together', and_(eq(src,r), ne(k,B.DG(r)), eq(c,k), eq(no, add(s.start(r), sub(k, ite(lt(B.DG(r),k), I(1), I(0)))))))
        e.setghost(st,'edges', add(st.ghost['edges'], ite(and_(eq(r,s.p), eq(k,s.t)), I(1), I(0))))
    def vert(s, e, st, a): e.require(st, 'the vertex that is examined is marked', and_(TRUE if a[0].reg is s.vp else FALSE, eq(a[0].off, mul(I(layout(e,'vp')),s.row(st)))))
    def border(s, e, st, a): s.res = None; s.vert(e, st, a); e.setghost(st,'border', ite(eq(s.row(st),s.p), I(1), st.ghost['border']))
    def setiso(s, e, st, a): s.res = None; s.vert(e, st, a); e.require(st, 'only isolated vertices are marked', and_(eq(st.ghost['asked'],I(1)), s.ISO(s.row(st)))); e.setghost(st,'iso', ite(eq(s.row(st),s.p), I(1), st.ghost['iso']))
    def invariants(s, eng, v):
        g = v.st.ghost; B = s.B; r = g['row']; out = [('init', eq(g['init'],I(1)))]; ks = v.k; inner = len(ks) > 1
        done = lambda i: [('seen', eq(g['seen'], ite(lt(s.p,i), I(1), I(0)))), ('edges', eq(g['edges'], ite(and_(lt(s.p,i), not_(s.ISO(s.p))), I(1), I(0)))), ('iso', eq(g['iso'], ite(and_(lt(s.p,i), s.ISO(s.p)), I(1), I(0)))),
                          ('border', and_(le(I(0),g['border']), le(g['border'],I(1)), *([implies(eq(g['border'],I(1)), and_(lt(s.p,i), eq(s.val(s.t),R(0)))), implies(and_(lt(s.p,i), s.zero), eq(g['border'],I(1)))] if s.first else [eq(g['border'],I(0))])))]
        if not inner: return out + [('row', eq(r, sub(ks[0],I(1)))), ('range', le(ks[0],s.n)), ('asked', or_(eq(ks[0],I(0)), eq(g['asked'],I(1))))] + done(ks[0])
        i = ks[0]; out += [('row', eq(r,i)), ('range', lt(i,s.n)), ('asked', eq(g['asked'],I(0))), ('askedafter', and_(eq(g['asked'],I(1)), not_(s.ISO(r))))]
        out += [('o'+nm, f) for nm, f in done(i)] + [('p'+nm, f) for nm, f in done(add(i,I(1)))]
        out.append(('border now', implies(eq(r,s.p), and_(implies(eq(g['border'],I(1)), eq(s.val(s.t),R(0))), implies(s.zero, eq(g['border'],I(1)))) if s.first else TRUE)))
        cells = [('%s.%s' % (rg.name,o), x) for rg, c in v.st.cells.items() if rg.name.startswith('stk') for o, x in c.items() if isinstance(x, Term) and x.sort == 'I']
        ph = [(k,x) for k,x in v.phis.items() if isinstance(x, Term) and x.sort == 'I'] + cells
        for k, x in ph:
            out += [(k+' position', and_(le(I(0),x), le(x,B.LEN(r)))), (k+' not the diagonal', ne(x,B.DG(r))), (k+' before the end', lt(x,B.LEN(r))), (k+' seen', eq(g['seen'], ite(or_(lt(s.p,r), and_(eq(r,s.p), lt(s.t,x))), I(1), I(0)))),
                    (k+' edges', eq(g['edges'], ite(and_(not_(s.ISO(s.p)), or_(lt(s.p,r), and_(eq(r,s.p), lt(s.t,x)))), I(1), I(0)))), (k+' source', eq(x,r))]
            for l, y in ph:
                if k != l: out += [(k+l+' edge', eq(y, add(s.start(r), sub(x, ite(lt(B.DG(r),x), I(1), I(0)))))), (k+l+' behind', le(x,y)), (k+l+' equal', eq(x,y))]
            for l, y in v.phis.items():
                if isinstance(y, Term) and y.sort == 'R': out += [(k+l+' nonzero', implies(and_(eq(r,s.p), lt(s.t,x), ne(s.val(s.t),R(0))), lt(R(0),y)))]
        for l, y in v.phis.items():
            if isinstance(y, Term) and y.sort == 'R': out += [(l+' sign', le(R(0),y)), (l+' zero', implies(and_(eq(r,s.p), s.zero), eq(y,R(0))))]
        return out
    def post(s, eng, st, ret):
        g = st.ghost; B = s.B; eng.require(st, 'every row was examined', eq(g['row'], sub(s.n,I(1))))
        eng.require(st, 'every off-diagonal entry is shown to the criterion exactly once', eq(g['seen'],I(1)))
        eng.require(st, 'every edge of a vertex that is not isolated is examined exactly once', eq(g['edges'], ite(s.ISO(s.p), I(0), I(1))))
        eng.require(st, 'the isolated vertices are marked', eq(eq(g['iso'],I(1)), s.ISO(s.p)) if False else and_(implies(s.ISO(s.p), eq(g['iso'],I(1))), implies(eq(g['iso'],I(1)), s.ISO(s.p))))
        eng.require(st, 'border vertices are marked on the first level only, if all off-diagonal entries are zero', and_(implies(eq(g['border'],I(1)), eq(s.val(s.t),R(0))), implies(s.zero, eq(g['border'],I(1)))) if s.first else eq(g['border'],I(0)))
class Criterion(Contract):
    """the strength of a connection and what follows from it"""
    def __init__(s, fn, bs, norm, sym): s.fn, s.bs, s.nrm, s.sym = fn, bs, norm, sym; s.name = '%s<%s>::%s %dx%d' % ('SymmetricDependency' if sym else 'Dependency', norm, fn[2:], bs, bs)
    def norm(s, e):
        if s.nrm == 'FirstDiagonal': return e[0]
        return app('infinity_norm', tuple(e), 'R')
    def setup(s, eng, st):
        L = lambda f: layout(eng, f); s.i, s.k = var('i','I'), var('k','I'); B = s.B = BCRS(eng, st, 'A', comps=tuple(range(0,8*s.bs**2,8)), square=True, diag=True); i, k = s.i, s.k
        bound(eng, st, lt(B.n,I(2**31-1)), le(I(0),i), lt(i,B.n), le(I(0),k), lt(k,B.LEN(i)), ne(k,B.DG(i)), B.rowfact(i)); j = s.j = B.col(i,k); B.probes = lambda e, st_: [(j,i)]
        for f in B.cols.fields[0].facts(eng, st, add(B.P(i),k), None): eng.assume(st, f)
        eng.assume(st, B.rowfact(j)); eng.assume(st, and_(*B.lbfacts(j,i))); eng.assume(st, and_(le(I(0),B.DG(j)), lt(B.DG(j),B.LEN(j)), eq(B.col(j,B.DG(j)),j), le(I(0),B.DG(i)), lt(B.DG(i),B.LEN(i)), eq(B.col(i,B.DG(i)),i), ne(j,i)))
        s.mx, s.dg, s.al, s.be = [var(x,'R') for x in ('maximum','diagonal','alpha','beta')]; own = s.fn != 'c_init'
        cr = s.cr = eng.region('criterion', kind='cells'); st.cells[cr] = {L('cr_matrix'): B.ptr() if own else Ptr(None,I(0)), L('cr_max'): s.mx, L('cr_row'): i if s.fn != 'c_initrow' else var('before','I'), L('cr_diag'): s.dg, L('cr_alpha'): s.al, L('cr_beta'): s.be}
        ci = eng.region('column', kind='cells'); it = lambda o: {o+L('ci_p'): Ptr(B.vals, mul(I(8*s.bs**2),B.P(i))), o+L('ci_j'): Ptr(B.cols, mul(I(8),B.P(i))), o+L('ci_i'): k}; st.cells[ci] = it(0)
        s.none = I(2**63-1); s.own, s.opp = var('edge','I'), var('opposite','I'); eng.assume(st, and_(le(I(0),s.own), lt(s.own,I(2**60)), or_(eq(s.opp,s.none), and_(le(I(0),s.opp), lt(s.opp,I(2**60)), ne(s.opp,s.own))), implies(B.MEM(j,i), ne(s.opp,s.none)), implies(not_(B.MEM(j,i)), eq(s.opp,s.none))))
        ep = s.ep = eng.region('edgeproperties', stride=L('ep'), length=I(2**60)); g = s.g = eng.region('graph', kind='cells'); mg = eng.region('matrixgraph', kind='cells'); st.cells[mg] = {}; st.cells[g] = {L('g_ep'): Ptr(ep,I(0)), L('g_graph'): Ptr(mg,I(0))}
        ei = eng.region('edge', kind='cells'); st.cells[ei] = {**it(L('ei_block')), L('ei_source'): i, L('ei_edge'): s.own, L('ei_graph'): Ptr(g,I(0))}
        for x in ('downown','down','infown','inf'): eng.setghost(st, x, I(0))
        args = {'c_init': [B.ptr()], 'c_initrow': [B.ptr(), i], 'c_examine': [Ptr(ci,I(0))], 'c_edge': [Ptr(g,I(0)), Ptr(ei,I(0)), Ptr(ci,I(0))], 'c_isolated': []}[s.fn]
        eng.call_function(st, eng.mod.get(s.fn), [Ptr(cr,I(0))]+args)
    def handler(s, eng, name):
        if '8findEdgeE' in name: return s.find
        if 'infinity_norm' in name and name.startswith('_ZNK4Dune11DenseMatrix'): return lambda e, st, ins, a: ('ret', app('infinity_norm', tuple(e.load(st, Ptr(a[0].reg, add(a[0].off,I(8*c))), _F64) for c in range(s.bs**2)), 'R'))
        for x, g in (('10setDepends','down'), ('13setInfluences','inf')):
            if name.startswith('_ZN4Dune3Amg14EdgeProperties'+x): return lambda e,st,ins,a: s.mark(e, st, g, a)
        return None
    def find(s, e, st, ins, a):
        src, tgt = [e.load(st, x, _I64) for x in a[1:]]; e.require(st, 'the opposite edge is looked up', and_(eq(src,s.j), eq(tgt,s.i))); return ('ret', s.opp)
    def mark(s, e, st, g, a):
        z = layout(e,'ep'); e.require(st, 'properties of the edge or the opposite edge', and_(TRUE if a[0].reg is s.ep else FALSE, or_(eq(a[0].off,mul(I(z),s.own)), and_(eq(a[0].off,mul(I(z),s.opp)), ne(s.opp,s.none)))))
        o = eq(a[0].off,mul(I(z),s.own)); e.setghost(st, g+'own', ite(o, I(1), st.ghost[g+'own'])) if g == 'inf' else e.setghost(st, 'downown', ite(o, I(1), st.ghost['downown'])); e.setghost(st, g, ite(o, st.ghost[g], I(1))); return ('ret', None)
    def invariants(s, eng, v):
        B = s.B; out = []
        for r, q, nm in ((s.i,B.DG(s.i),'own '), (s.j,B.DG(s.j),'target '), (s.j,B.LB(s.j,s.i),'opposite ')): out += searchcands(v, B, r, q, nm)
        return out
    def strength(s):
        B = s.B; eij = s.norm(B.ent(s.i,s.k))
        if not s.sym: return neg(eij), TRUE
        eji = s.norm(B.ent(s.j,B.LB(s.j,s.i))); ajj = s.norm(B.ent(s.j,B.DG(s.j)))
        return mul(mul(eij,inv(s.dg)),mul(eji,inv(ajj))), and_(B.MEM(s.j,s.i), or_(lt(eij,R(0)), lt(eji,R(0))) if s.nrm == 'FirstDiagonal' else TRUE)
    def post(s, eng, st, ret):
        L = lambda f: layout(eng, f); c = st.cells[s.cr]; q = c[L('cr_matrix')]; g = st.ghost; B = s.B
        eng.require(st, 'the criterion keeps the matrix', and_(TRUE if isinstance(q,Ptr) and q.reg is B.head else FALSE, eq(c[L('cr_alpha')],s.al), eq(c[L('cr_beta')],s.be)))
        mx, dg, row = c[L('cr_max')], c[L('cr_diag')], c[L('cr_row')]; v, counts = s.strength()
        if s.fn == 'c_initrow':
            eng.require(st, 'the row is kept', eq(row,s.i)); eng.require(st, 'the diagonal is the norm of the diagonal entry', eq(dg, s.norm(B.ent(s.i,B.DG(s.i)))))
            eng.require(st, 'the maximum starts below every value', eq(mx, R(-Fraction(2)**1024+Fraction(2)**971)))
        else:
            eng.require(st, 'row and diagonal are kept', and_(eq(row,s.i), eq(dg,s.dg)))
            if s.fn == 'c_examine': eng.require(st, 'the maximum of the strengths', eq(mx, ite(and_(counts, lt(s.mx,v)), v, s.mx)))
            else: eng.require(st, 'the maximum is kept', eq(mx,s.mx))
        if s.fn == 'c_isolated': b = lt(s.mx, s.be if s.sym else mul(s.be,s.dg)); r = ret if ret.sort == 'B' else eq(ret,I(1)); eng.require(st, 'isolated if the maximal strength is below the bound', and_(implies(b,r), implies(r,b)))
        if s.fn == 'c_edge':
            strong = and_(counts, lt(mul(s.al,s.mx), v)) if s.sym else le(mul(s.al,s.mx), v); on = lambda x, w: and_(implies(w, eq(g[x],I(1))), implies(not_(w), eq(g[x],I(0))))
            eng.require(st, 'a strong edge is marked as depending', on('downown', strong)); eng.require(st, 'and the opposite one as influencing', on('inf', and_(strong, ne(s.opp,s.none))))
            eng.require(st, 'both edges of the symmetric criterion are marked for both directions', and_(on('down', strong), on('infown', strong)) if s.sym else and_(eq(g['down'],I(0)), eq(g['infown'],I(0))))
class _Ptr: kind = 'ptr'; size = 8; width = 64; text = 'ptr'
class _F64: kind = 'float'; size = 8; width = 64; text = 'double'
class _I64: kind = 'int'; size = 8; width = 64; text = 'i64'
CRIT = [(1,'FirstDiagonal',0), (1,'FirstDiagonal',1), (2,'FirstDiagonal',0), (2,'FirstDiagonal',1), (2,'RowSum',0), (2,'RowSum',1)]
def contracts(tier):
    fns = ('c_init','c_initrow','c_examine','c_edge','c_isolated')
    return [('drivers/c17d.cc', ['BLOCK=%d' % b, 'STRENGTH='+n] + (['SYMCRIT'] if sy else []), [Criterion(f, b, n, sy) for f in fns]) for b, n, sy in CRIT] + [('drivers/c17c.cc', [], [Depend(0), Depend(1)]), ('drivers/c17b.cc', [], [Grow('c_grow','growAggregate'), Grow('c_growiso','growIsolatedAggregate'), Merge(), Allocate('c_allocate'), Allocate('c_construct')]), ('drivers/c17.cc', [], [Build(0), Build(1)])]
