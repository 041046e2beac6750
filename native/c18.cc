// Executable form of C18 on real MPI processes: random distributions of global indices against the sequential picture.
#include <config.h>
#undef HAVE_MPI
#define HAVE_MPI 1
#include <mpi.h>
#include "native.hh"
#include "gen.hh"
#include <dune/common/fvector.hh>
#include <dune/common/fmatrix.hh>
#include <dune/common/bigunsignedint.hh>
#include <dune/istl/bcrsmatrix.hh>
#include <dune/istl/bvector.hh>
#include <dune/istl/owneroverlapcopy.hh>
#include <dune/istl/scalarproducts.hh>
#include <dune/istl/schwarz.hh>
#include <dune/istl/novlpschwarz.hh>
#include <dune/istl/matrixredistribute.hh>
#include <dune/istl/paamg/pinfo.hh>
#include <dune/istl/paamg/aggregates.hh>
#include <dune/istl/paamg/transfer.hh>
#include <numeric>
using namespace Dune; using nat::Case;
typedef OwnerOverlapCopyAttributeSet AS;
static int RANK = 0, SIZE = 1; static MPI_Comm SUB[5];
// the whole picture, the same on every process
struct World { int P, G; std::vector<std::vector<int>> att; std::vector<std::vector<int>> loc; std::vector<int> n; std::vector<int> owner; bool sharedAll; 
  int extra(int p) const { int s = 0; for (int g=0; g<G; ++g) s += att[p][g] != 0; return n[p]-s; }
  std::string str() const { std::ostringstream s; s << "P=" << P << " G=" << G; for (int p=0; p<P; ++p) { s << " p" << p << ":n=" << n[p]; for (int g=0; g<G; ++g) if (att[p][g]) s << "," << g << ":" << "-OVC"[att[p][g]] << "@" << loc[p][g]; } return s.str(); } };
static World world(Case& c, int maxG=9, bool allowExtra=true, int dens=-1) {
  World w; w.P = c.rng.in(1,std::min(4,SIZE)); w.G = c.rng.in(0,maxG); w.att.assign(w.P,std::vector<int>(w.G,0)); w.loc.assign(w.P,std::vector<int>(w.G,-1)); w.n.assign(w.P,0); w.owner.resize(w.G);
  int d = dens >= 0 ? dens : c.rng.in(0,100);
  for (int g=0; g<w.G; ++g) { w.owner[g] = c.rng.in(0,w.P-1); for (int p=0; p<w.P; ++p) w.att[p][g] = p==w.owner[g] ? int(AS::owner) : c.rng.chance(d) ? (c.rng.chance(50) ? int(AS::overlap) : int(AS::copy)) : 0; }
  for (int p=0; p<w.P; ++p) { std::vector<int> hold; for (int g=0; g<w.G; ++g) if (w.att[p][g]) hold.push_back(g); w.n[p] = hold.size() + (allowExtra ? c.rng.in(0,2) : 0);
    std::vector<int> perm(w.n[p]); std::iota(perm.begin(),perm.end(),0); for (int i=w.n[p]-1; i>0; --i) std::swap(perm[i],perm[c.rng.in(0,i)]);
    for (std::size_t i=0; i<hold.size(); ++i) w.loc[p][hold[i]] = perm[i]; }
  return w; }
typedef OwnerOverlapCopyCommunication<int,int> Com;
template<class C> void fillSets(C& com, const World& w, int p) { com.indexSet().beginResize(); for (int g=0; g<w.G; ++g) if (w.att[p][g]) com.indexSet().add(g, typename C::ParallelIndexSet::LocalIndex(w.loc[p][g], AS::AttributeSet(w.att[p][g]), true)); com.indexSet().endResize(); com.remoteIndices().template rebuild<false>(); }
static std::unique_ptr<Com> build(Case& c, const World& w, SolverCategory::Category cat=SolverCategory::overlapping) {
  bool viaInfo = c.rng.chance(40); int p = RANK; std::unique_ptr<Com> com; 
  MPI_Comm comm = SUB[w.P]; bool freec = c.rng.chance(30); if (freec) MPI_Comm_dup(SUB[w.P],&comm);
  if (viaInfo) { IndexInfoFromGrid<int,int> info; for (int g=0; g<w.G; ++g) if (w.att[p][g]) { info.addLocalIndex(std::make_tuple(g,w.loc[p][g],w.att[p][g])); for (int q=0; q<w.P; ++q) if (q!=p && w.att[q][g]) info.addRemoteIndex(std::make_tuple(q,g,w.att[q][g])); }
    com = std::make_unique<Com>(info, comm, cat, freec); }
  else { com = std::make_unique<Com>(comm, cat, freec); fillSets(*com,w,p); }
  CHECK(com->category()==cat, "category"); CHECK(com->communicator().size()==w.P && com->communicator().rank()==p, "communicator");
  int cnt = 0; for (auto it=com->indexSet().begin(); it!=com->indexSet().end(); ++it) { int g = it->global(); ++cnt; CHECK(g>=0 && g<w.G && w.att[p][g]==int(it->local().attribute()) && w.loc[p][g]==int(it->local().local()), "index ", g); }
  int want = 0; for (int g=0; g<w.G; ++g) want += w.att[p][g]!=0; CHECK(cnt==want, "size of the index set ", cnt);
  return com; }
template<class F> F value(Case& c) { if constexpr (std::is_same_v<F,std::complex<double>>) { double a = c.rng.small(); double b = c.rng.small(); return F(a,b); } else return F(c.rng.small()); }
template<class B> struct BT { typedef B field; static B make(Case& c) { return value<B>(c); } };
template<class F, int n> struct BT<FieldVector<F,n>> { typedef F field; static FieldVector<F,n> make(Case& c) { FieldVector<F,n> r; for (auto& x : r) x = value<F>(c); return r; } };
template<class B> std::vector<BlockVector<B>> vectors(Case& c, const World& w, int more=0) { std::vector<BlockVector<B>> x(w.P); for (int p=0; p<w.P; ++p) { x[p].resize(w.n[p]+more); for (auto& b : x[p]) b = BT<B>::make(c); } return x; }
template<class X> bool same(const X& a, const X& b) { X d(a); d -= b; return d.infinity_norm() == 0; }
static bool in(int a, std::initializer_list<int> s) { for (int x : s) if (x==a) return true; return false; }
template<class B> void exchange(Case& c) {
  World w = world(c); c.desc << w.str(); auto xs = vectors<B>(c,w), ys = vectors<B>(c,w); int reps = c.rng.in(1,3); std::vector<int> ops, al; for (int i=0; i<reps; ++i) { ops.push_back(c.rng.in(0,5)); al.push_back(c.rng.chance(35)); }
  bool active = RANK<w.P; if (!active) return; auto com = build(c,w); int p = RANK;
  for (int r=0; r<reps; ++r) { 
    auto X = xs, Y = ys; if (al[r]) X = Y; BlockVector<B> y(Y[p]);
    const BlockVector<B>& x = al[r] ? y : X[p]; int op = ops[r]; c.desc << " op" << op << (al[r] ? "!" : "");
    switch (op) { case 0: com->copyOwnerToAll(x,y); break; case 1: com->copyCopyToAll(x,y); break; case 2: com->addOwnerOverlapToAll(x,y); break; case 3: com->addOwnerCopyToAll(x,y); break; case 4: com->addOwnerCopyToOwnerCopy(x,y); break; case 5: com->project(y); break; }
    std::initializer_list<int> src[] = {{1},{3},{1,2},{1,3},{1,3},{}}, dst[] = {{1,2,3},{1,2,3},{1,2,3},{1,2,3},{1,3},{}};
    std::vector<char> seen(w.n[p],0);
    for (int g=0; g<w.G; ++g) if (w.att[p][g]) { int l = w.loc[p][g]; seen[l] = 1; B want = Y[p][l]; bool ok = op<=1 ? false : true; bool any = false;
      if (op==5) { if (w.att[p][g]==AS::copy) want = B(0); }
      else for (int q=0; q<w.P; ++q) if (q!=p && w.att[q][g] && in(w.att[q][g],src[op]) && in(w.att[p][g],dst[op])) { if (op<=1) { any = true; BlockVector<B> t(1), u(1); t[0] = X[q][w.loc[q][g]]; u[0] = y[l]; ok = ok || same(t,u); } else want += X[q][w.loc[q][g]]; }
      BlockVector<B> t(1), u(1); t[0] = want; u[0] = y[l];
      if (op<=1 && any) CHECK(ok, "operation ", op, " process ", p, " index ", g, ": not the value sent"); else CHECK(same(t,u), "operation ", op, " process ", p, " global ", g, " got ", y[l], " want ", want); }
    for (int l=0; l<w.n[p]; ++l) if (!seen[l]) { BlockVector<B> t(1), u(1); t[0] = Y[p][l]; u[0] = y[l]; CHECK(same(t,u), "operation ", op, " changes an index outside the index set"); } } }
template<class F> F conjv(F a) { if constexpr (std::is_same_v<F,std::complex<double>>) return std::conj(a); else return a; }
template<class B> void products(Case& c) {
  typedef typename BT<B>::field F; World w = world(c); c.desc << w.str(); int reps = c.rng.in(1,4); std::vector<int> more; for (int i=0; i<reps; ++i) more.push_back(c.rng.chance(60) ? 0 : c.rng.in(1,3));
  std::vector<std::vector<BlockVector<B>>> xs, ys; for (int i=0; i<reps; ++i) { xs.push_back(vectors<B>(c,w,more[i])); ys.push_back(vectors<B>(c,w,more[i])); }
  int kind = c.rng.in(0,3); if (RANK>=w.P) return; auto com = build(c,w, kind==2 ? SolverCategory::nonoverlapping : SolverCategory::overlapping); int p = RANK;
  for (int r=0; r<reps; ++r) { F want(0); double nn = 0;
    for (int q=0; q<w.P; ++q) { std::vector<char> skip(w.n[q]+more[r],0); for (int g=0; g<w.G; ++g) if (w.att[q][g] && w.att[q][g]!=AS::owner) skip[w.loc[q][g]] = 1;
      for (std::size_t l=0; l<xs[r][q].size(); ++l) if (!skip[l]) { auto a = Impl::asVector(xs[r][q][l]), b = Impl::asVector(ys[r][q][l]); for (std::size_t i=0; i<a.size(); ++i) { want += conjv(F(a[i]))*F(b[i]); nn += std::norm(std::complex<double>(a[i])); } } }
    F got(7); double gn = 0; typedef BlockVector<B> X; const X &x = xs[r][p], &y = ys[r][p];
    if (r%2==0) { if (kind==0) { com->dot(x,y,got); gn = com->norm(x); } else { auto s = kind==3 ? createScalarProduct<X>(*com, com->category()) : std::shared_ptr<ScalarProduct<X>>(new ParallelScalarProduct<X,Com>(*com, com->category())); got = s->dot(x,y); gn = s->norm(x); } }
    else { gn = com->norm(x); com->dot(x,y,got); }
    CHECK(got==want, "scalar product ", got, " expected ", want, " round ", r); CHECK(std::abs(gn*gn-nn) <= 1e-9*(1+nn), "norm ", gn, " squared expected ", nn); } }
// a global matrix whose rows are stored at their owners, all columns present there
static void schwarz(Case& c) {
  World w = world(c,8,false,70); int G = w.G; std::vector<std::vector<double>> A(G,std::vector<double>(G,0)); std::vector<double> x(G); for (auto& v : x) v = c.rng.small();
  auto idx = [&](int p, int g) { return w.att[p][g]; };
  bool over = c.rng.chance(50); double alpha = c.rng.small(); std::vector<double> y0(G); for (auto& v : y0) v = c.rng.small();
  if (!over) for (int p=0; p<w.P; ++p) for (int g=0; g<G; ++g) if (w.att[p][g]==AS::overlap) w.att[p][g] = AS::copy;
  for (int i=0; i<G; ++i) for (int j=0; j<G; ++j) if (i==j || (idx(w.owner[i],j) && c.rng.chance(60))) A[i][j] = c.rng.small();
  // additive splitting of the entries between the owner of the row and the owner of the column where both hold both
  std::vector<std::vector<double>> S(G,std::vector<double>(G,0)); for (int i=0; i<G; ++i) for (int j=0; j<G; ++j) S[i][j] = !over && A[i][j]!=0 && w.owner[i]!=w.owner[j] && idx(w.owner[j],i) && c.rng.chance(60) ? c.rng.small() : 0;
  c.desc << w.str() << (over ? " overlapping" : " nonoverlapping"); if (RANK>=w.P) return; auto com = build(c,w, over ? SolverCategory::overlapping : SolverCategory::nonoverlapping); int p = RANK, n = w.n[p];
  typedef BCRSMatrix<double> M; typedef BlockVector<double> X; std::vector<std::map<int,double>> rows(n);
  for (int i=0; i<G; ++i) if (idx(p,i)) { rows[w.loc[p][i]][w.loc[p][i]] += 0; for (int j=0; j<G; ++j) if (idx(p,j)) { if (w.owner[i]==p && A[i][j]!=0) rows[w.loc[p][i]][w.loc[p][j]] += A[i][j]-S[i][j]; else if (!over && w.owner[j]==p && w.owner[i]!=p && S[i][j]!=0) rows[w.loc[p][i]][w.loc[p][j]] += S[i][j]; } }
  M m(n,n,M::random); for (int i=0; i<n; ++i) m.setrowsize(i,rows[i].size()); m.endrowsizes(); for (int i=0; i<n; ++i) for (auto& e : rows[i]) m.addindex(i,e.first); m.endindices(); for (int i=0; i<n; ++i) for (auto& e : rows[i]) m[i][e.first] = e.second;
  X xl(n), yl(n), z(n), zz(n); for (int g=0; g<G; ++g) if (idx(p,g)) { xl[w.loc[p][g]] = x[g]; z[w.loc[p][g]] = y0[g]; } yl = 17; zz = z;
  std::shared_ptr<LinearOperator<X,X>> op; if (over) op = std::make_shared<OverlappingSchwarzOperator<M,X,X,Com>>(m,*com); else op = std::make_shared<NonoverlappingSchwarzOperator<M,X,X,Com>>(m,*com);
  CHECK(op->category()==com->category(), "category"); op->apply(xl,yl); op->applyscaleadd(alpha,xl,z); X y2(n); op->apply(xl,y2);
  for (int g=0; g<G; ++g) if (idx(p,g)) { double want = 0; for (int j=0; j<G; ++j) want += A[g][j]*x[j]; int l = w.loc[p][g];
    // the overlapping operator projects: copies become zero, other rows are those of the local matrix; the nonoverlapping one is consistent
    if (over) { if (w.owner[g]==p) { CHECK(yl[l]==want && y2[l]==want, "row ", g, " got ", yl[l], " want ", want); CHECK(z[l]==y0[g]+alpha*want, "applyscaleadd row ", g); } else if (idx(p,g)==AS::copy) CHECK(yl[l]==0 && z[l]==0, "copies are zero"); }
    else { CHECK(yl[l]==want && y2[l]==want, "row ", g, " got ", yl[l], " want ", want); CHECK(z[l]==y0[g]+alpha*want, "applyscaleadd row ", g, " got ", z[l], " want ", y0[g]+alpha*want); } } }
static void transfer(Case& c) {
  World w = world(c,6,true); typedef BlockVector<double> X; int nf = 0; auto xs = vectors<double>(c,w); std::vector<std::vector<int>> agg(w.P); std::vector<X> fine(w.P); 
  for (int p=0; p<w.P; ++p) { nf = c.rng.in(0,10); fine[p].resize(nf); for (auto& v : fine[p]) v = c.rng.small(); for (int i=0; i<nf; ++i) agg[p].push_back(w.n[p] && !c.rng.chance(15) ? c.rng.in(0,w.n[p]-1) : -1); }
  c.desc << w.str(); if (RANK>=w.P) return; auto com = build(c,w); int p = RANK; typedef Amg::AggregatesMap<std::size_t> AM; AM a(agg[p].size()); for (std::size_t i=0; i<agg[p].size(); ++i) a[i] = agg[p][i]<0 ? AM::ISOLATED : std::size_t(agg[p][i]);
  X coarse(w.n[p]); coarse = 99; Amg::Transfer<std::size_t,X,Com>::restrictVector(a,coarse,fine[p],*com); X want(w.n[p]); want = 0; for (std::size_t i=0; i<agg[p].size(); ++i) if (agg[p][i]>=0) want[agg[p][i]] += fine[p][i];
  for (int g=0; g<w.G; ++g) if (w.att[p][g]==AS::copy) want[w.loc[p][g]] = 0; CHECK(same(want,coarse), "restriction");
  X cc(xs[p]), f(fine[p]), wf(fine[p]); double damp = 0.5; Amg::Transfer<std::size_t,X,Com>::prolongateVector(a,cc,f,damp,*com); for (std::size_t i=0; i<agg[p].size(); ++i) if (agg[p][i]>=0) wf[i] += damp*xs[p][agg[p][i]]; CHECK(same(wf,f), "prolongation"); }
// redistribution: same global indices, new owners
static void redist(Case& c) {
  World w = world(c,8,false,0), v; int G = w.G; std::vector<std::vector<double>> A(G,std::vector<double>(G,0)); for (int i=0; i<G; ++i) for (int j=0; j<=i; ++j) if (i==j || c.rng.chance(35)) { A[i][j] = c.rng.nz(); A[j][i] = c.rng.nz(); }
  auto distribute = [&](World& u) { u.att.assign(u.P,std::vector<int>(G,0)); u.loc.assign(u.P,std::vector<int>(G,-1)); u.n.assign(u.P,0); for (int g=0; g<G; ++g) u.att[u.owner[g]][g] = AS::owner;
    for (int i=0; i<G; ++i) for (int j=0; j<G; ++j) if (A[i][j]!=0 && !u.att[u.owner[i]][j]) u.att[u.owner[i]][j] = AS::copy;
    for (int p=0; p<u.P; ++p) { int k = 0; for (int pass=0; pass<2; ++pass) for (int g=0; g<G; ++g) if (u.att[p][g] && (u.att[p][g]==AS::owner) == (pass==0)) u.loc[p][g] = k++; u.n[p] = k; } };
  v = w; for (int g=0; g<G; ++g) v.owner[g] = c.rng.in(0,w.P-1); distribute(w); distribute(v); c.desc << w.str() << " -> " << v.str(); std::vector<double> x(G); for (auto& t : x) t = c.rng.small(); if (RANK>=w.P) return; int p = RANK;
  Com a(SUB[w.P]), b(SUB[w.P]); fillSets(a,w,p); fillSets(b,v,p); RedistributeInformation<Com> ri; RemoteIndices<Com::ParallelIndexSet> rem(a.indexSet(), b.indexSet(), a.communicator()); rem.rebuild<true>();
  Com::OwnerSet own; ri.getInterface().build(rem,own,own); ri.setSetup(); CHECK(ri.isSetup(), "set up");
  for (int q=0; q<w.P; ++q) if (v.n[q]==1) return;     // ParallelIndexSet::at of dune-common finds nothing in a set with one index
  typedef BCRSMatrix<double> M; typedef BlockVector<double> X; int n = w.n[p], m = v.n[p];
  X from(n), to(m), back(n); from = 55; to = 66; back = 77; for (int g=0; g<G; ++g) if (w.att[p][g]==AS::owner) from[w.loc[p][g]] = x[g];
  ri.redistribute(from,to); ri.redistributeBackward(back,to);
  for (int g=0; g<G; ++g) { if (v.att[p][g]) CHECK(to[v.loc[p][g]] == (v.att[p][g]==AS::owner ? x[g] : 66), "redistributed vector, index ", g, " got ", to[v.loc[p][g]]); if (w.att[p][g]) CHECK(back[w.loc[p][g]] == (w.att[p][g]==AS::owner ? x[g] : 77), "vector brought back, index ", g, " got ", back[w.loc[p][g]]); }
  std::vector<std::map<int,double>> rows(n); for (int i=0; i<G; ++i) if (w.att[p][i]) { for (int j=0; j<G; ++j) if (w.att[p][j] && A[i][j]!=0) rows[w.loc[p][i]][w.loc[p][j]] = w.owner[i]==p ? A[i][j] : (i==j ? 1 : 0); }
  M mat(n,n,M::random); for (int i=0; i<n; ++i) mat.setrowsize(i,rows[i].size()); mat.endrowsizes(); for (int i=0; i<n; ++i) for (auto& e : rows[i]) mat.addindex(i,e.first); mat.endindices(); for (int i=0; i<n; ++i) for (auto& e : rows[i]) mat[i][e.first] = e.second;
  M neu; redistributeMatrix(mat,neu,a,b,ri); CHECK(int(neu.N())==m, "rows of the new matrix ", neu.N(), " ", m);
  for (int i=0; i<G; ++i) if (v.att[p][i]) { bool mine = v.owner[i]==p; int l = v.loc[p][i]; for (int j=0; j<G; ++j) if (v.att[p][j]) { int k = v.loc[p][j]; double got = neu.exists(l,k) ? double(neu[l][k]) : 0; double want = mine ? A[i][j] : i==j ? 1 : 0; CHECK(got==want, "entry (", i, ",", j, ") of the redistributed matrix: ", got, " expected ", want); if (mine && A[i][j]!=0) CHECK(neu.exists(l,k), "stored"); } } }
static void lookup(Case& c) {
  World w = world(c,9,true); c.desc << w.str(); bool grow = c.rng.chance(50); if (RANK>=w.P) return; int p = RANK; Com com(SUB[w.P]); com.indexSet().beginResize(); for (int g=0; g<w.G; ++g) if (w.att[p][g]) com.indexSet().add(g, Com::ParallelIndexSet::LocalIndex(w.loc[p][g], AS::AttributeSet(w.att[p][g]), true)); com.indexSet().endResize();
  auto build = [&](std::size_t n) { if (c.no%2) com.buildGlobalLookup(n); else com.buildGlobalLookup(); };
  for (int round=0; round<(grow ? 2 : 1); ++round) { build(w.n[p]+2); const auto* first = &com.globalLookup(); build(w.n[p]+2); CHECK(first==&com.globalLookup(), "an unchanged index set keeps its lookup");
    for (int g=0; g<w.G; ++g) if (w.att[p][g]) { auto* ip = com.globalLookup().pair(w.loc[p][g]); CHECK(ip && ip->global()==g, "lookup of ", g); }
    if (round==1) { auto* ip = com.globalLookup().pair(w.n[p]); CHECK(ip && ip->global()==100, "lookup of the new index"); }
    if (grow && round==0) { com.indexSet().beginResize(); com.indexSet().add(100, Com::ParallelIndexSet::LocalIndex(w.n[p], AS::owner, true)); com.indexSet().endResize(); } }
  com.freeGlobalLookup(); build(w.n[p]+2); com.freeGlobalLookup(); }
static void infos(Case& c) {      // IndexInfoFromGrid and the constructor check their input
  IndexInfoFromGrid<int,int> info; int bad = c.rng.chance(50) ? c.rng.in(4,9) : -c.rng.in(0,5); bool t1 = false, t2 = false; try { info.addLocalIndex(std::make_tuple(1,0,bad)); } catch (ISTLError&) { t1 = true; } try { info.addRemoteIndex(std::make_tuple(1,0,bad)); } catch (ISTLError&) { t2 = true; }
  CHECK(t1 && t2 && info.localIndices().empty() && info.remoteIndices().empty(), "an unknown attribute is rejected"); c.desc << "attribute " << bad;
  if (SIZE<2 || RANK>0) return; MPI_Comm self; MPI_Comm_dup(MPI_COMM_SELF,&self); int k = c.rng.chance(5) ? 512 : c.rng.in(0,5); for (int g=0; g<k; ++g) info.addLocalIndex(std::make_tuple(2*g,g,1+g%3)); int unknown = c.rng.chance(50) ? 2*k+c.rng.in(0,3) : 2*c.rng.in(0,k)-1; info.addRemoteIndex(std::make_tuple(1,unknown,1));
  bool threw = false; try { Com com(info,self); } catch (ISTLError&) { threw = true; } CHECK(threw, "a remote index that is not in the index set is rejected"); MPI_Comm_free(&self); }
static void register_sections() {
  nat::section("exchange<double>", exchange<double>, 3); nat::section("exchange<FieldVector<complex,2>>", exchange<FieldVector<std::complex<double>,2>>, 2);
  nat::section("product<double>", products<double>, 2); nat::section("product<complex>", products<std::complex<double>>, 2); nat::section("product<FieldVector<complex,2>>", products<FieldVector<std::complex<double>,2>>, 2);
  nat::section("schwarz operators", schwarz, 2); nat::section("transfer", transfer); nat::section("redistribution", redist, 2); nat::section("lookup", lookup); nat::section("index information", infos);
}
int main(int argc, char** argv) {
  if (!getenv("OMPI_COMM_WORLD_SIZE")) {
    setenv("OMPI_ALLOW_RUN_AS_ROOT","1",1); setenv("OMPI_ALLOW_RUN_AS_ROOT_CONFIRM","1",1); setenv("OMPI_MCA_btl","self,vader",1); setenv("OMPI_MCA_plm","isolated",1); setenv("OMPI_MCA_rmaps_base_oversubscribe","1",1); setenv("OMPI_MCA_hwloc_base_binding_policy","none",1); setenv("OMPI_MCA_mpi_yield_when_idle","1",1); setenv("OMPI_MCA_btl_vader_single_copy_mechanism","none",1);
    std::vector<char*> a; for (const char* s : {"mpirun","-np","4"}) a.push_back(const_cast<char*>(s)); for (int i=0; i<argc; ++i) a.push_back(argv[i]); a.push_back(nullptr); execvp("mpirun",a.data()); perror("mpirun"); return 3; }
  MPI_Init(&argc,&argv); MPI_Comm_rank(MPI_COMM_WORLD,&RANK); MPI_Comm_size(MPI_COMM_WORLD,&SIZE);
  for (int P=1; P<=4; ++P) MPI_Comm_split(MPI_COMM_WORLD, RANK<P ? 0 : 1, RANK, &SUB[P]);
  nat::hooks().rank = RANK;
  nat::hooks().clock = [](double t) { MPI_Barrier(MPI_COMM_WORLD); MPI_Bcast(&t,1,MPI_DOUBLE,0,MPI_COMM_WORLD); return t; };
  nat::hooks().abort = [] { usleep(100000*(RANK+1)); MPI_Abort(MPI_COMM_WORLD,1); };
  register_sections(); int r = nat::run(argc,argv); MPI_Finalize(); return r; }
