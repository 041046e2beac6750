#include "gen.hh"
#include <dune/common/parametertree.hh>
#include <dune/istl/operators.hh>
#include <dune/istl/scalarproducts.hh>
#include <dune/istl/preconditioners.hh>
#include <dune/istl/solvers.hh>
using namespace Dune; using namespace nat;
using M=BCRSMatrix<FieldMatrix<double,1,1>>; using V=BlockVector<FieldVector<double,1>>; using Cat=SolverCategory::Category;
struct Op : LinearOperator<V,V> { Cat c; Op(int i) : c(Cat(i)) {} void apply(const V& x, V& y) const override { y=x; } void applyscaleadd(double a,const V& x,V& y) const override { y.axpy(a,x); } Cat category() const override { return c; } };
struct Pr : Preconditioner<V,V> { Cat c; Pr(int i) : c(Cat(i)) {} void pre(V&,V&) override {} void apply(V& v,const V& d) override { v=d; } void post(V&) override {} Cat category() const override { return c; } };
struct Sp : ScalarProduct<V> { Cat c; Sp(int i) : c(Cat(i)) {} Cat category() const override { return c; } };
struct Inv : InverseOperator<V,V> { Cat c; Inv(int i) : c(Cat(i)) {} void apply(V&,V&,InverseOperatorResult&) override {} void apply(V&,V&,double,InverseOperatorResult&) override {} Cat category() const override { return c; } };
template<class F> void expect(bool good, const char* what, F f) { bool t=false, inv=false;
  try { f(); } catch (InvalidSolverCategory&) { t=inv=true; } catch (Dune::Exception&) { t=true; }
  CHECK(t==!good, what, good ? ": consistent components are rejected" : ": inconsistent components are accepted"); CHECK(!t || inv, what, ": not an InvalidSolverCategory"); }
template<class S, class... A> void ctors(Case& c, A... a) { Rng& r=c.rng; int o=int(r.in(0,2)), s=int(r.in(0,2)), p=int(r.in(0,2)); if (r.chance(40)) s=p=o; c.desc << " op=" << o << " sp=" << s << " prec=" << p;
  auto op=std::make_shared<Op>(o); auto sp=std::make_shared<Sp>(s); auto pr=std::make_shared<Pr>(p); ParameterTree t; t["reduction"]="1e-8"; t["maxit"]="10"; t["verbose"]="0"; t["restart"]="5"; t["mmax"]="5";
  std::shared_ptr<const LinearOperator<V,V>> lop=op; std::shared_ptr<const ScalarProduct<V>> lsp=sp; std::shared_ptr<Preconditioner<V,V>> lpr=pr; bool all=o==s&&o==p, seq=o==0&&p==0;
  expect(seq,"(op,prec)",[&]{ S q(*op,*pr,1e-8,a...); CHECK(int(q.category())==o,"category"); });
  expect(all,"(op,sp,prec)",[&]{ S q(*op,*sp,*pr,1e-8,a...); CHECK(int(q.category())==o,"category"); });
  expect(all,"(shared op,sp,prec)",[&]{ S q(lop,lsp,lpr,1e-8,a...); CHECK(int(q.category())==o,"category"); });
  expect(seq,"(op,prec,config)",[&]{ S q(lop,lpr,t); CHECK(int(q.category())==o,"category"); });
  expect(all,"(op,sp,prec,config)",[&]{ S q(lop,lsp,lpr,t); CHECK(int(q.category())==o,"category"); }); }
template<int k> void adapter(Case& c) { int o=int(c.no%3); c.desc << " inverse operator " << o << " declared " << k; Inv i(o); bool t=false; try { InverseOperator2Preconditioner<Inv,k> q(i); CHECK(int(q.category())==o,"category"); } catch (InvalidStateException&) { t=true; }
  CHECK(t==(k!=-1 && k!=o), "adapter ", t ? "rejects" : "accepts", " a solver of category ", o, " as ", k); }
void register_sections() {
  section("loop", [](Case& c){ ctors<LoopSolver<V>>(c,10,0); }); section("gradient", [](Case& c){ ctors<GradientSolver<V>>(c,10,0); }); section("cg", [](Case& c){ ctors<CGSolver<V>>(c,10,0); });
  section("bicgstab", [](Case& c){ ctors<BiCGSTABSolver<V>>(c,10,0); }); section("minres", [](Case& c){ ctors<MINRESSolver<V>>(c,10,0); }); section("gmres", [](Case& c){ ctors<RestartedGMResSolver<V>>(c,5,10,0); });
  section("fgmres", [](Case& c){ ctors<RestartedFlexibleGMResSolver<V>>(c,5,10,0); }); section("gpcg", [](Case& c){ ctors<GeneralizedPCGSolver<V>>(c,10,0,5); }); section("rfcg", [](Case& c){ ctors<RestartedFCGSolver<V>>(c,10,0,5); }); section("cfcg", [](Case& c){ ctors<CompleteFCGSolver<V>>(c,10,0,5); });
  section("inv", adapter<-1>,1,9); section("inv0", adapter<0>,1,9); section("inv1", adapter<1>,1,9); section("inv2", adapter<2>,1,9);
}
NATIVE_MAIN
