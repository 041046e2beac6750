#include <config.h>
#include <complex>
#include <cmath>
#include <iostream>
#include <vector>
#include <dune/common/fmatrix.hh>
#include <dune/common/fvector.hh>
#include <dune/istl/bcrsmatrix.hh>
#include <dune/istl/bvector.hh>
#include <dune/istl/matrixindexset.hh>
using namespace Dune;
using C = std::complex<double>;
template<class M> void build(M& A, int n, int m, std::vector<std::vector<int>> rows) { MatrixIndexSet s(n,m); for (int i=0;i<n;i++) for (int j: rows[i]) s.add(i,j); s.exportIdx(A); }
#define REQ(c) do { if (!(c)) { std::cerr << "failed: " #c << std::endl; return 1; } } while(0)
#include <dune/istl/operators.hh>
#include <dune/istl/preconditioners.hh>
#include <dune/istl/scalarproducts.hh>
#include <dune/istl/solvers.hh>
typedef BCRSMatrix<FieldMatrix<double,1,1>> M; typedef BlockVector<FieldVector<double,1>> V;
struct SP : SeqScalarProduct<V> { SolverCategory::Category category() const override { return SolverCategory::overlapping; } };
int main() { auto A=std::make_shared<M>(); build(*A,1,1,{{0}}); *A=1.; auto op=std::make_shared<MatrixAdapter<M,V,V>>(A); auto prec=std::make_shared<Richardson<V,V>>(1.0); bool thrown=false;
  try { CGSolver<V> s(op,std::make_shared<SP>(),prec,1e-8,10,0); } catch (InvalidSolverCategory&) { thrown=true; } REQ(thrown); CGSolver<V> t(op,std::make_shared<SeqScalarProduct<V>>(),prec,1e-8,10,0); return 0; }