#include <config.h>
#include <complex>
#include <cmath>
#include <iostream>
#include <vector>
#include <dune/common/fmatrix.hh>
#include <dune/common/fvector.hh>
#include <dune/istl/bcrsmatrix.hh>
#include <dune/istl/bvector.hh>
#include <dune/istl/matrixindexset.hh>
using namespace Dune;
using C = std::complex<double>;
template<class M> void build(M& A, int n, int m, std::vector<std::vector<int>> rows) { MatrixIndexSet s(n,m); for (int i=0;i<n;i++) for (int j: rows[i]) s.add(i,j); s.exportIdx(A); }
#define REQ(c) do { if (!(c)) { std::cerr << "failed: " #c << std::endl; return 1; } } while(0)
#include <dune/istl/multitypeblockvector.hh>
#include <dune/common/indices.hh>
int main() { using namespace Indices; MultiTypeBlockVector<BlockVector<FieldVector<C,1>>, BlockVector<FieldVector<C,2>>> x, y; x[_0].resize(1); y[_0].resize(1); x[_1].resize(1); y[_1].resize(1);
  x[_0][0]=C(1,2); y[_0][0]=C(0,1); x[_1][0][0]=C(1,1); x[_1][0][1]=2; y[_1][0][0]=C(3,-1); y[_1][0][1]=C(0,5);
  C e = std::conj(C(1,2))*C(0,1)+std::conj(C(1,1))*C(3,-1)+2.*C(0,5); REQ(std::abs(C(x.dot(y))-e)<1e-12); return 0; }