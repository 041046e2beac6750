#include <config.h>
#include <complex>
#include <cmath>
#include <iostream>
#include <vector>
#include <dune/common/fmatrix.hh>
#include <dune/common/fvector.hh>
#include <dune/istl/bcrsmatrix.hh>
#include <dune/istl/bvector.hh>
#include <dune/istl/matrixindexset.hh>
using namespace Dune;
using C = std::complex<double>;
template<class M> void build(M& A, int n, int m, std::vector<std::vector<int>> rows) { MatrixIndexSet s(n,m); for (int i=0;i<n;i++) for (int j: rows[i]) s.add(i,j); s.exportIdx(A); }
#define REQ(c) do { if (!(c)) { std::cerr << "failed: " #c << std::endl; return 1; } } while(0)
#include <dune/istl/dilu.hh>
int main() { BCRSMatrix<FieldMatrix<double,1,1>> A; build(A,3,3,{{0},{1,2},{0,1,2}}); A[0][0]=2; A[1][1]=4; A[1][2]=1; A[2][0]=3; A[2][1]=2; A[2][2]=5; std::vector<FieldMatrix<double,1,1>> D(3); DILU::blockDILUDecomposition(A,D);
  REQ(std::abs(D[2][0][0]-1/(5-2*0.25*1))<1e-12); return 0; }