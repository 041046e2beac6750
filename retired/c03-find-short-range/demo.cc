#include <config.h>
#include <complex>
#include <cmath>
#include <iostream>
#include <vector>
#include <dune/common/fmatrix.hh>
#include <dune/common/fvector.hh>
#include <dune/istl/bcrsmatrix.hh>
#include <dune/istl/bvector.hh>
#include <dune/istl/matrixindexset.hh>
using namespace Dune;
using C = std::complex<double>;
template<class M> void build(M& A, int n, int m, std::vector<std::vector<int>> rows) { MatrixIndexSet s(n,m); for (int i=0;i<n;i++) for (int j: rows[i]) s.add(i,j); s.exportIdx(A); }
#define REQ(c) do { if (!(c)) { std::cerr << "failed: " #c << std::endl; return 1; } } while(0)
int main() { BCRSMatrix<double> A; build(A,2,6,{{0,1,2,3,4,5},{4,5}}); A=0.; for (int j=0;j<6;j++) { A[0][j]=j; REQ(A.exists(0,j)); REQ(A.exists(1,j)==(j>=4)); const auto& B=A; REQ(B[0].find(j)!=B[0].end()); REQ(*B[0].find(j)==j); } return 0; }