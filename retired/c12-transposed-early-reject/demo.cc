#include <config.h>
#include <complex>
#include <cmath>
#include <iostream>
#include <vector>
#include <dune/common/fmatrix.hh>
#include <dune/common/fvector.hh>
#include <dune/istl/bcrsmatrix.hh>
#include <dune/istl/bvector.hh>
#include <dune/istl/matrixindexset.hh>
using namespace Dune;
using C = std::complex<double>;
template<class M> void build(M& A, int n, int m, std::vector<std::vector<int>> rows) { MatrixIndexSet s(n,m); for (int i=0;i<n;i++) for (int j: rows[i]) s.add(i,j); s.exportIdx(A); }
#define REQ(c) do { if (!(c)) { std::cerr << "failed: " #c << std::endl; return 1; } } while(0)
#include <dune/istl/matrixmatrix.hh>
int main() { typedef BCRSMatrix<FieldMatrix<double,1,1>> M; M A, B, C_; build(A,2,4,{{2,3},{0,3}}); build(B,2,4,{{0,2},{1,3}}); for (auto& r: A) for (auto& e: r) e=2; for (auto& r: B) for (auto& e: r) e=3; matMultTransposeMat(C_,A,B);
  for (int i=0;i<2;i++) for (int j=0;j<2;j++) { double s=0; bool in=false; for (int k=0;k<4;k++) if (A.exists(i,k) && B.exists(j,k)) { in=true; s+=6; } REQ(C_.exists(i,j)==in); if (in) REQ(C_[i][j]==s); } return 0; }