#include <config.h>
#include <complex>
#include <cmath>
#include <iostream>
#include <vector>
#include <dune/common/fmatrix.hh>
#include <dune/common/fvector.hh>
#include <dune/istl/bcrsmatrix.hh>
#include <dune/istl/bvector.hh>
#include <dune/istl/matrixindexset.hh>
using namespace Dune;
using C = std::complex<double>;
template<class M> void build(M& A, int n, int m, std::vector<std::vector<int>> rows) { MatrixIndexSet s(n,m); for (int i=0;i<n;i++) for (int j: rows[i]) s.add(i,j); s.exportIdx(A); }
#define REQ(c) do { if (!(c)) { std::cerr << "failed: " #c << std::endl; return 1; } } while(0)
#include <dune/istl/ilu.hh>
int main() { BCRSMatrix<FieldMatrix<double,1,1>> A; build(A,4,4,{{0,1,2,3},{1},{0,2,3},{3}}); A=0.; for (int i=0;i<4;i++) A[i][i]=4; A[0][1]=1; A[0][2]=2; A[0][3]=3; A[2][0]=1; A[2][3]=1; auto L=A; ILU::blockILU0Decomposition(L);
  REQ(std::abs(L[2][3][0][0]-(1-0.25*3))<1e-12); REQ(std::abs(1/L[2][2][0][0]-(4-0.25*2))<1e-12); return 0; }