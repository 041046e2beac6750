#include <config.h>
#include <complex>
#include <cmath>
#include <iostream>
#include <vector>
#include <dune/common/fmatrix.hh>
#include <dune/common/fvector.hh>
#include <dune/istl/bcrsmatrix.hh>
#include <dune/istl/bvector.hh>
#include <dune/istl/matrixindexset.hh>
using namespace Dune;
using C = std::complex<double>;
template<class M> void build(M& A, int n, int m, std::vector<std::vector<int>> rows) { MatrixIndexSet s(n,m); for (int i=0;i<n;i++) for (int j: rows[i]) s.add(i,j); s.exportIdx(A); }
#define REQ(c) do { if (!(c)) { std::cerr << "failed: " #c << std::endl; return 1; } } while(0)
#include <dune/istl/gsetc.hh>
int main() { BCRSMatrix<FieldMatrix<double,1,1>> A; build(A,2,2,{{0,1},{1}}); A[0][0]=5; A[0][1]=2; A[1][1]=7; BlockVector<FieldVector<double,1>> v(2), d(2); d[0]=3; d[1]=4; v=0; ubutsolve(A,v,d,0.5);
  REQ(std::abs(v[1][0]-2)<1e-12); REQ(std::abs(v[0][0]-0.5*(3-2*2))<1e-12); return 0; }