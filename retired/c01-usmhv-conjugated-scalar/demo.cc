#include <config.h>
#include <complex>
#include <cmath>
#include <iostream>
#include <vector>
#include <dune/common/fmatrix.hh>
#include <dune/common/fvector.hh>
#include <dune/istl/bcrsmatrix.hh>
#include <dune/istl/bvector.hh>
#include <dune/istl/matrixindexset.hh>
using namespace Dune;
using C = std::complex<double>;
template<class M> void build(M& A, int n, int m, std::vector<std::vector<int>> rows) { MatrixIndexSet s(n,m); for (int i=0;i<n;i++) for (int j: rows[i]) s.add(i,j); s.exportIdx(A); }
#define REQ(c) do { if (!(c)) { std::cerr << "failed: " #c << std::endl; return 1; } } while(0)
int main() { BCRSMatrix<C> A; build(A,1,2,{{0,1}}); A[0][0]=C(1,2); A[0][1]=C(3,-1); BlockVector<C> x(1), y(2); x[0]=C(2,1); y[0]=C(1,0); y[1]=0; C a(2,3); A.usmhv(a,x,y);
  REQ(std::abs(y[0]-(C(1,0)+a*std::conj(C(1,2))*C(2,1)))<1e-12); REQ(std::abs(y[1]-a*std::conj(C(3,-1))*C(2,1))<1e-12); return 0; }