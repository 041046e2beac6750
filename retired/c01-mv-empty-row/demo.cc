#include <config.h>
#include <complex>
#include <cmath>
#include <iostream>
#include <vector>
#include <dune/common/fmatrix.hh>
#include <dune/common/fvector.hh>
#include <dune/istl/bcrsmatrix.hh>
#include <dune/istl/bvector.hh>
#include <dune/istl/matrixindexset.hh>
using namespace Dune;
using C = std::complex<double>;
template<class M> void build(M& A, int n, int m, std::vector<std::vector<int>> rows) { MatrixIndexSet s(n,m); for (int i=0;i<n;i++) for (int j: rows[i]) s.add(i,j); s.exportIdx(A); }
#define REQ(c) do { if (!(c)) { std::cerr << "failed: " #c << std::endl; return 1; } } while(0)
int main() { BCRSMatrix<FieldMatrix<double,2,2>> A; build(A,3,3,{{0},{},{2}}); A=1.0; BlockVector<FieldVector<double,2>> x(3), y(3); x=1; y=7; A.mv(x,y); REQ(y[1][0]==0 && y[1][1]==0); REQ(y[0][0]==2 && y[2][1]==2); return 0; }