#include <config.h>
#include <complex>
#include <cmath>
#include <iostream>
#include <vector>
#include <dune/common/fmatrix.hh>
#include <dune/common/fvector.hh>
#include <dune/istl/bcrsmatrix.hh>
#include <dune/istl/bvector.hh>
#include <dune/istl/matrixindexset.hh>
using namespace Dune;
using C = std::complex<double>;
template<class M> void build(M& A, int n, int m, std::vector<std::vector<int>> rows) { MatrixIndexSet s(n,m); for (int i=0;i<n;i++) for (int j: rows[i]) s.add(i,j); s.exportIdx(A); }
#define REQ(c) do { if (!(c)) { std::cerr << "failed: " #c << std::endl; return 1; } } while(0)
#include <dune/istl/bdmatrix.hh>
int main() { BDMatrix<FieldMatrix<double,1,1>> A(3); A[0][0]=4.; A[1][1]=.25; A[2][2]=2.; A.invert(); REQ(A[0][0][0][0]==.25); REQ(A[1][1][0][0]==4); REQ(A[2][2][0][0]==.5); return 0; }