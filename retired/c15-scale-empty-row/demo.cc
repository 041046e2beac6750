#include <config.h>
#include <complex>
#include <cmath>
#include <iostream>
#include <vector>
#include <dune/common/fmatrix.hh>
#include <dune/common/fvector.hh>
#include <dune/istl/bcrsmatrix.hh>
#include <dune/istl/bvector.hh>
#include <dune/istl/matrixindexset.hh>
using namespace Dune;
using C = std::complex<double>;
template<class M> void build(M& A, int n, int m, std::vector<std::vector<int>> rows) { MatrixIndexSet s(n,m); for (int i=0;i<n;i++) for (int j: rows[i]) s.add(i,j); s.exportIdx(A); }
#define REQ(c) do { if (!(c)) { std::cerr << "failed: " #c << std::endl; return 1; } } while(0)
int main() { typedef BCRSMatrix<double> M; M A(3,3,M::row_wise); for (auto r=A.createbegin(); r!=A.createend(); ++r) if (r.index()!=1) { r.insert(0); r.insert(2); } A=8.; A/=2.; REQ(A[0][2]==4); REQ(A[2][0]==4 && A[2][2]==4); return 0; }