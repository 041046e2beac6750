#include <config.h>
#include <complex>
#include <cmath>
#include <iostream>
#include <vector>
#include <dune/common/fmatrix.hh>
#include <dune/common/fvector.hh>
#include <dune/istl/bcrsmatrix.hh>
#include <dune/istl/bvector.hh>
#include <dune/istl/matrixindexset.hh>
using namespace Dune;
using C = std::complex<double>;
template<class M> void build(M& A, int n, int m, std::vector<std::vector<int>> rows) { MatrixIndexSet s(n,m); for (int i=0;i<n;i++) for (int j: rows[i]) s.add(i,j); s.exportIdx(A); }
#define REQ(c) do { if (!(c)) { std::cerr << "failed: " #c << std::endl; return 1; } } while(0)
#include <dune/istl/foreach.hh>
int main() { BCRSMatrix<FieldMatrix<double,1,2>> A; build(A,2,3,{{0,2},{1}}); for (auto& r: A) for (auto& e: r) e=1; int n=0; bool ok=true; std::vector<std::pair<int,int>> seen; auto s=flatMatrixForEach(A,[&](auto&& e, std::size_t i, std::size_t j) { seen.push_back({int(i),int(j)}); });
  std::vector<std::pair<int,int>> want={{0,0},{0,1},{0,4},{0,5},{1,2},{1,3}}; REQ(seen==want); REQ(s.first==2 && s.second==6); return 0; }