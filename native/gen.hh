// Generators for the containers and exact reference arithmetic.
#pragma once
#include "native.hh"
#include <dune/common/fmatrix.hh>
#include <dune/common/fvector.hh>
#include <dune/istl/bcrsmatrix.hh>
#include <dune/istl/bvector.hh>
#include <dune/istl/matrixindexset.hh>
namespace nat {
using Pattern = std::vector<std::vector<std::size_t>>;
// sizes mostly tiny, sometimes large; rows may be empty
inline Pattern randomPattern(Rng& r, std::size_t n, std::size_t m, bool diag=false) {
  Pattern p(n); int dens = r.chance(20) ? 100 : r.chance(30) ? 10 : int(r.in(0,80));
  for (std::size_t i=0;i<n;++i) for (std::size_t j=0;j<m;++j) if ((diag && i==j) || r.in(0,99) < dens) p[i].push_back(j);
  return p;
}
inline std::size_t randomSize(Rng& r, std::uint64_t no) { if (no < 40) return std::size_t(r.in(0,3)); int k = r.in(0,19); return k<12 ? r.in(0,6) : k<18 ? r.in(0,14) : k<19 ? r.in(10,40) : r.in(30,140); }
inline std::string show(const Pattern& p) { std::ostringstream s; std::size_t n=0; for (std::size_t i=0;i<p.size() && n<200;++i) { s << (i?";":"") ; for (std::size_t k=0;k<p[i].size();++k,++n) s << (k?",":"") << p[i][k]; } return s.str(); }
template<class K> struct RandK { static K get(Rng& r) { return K(r.small()); } static K nz(Rng& r) { return K(r.nz()); } };
template<class R> struct RandK<std::complex<R>> { static std::complex<R> get(Rng& r) { return {R(r.small()),R(r.small())}; } static std::complex<R> nz(Rng& r) { return {R(r.nz()),R(r.small())}; } };
template<class K> void fillv(Rng& r, K& k) { k = RandK<K>::get(r); }
template<class K,int n> void fillv(Rng& r, Dune::FieldVector<K,n>& v) { for (int i=0;i<n;++i) v[i] = RandK<K>::get(r); }
template<class K,int n,int m> void fillv(Rng& r, Dune::FieldMatrix<K,n,m>& v) { for (int i=0;i<n;++i) for (int j=0;j<m;++j) v[i][j] = RandK<K>::get(r); }
template<class B,class A> void fillv(Rng& r, Dune::BlockVector<B,A>& v) { for (std::size_t i=0;i<v.size();++i) fillv(r, v[i]); }
template<class M> void fillm(Rng& r, M& m) { for (auto row=m.begin(); row!=m.end(); ++row) for (auto c=row->begin(); c!=row->end(); ++c) fillv(r,*c); }
// random-mode construction in shuffled order
template<class M> void buildRandom(Rng& r, M& A, const Pattern& p, std::size_t m, bool over=false) {
  A.setBuildMode(M::random); A.setSize(p.size(), m);
  for (std::size_t i=0;i<p.size();++i) A.setrowsize(i, p[i].size());
  A.endrowsizes();
  for (std::size_t i=0;i<p.size();++i) { auto q = p[i]; for (std::size_t k=q.size();k>1;--k) std::swap(q[k-1],q[r.in(0,long(k)-1)]); for (auto c : q) A.addindex(i,c); }
  A.endindices();
}
template<class M> void buildRowwise(M& A, const Pattern& p, std::size_t m, bool withnnz=true) {
  std::size_t nnz=0; for (auto& r : p) nnz += r.size();
  A.setBuildMode(M::row_wise);
  if (withnnz) A.setSize(p.size(), m, nnz); else A.setSize(p.size(), m);
  for (auto row=A.createbegin(); row!=A.createend(); ++row) for (auto c : p[row.index()]) row.insert(c);
}
template<class M> void buildIndexSet(M& A, const Pattern& p, std::size_t m) { Dune::MatrixIndexSet s(p.size(), m); for (std::size_t i=0;i<p.size();++i) for (auto c : p[i]) s.add(i,c); s.exportIdx(A); }
template<class M> void buildAny(Rng& r, M& A, const Pattern& p, std::size_t m) {
  switch (r.in(0,3)) { case 0: buildRandom(r,A,p,m); break; case 1: buildRowwise(A,p,m,true); break; case 2: buildRowwise(A,p,m,false); break; default: buildIndexSet(A,p,m); } }
}
