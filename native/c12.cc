#include "gen.hh"
#include <set>
#include <dune/istl/matrix.hh>
#include <dune/istl/matrixmatrix.hh>
using namespace Dune; using namespace nat; using S=std::size_t;
template<class M> bool used(Case& c, M& R) { Rng& r=c.rng; int k=int(r.in(0,7)); S n=r.in(0,5), m=r.in(0,5); auto p=randomPattern(r,n,m); c.desc << " result:" << k;
  switch (k) { case 0: break; case 1: buildRandom(r,R,p,m); fillm(r,R); break; case 2: buildRowwise(R,p,m,true); fillm(r,R); break; case 3: buildRowwise(R,p,m,false); fillm(r,R); break; case 4: buildIndexSet(R,p,m); fillm(r,R); break;
    case 5: { R.setBuildMode(M::implicit); R.setImplicitBuildModeParameters(4,0.5); R.setSize(n,m); for (S i=0;i<n;++i) for (S j : p[i]) fillv(r,R.entry(i,j)); R.compress(); break; }
    case 6: { M Z; buildAny(r,Z,p,m); fillm(r,Z); R=Z; break; }
    default: { R.setBuildMode(M::row_wise); } } return k==5; }
template<class M> M& assignable(M& R) { return R; }
template<class F,int n,int k,int m,int op> void prod(Case& c) { // op 0: A*B, 1: A^T*B, 2: A*B^T
  using A_=BCRSMatrix<FieldMatrix<F,op==1?k:n,op==1?n:k>>; using B_=BCRSMatrix<FieldMatrix<F,op==2?m:k,op==2?k:m>>; using R_=BCRSMatrix<FieldMatrix<F,n,m>>; Rng& r=c.rng; S a=randomSize(r,c.no), b=randomSize(r,c.no), d=randomSize(r,c.no); S ar=op==1?b:a, ac=op==1?a:b, br=op==2?d:b, bc=op==2?b:d;
  auto p=randomPattern(r,ar,ac), q=randomPattern(r,br,bc); A_ A; B_ B; buildAny(r,A,p,ac); fillm(r,A); buildAny(r,B,q,bc); fillm(r,B); A_ A0(A); B_ B0(B); c.desc << "A " << ar << "x" << ac << " " << show(p) << " B " << br << "x" << bc << " " << show(q); c.sig=show(p)+"|"+show(q); R_ R; bool implicit=used(c,R);
  int times=r.chance(30)?2:1; bool thrown=false; for (int t=0;t<times;++t) try { if constexpr (op==0) matMultMat(R,A,B,r.chance(50)); else if constexpr (op==1) transposeMatMultMat(R,A,B); else matMultTransposeMat(R,A,B,r.chance(50)); } catch (const Dune::Exception&) { if (!implicit) throw; thrown=true; break; }
  if (thrown) return;
  std::map<std::pair<S,S>,FieldMatrix<F,n,m>> w; for (S x=0;x<ar;++x) for (S y : p[x]) for (S z=0;z<br;++z) for (S u : q[z]) {
    S i, j; const auto& e=A0[x][y]; const auto& f=B0[z][u]; if (op==0) { if (y!=z) continue; i=x; j=u; } else if (op==1) { if (x!=z) continue; i=y; j=u; } else { if (y!=u) continue; i=x; j=z; }
    auto& t=w.emplace(std::make_pair(i,j),FieldMatrix<F,n,m>(F(0))).first->second; for (int g=0;g<n;++g) for (int h=0;h<m;++h) for (int l=0;l<k;++l) t[g][h] += (op==1?e[l][g]:e[g][l]) * (op==2?f[h][l]:f[l][h]); }
  CHECK(R.N()==a && R.M()==d,"size ",R.N(),"x",R.M()," wanted ",a,"x",d); CHECK(R.nonzeroes()==w.size(),"nonzeroes ",R.nonzeroes()," wanted ",w.size()); auto it=w.begin(); S t=0; for (auto i=R.begin();i!=R.end();++i) for (auto j=i->begin();j!=i->end();++j,++t,++it) { CHECK(t<w.size(),"too many entries",t);
    CHECK(it->first.first==i.index() && it->first.second==j.index(),"entry (",i.index(),",",j.index(),") wanted (",it->first.first,",",it->first.second,")"); CHECK(*j==it->second,"value at (",i.index(),",",j.index(),") is ",*j," wanted ",it->second); } CHECK(t==w.size(),"entries ",t," wanted ",w.size());
  auto same=[&](auto& X, auto& Y){ CHECK(X.N()==Y.N() && X.M()==Y.M() && X.nonzeroes()==Y.nonzeroes(),"operand size",X.N()); for (auto i=Y.begin();i!=Y.end();++i) { CHECK(X[i.index()].getsize()==i->getsize(),"operand row",i.index()); for (auto j=i->begin();j!=i->end();++j) CHECK(X.exists(i.index(),j.index()) && X[i.index()][j.index()]==*j,"operand changed at ",i.index()); } }; same(A,A0); same(B,B0); }
template<class F,int op> void mismatch(Case& c) { using M=BCRSMatrix<FieldMatrix<F,2,2>>; Rng& r=c.rng; S a=r.in(1,5), b=r.in(1,5), d=r.in(1,5), e=r.in(1,5); M A, B, R; buildAny(r,A,randomPattern(r,a,b),b); buildAny(r,B,randomPattern(r,d,e),e); bool ok = op==0 ? b==d : op==1 ? a==d : b==e; bool thrown=false; c.desc << a << "x" << b << " " << d << "x" << e;
  try { if constexpr (op==0) matMultMat(R,A,B); else if constexpr (op==1) transposeMatMultMat(R,A,B); else matMultTransposeMat(R,A,B); } catch (const ISTLError&) { thrown=true; } CHECK(thrown==!ok,"non-conforming operands: exception ",thrown," wanted ",!ok); }
template<class F> void dense(Case& c) { using B=FieldMatrix<F,2,2>; Rng& r=c.rng; S n=r.in(0,5), m=r.in(0,5), k=r.in(0,5); Matrix<B> A(n,m), D(m,k); for (S i=0;i<n;++i) for (S j=0;j<m;++j) fillv(r,A[i][j]); for (S i=0;i<m;++i) for (S j=0;j<k;++j) fillv(r,D[i][j]); c.desc << n << "x" << m << "x" << k;
  auto T=A.transpose(); CHECK(T.N()==m && T.M()==n,"size ",T.N(),"x",T.M()); for (S i=0;i<n;++i) for (S j=0;j<m;++j) CHECK(T[j][i]==A[i][j],"transpose entry ",j,",",i);
  auto P=A*D; CHECK(P.N()==n && P.M()==k,"size ",P.N(),"x",P.M()); for (S i=0;i<n;++i) for (S j=0;j<k;++j) { B w(F(0)); for (S l=0;l<m;++l) for (int x=0;x<2;++x) for (int y=0;y<2;++y) for (int z=0;z<2;++z) w[x][y]+=A[i][l][x][z]*D[l][j][z][y]; CHECK(P[i][j]==w,"product entry ",i,",",j); } }
void register_sections() {
  section("mm", prod<double,2,3,1,0>,3); section("mm1", prod<double,1,1,1,0>,2); section("mmc", prod<std::complex<double>,2,2,2,0>); section("tm", prod<double,2,3,1,1>,3); section("tm1", prod<double,1,1,1,1>,2); section("tmc", prod<std::complex<double>,2,2,2,1>);
  section("mt", prod<double,2,3,1,2>,3); section("mt1", prod<double,1,1,1,2>,3); section("mtc", prod<std::complex<double>,2,2,2,2>); section("mis0", mismatch<double,0>); section("mis1", mismatch<double,1>); section("mis2", mismatch<double,2>); section("dense", dense<double>); section("densec", dense<std::complex<double>>);
}
NATIVE_MAIN
