// Executable form of C19: what is written is parsed independently and read back; symmetric, damaged and inconsistent files.
#include <config.h>
#undef HAVE_MPI
#define HAVE_MPI 1
#include <mpi.h>
#include "native.hh"
#include "gen.hh"
#include <filesystem>
#include <fstream>
#include <numeric>
#include <dune/common/fvector.hh>
#include <dune/common/fmatrix.hh>
#include <dune/common/simd/loop.hh>
#include <dune/istl/bcrsmatrix.hh>
#include <dune/istl/bvector.hh>
#include <dune/istl/owneroverlapcopy.hh>
#include <dune/istl/matrixmarket.hh>
using namespace Dune; using nat::Case; using nat::Rng; using C = std::complex<double>; using S = std::size_t;
static int RANK = 0, SIZE = 1; static MPI_Comm SUB[5];
static void own(Case& c) { c.rng = Rng(c.seed ^ (std::uint64_t(RANK)*0x517CC1B727220A95ull)); }
template<class K> K number(Rng& r) { int k = r.in(0,9); if constexpr (std::is_integral_v<K>) return K(k<6 ? r.in(-9,9) : k<9 ? r.in(-100000,100000) : K(r.next()));
  else if (k<1) return K(0); else if (k<4) return K(r.dyad()); else if (k<8) return K(r.in(-1000000,1000000)/K(r.in(1,9999))); else if (k<9) return K(std::ldexp(double(r.in(-99999,99999))/7, int(r.in(-90,90)))); else return K(r.in(-5,5)); }
template<class K> struct Num { using R = K; static constexpr bool cx = false; static K get(Rng& r) { return number<K>(r); } };
template<class K> struct Num<std::complex<K>> { using R = K; static constexpr bool cx = true; static std::complex<K> get(Rng& r) { K a = number<K>(r), b = r.chance(20) ? K(0) : number<K>(r); return {a,b}; } };
template<class B> struct Blk { using K = B; static constexpr int n = 1, m = 1; static K& at(B& b, int, int) { return b; } static const K& at(const B& b, int, int) { return b; } };
template<class F,int N_,int M_> struct Blk<FieldMatrix<F,N_,M_>> { using K = F; using B = FieldMatrix<F,N_,M_>; static constexpr int n = N_, m = M_; static K& at(B& b, int i, int j) { return b[i][j]; } static const K& at(const B& b, int i, int j) { return b[i][j]; } };
template<class F,int N_> struct Blk<FieldVector<F,N_>> { using K = F; using B = FieldVector<F,N_>; static constexpr int n = N_, m = 1; static K& at(B& b, int i, int) { return b[i]; } static const K& at(const B& b, int i, int) { return b[i]; } };
static std::vector<std::string> lines(const std::string& s) { std::vector<std::string> l; std::istringstream i(s); std::string x; while (std::getline(i,x)) l.push_back(x); return l; }
static std::vector<std::string> words(const std::string& s) { std::vector<std::string> l; std::istringstream i(s); std::string x; while (i >> x) l.push_back(x); return l; }
template<class R> R num(const std::string& s) { std::istringstream i(s); R v{}; i >> v; CHECK(!i.fail() && i.peek()==EOF, "not a number: ", s); return v; }
template<class K> K pair(const std::vector<std::string>& w, S o) { using R = typename Num<K>::R; if constexpr (Num<K>::cx) return K(num<R>(w.at(o)),num<R>(w.at(o+1))); else return num<R>(w.at(o)); }
template<class K> const char* kind() { return Num<K>::cx ? "complex" : std::is_integral_v<K> ? "integer" : "real"; }
template<class B> BCRSMatrix<B> randomMatrix(Case& c) { Rng& r = c.rng; S n = nat::randomSize(r,c.no), m = r.chance(60) ? n : nat::randomSize(r,c.no); auto p = nat::randomPattern(r,n,m); BCRSMatrix<B> A; nat::buildAny(r,A,p,m); c.desc << n << "x" << m << " " << nat::show(p); for (auto& row : A) for (auto& b : row) for (int i=0;i<Blk<B>::n;++i) for (int j=0;j<Blk<B>::m;++j) Blk<B>::at(b,i,j) = Num<typename Blk<B>::K>::get(r); return A; }
template<class B> void same(const BCRSMatrix<B>& A, const BCRSMatrix<B>& X) { CHECK(A.N()==X.N() && A.M()==X.M() && A.nonzeroes()==X.nonzeroes(), "shape ", X.N(), "x", X.M(), " with ", X.nonzeroes(), " blocks, expected ", A.N(), "x", A.M(), " with ", A.nonzeroes());
  for (S i=0;i<A.N();++i) { CHECK(A[i].size()==X[i].size(), "length of row ", i); auto x = X[i].begin(); for (auto a=A[i].begin(); a!=A[i].end(); ++a, ++x) { CHECK(a.index()==x.index(), "column ", x.index(), " in row ", i, " expected ", a.index()); for (int k=0;k<Blk<B>::n;++k) for (int l=0;l<Blk<B>::m;++l) CHECK(Blk<B>::at(*a,k,l)==Blk<B>::at(*x,k,l), "value in block (", i, ",", a.index(), ") ", Blk<B>::at(*x,k,l), " expected ", Blk<B>::at(*a,k,l)); } } }
// the text, parsed independently
template<class B> void wellformed(const BCRSMatrix<B>& A, const std::string& s) { using K = typename Blk<B>::K; constexpr int n = Blk<B>::n, m = Blk<B>::m; auto l = lines(s); S o = 0; CHECK(!l.empty() && words(l[0])==words(std::string("%%MatrixMarket matrix coordinate ")+kind<K>()+" general"), "banner ", l.empty() ? "" : l[0]);
  for (o=1; o<l.size() && l[o][0]=='%'; ++o) if (l[o].find("ISTL_STRUCT")!=std::string::npos) CHECK(words(l[o])==words("% ISTL_STRUCT blocked "+std::to_string(n)+" "+std::to_string(m)), "block structure: ", l[o]);
  S nnz = A.nonzeroes()*n*m; CHECK(o<l.size() && words(l[o])==words(std::to_string(A.N()*n)+" "+std::to_string(A.M()*m)+" "+std::to_string(nnz)), "size line: ", o<l.size() ? l[o] : ""); CHECK(l.size()==o+1+nnz, "number of lines ", l.size()-o-1, " expected ", nnz);
  std::set<std::pair<S,S>> seen; for (S k=o+1; k<l.size(); ++k) { auto w = words(l[k]); CHECK(w.size()==S(Num<K>::cx ? 4 : 3), "line ", l[k]); S i = num<S>(w[0]), j = num<S>(w[1]); CHECK(i>=1 && j>=1 && i<=A.N()*n && j<=A.M()*m, "indices in ", l[k]); CHECK(seen.emplace(i,j).second, "entry stated twice: ", l[k]); --i; --j; CHECK(A.exists(i/n,j/m), "entry not stored: ", l[k]); K v = pair<K>(w,2); CHECK(v==Blk<B>::at(A[i/n][j/m],i%n,j%m), "value in ", l[k]); } }
template<class B> void roundtrip(Case& c) { own(c); auto A = randomMatrix<B>(c); std::stringstream s; s.precision(17); if (c.rng.chance(40)) s.setf(std::ios::scientific,std::ios::floatfield); writeMatrixMarket(A,s); wellformed(A,s.str()); BCRSMatrix<B> X; if (c.rng.chance(30)) { auto p = nat::randomPattern(c.rng,3,2); nat::buildRowwise(X,p,2); }
  readMatrixMarket(X,s); same(A,X); CHECK(X.buildStage()==BCRSMatrix<B>::built, "stage"); }
template<class T> void vec(Case& c) { own(c); using K = typename Blk<T>::K; constexpr int b = Blk<T>::n; S n = nat::randomSize(c.rng,c.no); BlockVector<T> v(n), w; for (auto& x : v) for (int i=0;i<b;++i) Blk<T>::at(x,i,0) = Num<K>::get(c.rng); c.desc << "n=" << n; std::stringstream s; s.precision(17); if (c.rng.chance(40)) s.setf(std::ios::scientific,std::ios::floatfield); writeMatrixMarket(v,s); if (c.rng.chance(40)) w.resize(c.rng.in(0,4));
  auto l = lines(s.str()); S o = 0; CHECK(!l.empty() && words(l[0])==words(std::string("%%MatrixMarket matrix array ")+kind<K>()+" general"), "banner ", l.empty() ? "" : l[0]); for (o=1; o<l.size() && l[o][0]=='%'; ++o) ; CHECK(o<l.size() && words(l[o])==words(std::to_string(n*b)+" 1") && l.size()==o+1+n*b, "size line and number of lines ", l.size()); for (S k=0;k<n*b;++k) CHECK(num<K>(l[o+1+k])==Blk<T>::at(v[k/b],k%b,0), "line ", l[o+1+k]);
  readMatrixMarket(w,s); CHECK(w.size()==n, "size ", w.size()); for (S k=0;k<n*b;++k) CHECK(Blk<T>::at(w[k/b],k%b,0)==Blk<T>::at(v[k/b],k%b,0), "component ", k); }
void lanes(Case& c) { own(c); using L = LoopSIMD<double,4>; S n = nat::randomSize(c.rng,c.no); c.desc << "n=" << n; BlockVector<L> v(n), w; for (auto& x : v) for (int l=0;l<4;++l) Simd::lane(l,x) = number<double>(c.rng); std::stringstream s; s.precision(17); writeMatrixMarket(v,s); auto l = lines(s.str()); CHECK(words(l.at(0))==words("%%MatrixMarket matrix array real general"), l[0]); CHECK(words(l.at(l.size()-4*n-1))==words(std::to_string(n)+" 4"), "size line"); for (S k=0;k<4*n;++k) CHECK(num<double>(l[l.size()-4*n+k])==Simd::lane(k/n,v[k%n]), "line ", k);
  readMatrixMarket(w,s); CHECK(w.size()==n, "size"); for (S i=0;i<n;++i) for (int q=0;q<4;++q) CHECK(Simd::lane(q,w[i])==Simd::lane(q,v[i]), "lane ", q, " of ", i);
  if (n) { std::stringstream t("%%MatrixMarket matrix array real general\n" + std::to_string(n) + " " + std::to_string(c.rng.in(0,3)) + "\n1\n2\n"); bool threw = false; try { readMatrixMarket(w,t); } catch (Dune::Exception&) { threw = true; } CHECK(threw, "wrong number of lanes"); } }
// symmetric, skew-symmetric, hermitian and general files in any layout
static std::string any(Rng& r, std::string s) { for (auto& ch : s) if (r.chance(20)) ch = std::toupper(ch); return s; }
template<class K> std::string text(const K& v) { std::ostringstream s; s.precision(17); if constexpr (Num<K>::cx) s << v.real() << " " << v.imag(); else s << v; return s.str(); }
template<class B> void layouts(Case& c) { own(c); using K = typename Blk<B>::K; constexpr int n = Blk<B>::n, m = Blk<B>::m; Rng& r = c.rng; int st = n==m ? r.in(0,3) : 0; S nb = r.in(0,c.no<40?2:6), mb = st ? nb : r.in(0,c.no<40?2:6), N_ = nb*n, M_ = mb*m; int dens = r.in(0,100); std::map<std::pair<S,S>,K> want; std::vector<std::string> ent;
  for (S i=0;i<N_;++i) for (S j=0;j<(st ? i+1 : M_);++j) if (r.chance(dens) && !(st==2 && i==j)) { K v = Num<K>::get(r); if (st==3 && i==j) { if constexpr (Num<K>::cx) v = K(v.real(),0); } want[{i,j}] = v; bool up = st && r.chance(10); K w = v; if (st && i!=j) { K t = st==1 ? v : st==2 ? -v : v; if constexpr (Num<K>::cx) if (st==3) t = std::conj(v); want[{j,i}] = t; if (up) w = t; } std::ostringstream e; if (up) e << j+1 << " " << i+1; else e << i+1 << " " << j+1; if (r.chance(10)) e << "  "; if (r.chance(5)) e << "\n"; ent.push_back(e.str()+" "+text(w)); }
  for (S k=ent.size(); k>1; --k) std::swap(ent[k-1],ent[r.in(0,long(k)-1)]); std::ostringstream s; bool banner = st || Num<K>::cx || r.chance(80); const char* sn[] = {"general","symmetric","skew-symmetric","hermitian"};
  if (banner) s << (r.chance(10)?" ":"") << "%%MatrixMarket matrix " << any(r,"coordinate") << " " << any(r,kind<K>()) << " " << any(r,sn[st]) << "\n"; int k = r.in(0,2); for (int i=0;i<k;++i) s << "% any comment 1 2 3\n"; s << N_ << " " << M_ << " " << ent.size() << "\n"; for (auto& e : ent) s << (r.chance(5) ? "% remark\n" : "") << (r.chance(10) ? " " : "") << e << "\n"; c.desc << s.str().substr(0,300); c.sig = s.str();
  BCRSMatrix<B> A; std::istringstream in(s.str()); std::cerr.setstate(std::ios::failbit); readMatrixMarket(A,in); CHECK(A.N()==nb && A.M()==mb, "shape ", A.N(), "x", A.M()); S blocks = 0; for (S i=0;i<nb;++i) { S last = 0; for (auto b=A[i].begin(); b!=A[i].end(); ++b, ++blocks) { CHECK(b.index()<mb && (b==A[i].begin() || b.index()>last), "order of row ", i); last = b.index(); bool some = false; for (int p=0;p<n;++p) for (int q=0;q<m;++q) { auto f = want.find({i*n+p,b.index()*m+q}); K v = f==want.end() ? K(0) : f->second; some |= f!=want.end(); CHECK(Blk<B>::at(*b,p,q)==v, "entry (", i*n+p, ",", b.index()*m+q, ") = ", Blk<B>::at(*b,p,q), " expected ", v); } CHECK(some, "block (", i, ",", b.index(), ") has no entry in the file"); } }
  for (auto& e : want) CHECK(A.exists(e.first.first/n,e.first.second/m), "entry (", e.first.first, ",", e.first.second, ") is missing"); }
template<class F> void rejected(Case& c, const std::string& s, const char* what, F f) { c.desc << what << ": " << s.substr(0,300); c.sig = s; std::istringstream in(s); std::cerr.setstate(std::ios::failbit); bool threw = false; try { f(in); } catch (Dune::Exception&) { threw = true; } CHECK(threw, what, " was accepted"); }
// damaged files
template<class B> void damaged(Case& c) { own(c); using K = typename Blk<B>::K; constexpr int n = Blk<B>::n, m = Blk<B>::m; Rng& r = c.rng; S nb = r.in(1,4), mb = r.in(1,4); auto p = nat::randomPattern(r,nb,mb); if (p[0].empty()) p[0].push_back(r.in(0,mb-1)); BCRSMatrix<B> A; nat::buildAny(r,A,p,mb); for (auto& row : A) for (auto& b : row) for (int i=0;i<n;++i) for (int j=0;j<m;++j) Blk<B>::at(b,i,j) = Num<K>::get(r); std::stringstream s; s.precision(9); writeMatrixMarket(A,s); auto l = lines(s.str()); S h = 0; while (l[h][0]=='%') ++h; S nnz = l.size()-h-1, e = h+1+r.in(0,nnz-1);
  auto join = [&] { std::string t; for (auto& x : l) t += x + "\n"; return t; }; auto set = [&](S k, S w, std::string v) { auto x = words(l[k]); x.at(w) = v; l[k].clear(); for (auto& y : x) l[k] += y + " "; }; auto rd = [&](std::istream& in) { BCRSMatrix<B> X; readMatrixMarket(X,in); };
  switch (r.in(0,10)) {
  case 0: { std::string t = s.str(), last = l.back(); S cut = t.size()-last.size()-1; if (r.chance(50)) { S from = t.find(l[h],0)+l[h].size(); cut = r.in(from,cut); } else cut += last.rfind(' '); t.resize(cut); return rejected(c,t,"truncated file",rd); }
  case 1: set(e,0,r.chance(50) ? "0" : std::to_string(nb*n+r.in(1,99))); return rejected(c,join(),"row outside",rd);
  case 2: set(e,1,r.chance(50) ? "0" : std::to_string(mb*m+r.in(1,99))); return rejected(c,join(),"column outside",rd);
  case 3: set(e,r.in(0,Num<K>::cx ? 3 : 2),r.chance(50) ? "x" : "?1"); return rejected(c,join(),"no number",rd);
  case 4: set(h,2,std::to_string(nnz+r.in(1,5))); return rejected(c,join(),"too few entries",rd);
  case 5: if (n>1) { set(h,0,std::to_string(nb*n+r.in(1,n-1))); return rejected(c,join(),"rows do not fit to the blocks",rd); } if (m>1) { set(h,1,std::to_string(mb*m+r.in(1,m-1))); return rejected(c,join(),"columns do not fit to the blocks",rd); } return;
  case 6: if (nb*n!=mb*m) { set(0,4,r.chance(50) ? "symmetric" : r.chance(50) ? "hermitian" : "skew-symmetric"); return rejected(c,join(),"symmetric but not square",rd); } return;
  case 7: if (Num<K>::cx) set(0,3,r.chance(50) ? "real" : "integer"); else set(0,3,"complex"); return rejected(c,join(),"wrong type of numbers",rd);
  case 8: set(0,3,"pattern"); return rejected(c,join(),"pattern file",rd);
  case 9: l[h] = words(l[h])[0] + (r.chance(50) ? " " + words(l[h])[1] : "") + (r.chance(50) ? " x" : "\n"); l.resize(r.chance(50) ? h+1 : l.size()); if (words(l[h]).size()==2 && l[h].back()!='x' && l.size()>h+1) return; return rejected(c,join(),"incomplete size line",rd);
  default: set(0,2,"array"); return rejected(c,join(),"dense matrix file",rd); } }
template<class T> void damagedvec(Case& c) { own(c); constexpr int b = Blk<T>::n; using K = typename Blk<T>::K; Rng& r = c.rng; S n = r.in(1,5); BlockVector<T> v(n); for (auto& x : v) for (int i=0;i<b;++i) Blk<T>::at(x,i,0) = Num<K>::get(r); std::stringstream s; s.precision(9); writeMatrixMarket(v,s); auto l = lines(s.str()); S h = 0; while (l[h][0]=='%') ++h; auto join = [&] { std::string t; for (auto& x : l) t += x + "\n"; return t; }; auto rd = [&](std::istream& in) { BlockVector<T> X; readMatrixMarket(X,in); };
  switch (r.in(0,4)) {
  case 0: l.resize(h+1+r.in(0,n*b-1)); return rejected(c,join(),"truncated vector",rd);
  case 1: l[h+1+r.in(0,n*b-1)] = "abc"; return rejected(c,join(),"no number in the vector",rd);
  case 2: l[h] = std::to_string(n*b) + " " + std::to_string(r.in(2,4)); return rejected(c,join(),"several columns",rd);
  case 3: if (b>1) { l[h] = std::to_string(n*b-r.in(1,b-1)) + " 1"; return rejected(c,join(),"size does not fit to the blocks",rd); } return;
  default: l[0] = "%%MatrixMarket matrix coordinate real general"; return rejected(c,join(),"coordinate format",rd); } }
// arbitrary changes of single characters: an exception or a complete matrix, never a memory error or an endless loop
template<class B> void noise(Case& c) { own(c); Rng& r = c.rng; S nb = r.in(1,3), mb = r.in(1,3); auto p = nat::randomPattern(r,nb,mb); BCRSMatrix<B> A; nat::buildAny(r,A,p,mb); for (auto& row : A) for (auto& b : row) for (int i=0;i<Blk<B>::n;++i) for (int j=0;j<Blk<B>::m;++j) Blk<B>::at(b,i,j) = Num<typename Blk<B>::K>::get(r); std::stringstream s; s.precision(5); writeMatrixMarket(A,s); std::string t = s.str(); S from = 0; if (r.chance(70)) { auto l = lines(t); for (S k=0; l[k][0]=='%'; ++k) from += l[k].size()+1; from += r.chance(50) ? 0 : 6; } const char ch[] = "0123456789 -.e\n%x"; for (int k=r.in(1,4); k>0; --k) { S q = r.in(std::min(from,t.size()-1),t.size()-1); int what = r.in(0,2); char x = ch[r.in(0,sizeof(ch)-2)]; if (what==0) t[q] = x; else if (what==1) t.erase(q,1); else if (t.size()<4000) t.insert(q,1,x); if (t.empty()) t = "1"; }
  c.desc << t.substr(0,400); c.sig = t; std::cerr.setstate(std::ios::failbit); std::istringstream in(t); { std::istringstream d(t); std::string x; while (std::getline(d,x)) if (!x.empty() && x[0]!='%') { long a = 0, b = 0; std::istringstream e(x); e >> a >> b; std::string rest((std::istreambuf_iterator<char>(d)),{}); if (std::abs(a)>100000 || std::abs(b)>100000 || a<0 || b<0 || x.find_first_of("-.ex")!=std::string::npos || words(x).size()<3) return; break; } }
  BCRSMatrix<B> X; try { readMatrixMarket(X,in); } catch (Dune::Exception&) { return; } CHECK(X.buildStage()==BCRSMatrix<B>::built, "neither an exception nor a matrix"); S k = 0; for (auto& row : X) { long last = -1; for (auto b=row.begin(); b!=row.end(); ++b, ++k) { CHECK(long(b.index())>last && b.index()<X.M(), "columns"); last = b.index(); } } CHECK(k==X.nonzeroes(), "number of blocks"); }
// files, one per process, together with the index set
static std::string dir;
template<class B> void files(Case& c) { own(c); auto A = randomMatrix<B>(c); const char* names[] = {"/a","/b.mm","/c.mtx","/d.e"}; int k = c.rng.in(0,3); std::string f = dir + "/" + std::to_string(RANK) + "x"; f += names[k]+1; storeMatrixMarket(A,f,17); std::string real = k==0 ? f+".mm" : k==3 ? f+".mm" : f; std::ifstream in(real); CHECK(bool(in), "file ", real); std::string t((std::istreambuf_iterator<char>(in)),{}); wellformed(A,t); in.close();
  std::string from = f; if (k==0 && c.rng.chance(50)) { std::rename(real.c_str(),(f+".mtx").c_str()); real = f+".mtx"; } BCRSMatrix<B> X; loadMatrixMarket(X,from); same(A,X); ::unlink(real.c_str()); bool threw = false; try { loadMatrixMarket(X,f); } catch (Dune::IOError&) { threw = true; } CHECK(threw, "missing file"); threw = false; try { storeMatrixMarket(A,dir+"/none/x"); } catch (Dune::IOError&) { threw = true; } CHECK(threw, "file that cannot be written"); }
typedef OwnerOverlapCopyAttributeSet AS; typedef OwnerOverlapCopyCommunication<int,int> Com;
void parallel(Case& c) { int P = c.rng.in(1,std::min(4,SIZE)), G = c.rng.in(0,8); std::vector<std::vector<int>> att(P,std::vector<int>(G,0)), loc = att; std::vector<int> n(P,0); for (int g=0; g<G; ++g) { int o = c.rng.in(0,P-1); for (int p=0; p<P; ++p) att[p][g] = p==o ? 1 : c.rng.chance(50) ? c.rng.in(2,3) : 0; } for (int p=0; p<P; ++p) { for (int g=0; g<G; ++g) if (att[p][g]) loc[p][g] = n[p]++; int sh = c.rng.in(0,9); for (int g=0; g<G; ++g) if (att[p][g]) loc[p][g] = (loc[p][g]+sh)%n[p]; }
  bool pub = c.rng.chance(70), ext = c.rng.chance(40), idx = c.rng.chance(85), bad = c.rng.chance(25), isv = c.rng.chance(30); int what = c.rng.in(0,2), nb = c.rng.in(1,5), gap = c.rng.in(1,7); c.desc << "P=" << P << " G=" << G << " file=" << ext << " indices=" << idx << " damaged=" << (bad ? what : -1); for (int p=0;p<P;++p) { c.desc << " p" << p << ":"; for (int g=0;g<G;++g) c.desc << att[p][g]; } if (RANK>=P) return; std::uint64_t s0 = c.seed; 
  std::string f = dir + "/p" + (ext ? ".mtx" : ""); Com com(SUB[P]); com.indexSet().beginResize(); for (int g=0; g<G; ++g) if (att[RANK][g]) com.indexSet().add(g*gap, Com::ParallelIndexSet::LocalIndex(loc[RANK][g], AS::AttributeSet(att[RANK][g]), pub || (g+RANK)%2)); com.indexSet().endResize(); com.remoteIndices().rebuild<false>(); Rng r(s0+RANK); Case d(s0+RANK,c.no); (void)nb;
  auto A = randomMatrix<FieldMatrix<double,2,2>>(d); BlockVector<FieldVector<double,2>> v(d.rng.in(0,5)), w; for (auto& x : v) for (int i=0;i<2;++i) x[i] = number<double>(d.rng); if (isv) storeMatrixMarket(v,f,com,idx,17); else storeMatrixMarket(A,f,com,idx,17); MPI_Barrier(SUB[P]); std::string idxf = dir + "/p_" + std::to_string(RANK) + ".idx", mm = dir + "/p_" + std::to_string(RANK) + (ext ? ".mtx" : ".mm");
  CHECK((::access(idxf.c_str(),R_OK)==0)==idx, "index file"); Com neu(SUB[P]); BCRSMatrix<FieldMatrix<double,2,2>> X;
  if (idx && bad && n[RANK] && RANK==0) { std::ifstream in(idxf); std::string t((std::istreambuf_iterator<char>(in)),{}); in.close(); auto l = lines(t); std::ofstream o(idxf); if (what==0) o << "abc\n" << t; else if (what==1) { auto w_ = words(l[0]); o << w_[0] << " " << w_[1]; } else { auto w_ = words(l[0]); o << w_[0] << " " << w_[1] << " x " << w_[3] << "\n" << t; } o.close(); Com self(MPI_COMM_SELF); bool threw = false; try { if (isv) loadMatrixMarket(w,f,self,true); else loadMatrixMarket(X,f,self,true); } catch (Dune::Exception&) { threw = true; } CHECK(threw, "damaged index file was accepted"); std::ofstream again(idxf); again << t; }
  MPI_Barrier(SUB[P]); if (isv) { loadMatrixMarket(w,f,neu,idx); CHECK(w.size()==v.size(), "size of the vector"); for (S k=0;k<v.size();++k) CHECK(w[k]==v[k], "component ", k); } else { loadMatrixMarket(X,f,neu,idx); same(A,X); }
  if (idx) { CHECK(neu.indexSet().size()==com.indexSet().size(), "size of the index set ", neu.indexSet().size()); auto a = com.indexSet().begin(); for (auto b=neu.indexSet().begin(); b!=neu.indexSet().end(); ++b, ++a) CHECK(a->global()==b->global() && a->local().local()==b->local().local() && a->local().attribute()==b->local().attribute() && a->local().isPublic()==b->local().isPublic(), "index ", a->global());
    CHECK(neu.remoteIndices().neighbours()==com.remoteIndices().neighbours(), "neighbours ", neu.remoteIndices().neighbours()); auto q = com.remoteIndices().begin(); for (auto p=neu.remoteIndices().begin(); p!=neu.remoteIndices().end(); ++p, ++q) { CHECK(p->first==q->first, "neighbour ", p->first); std::vector<std::array<int,3>> x, y; for (auto& e : *p->second.first) x.push_back({int(e.localIndexPair().global()),int(e.attribute()),int(e.localIndexPair().local().local())}); for (auto& e : *q->second.first) y.push_back({int(e.localIndexPair().global()),int(e.attribute()),int(e.localIndexPair().local().local())}); CHECK(x==y, "remote indices of ", p->first); } }
  MPI_Barrier(SUB[P]); if (idx) ::unlink(idxf.c_str()); ::unlink(mm.c_str()); MPI_Barrier(SUB[P]); }
static void register_sections() {
  nat::section("matrix<double>", roundtrip<double>, 2); nat::section("matrix<float>", roundtrip<float>); nat::section("matrix<int>", roundtrip<int>); nat::section("matrix<complex>", roundtrip<C>); nat::section("matrix<2x3>", roundtrip<FieldMatrix<double,2,3>>, 2); nat::section("matrix<3x1>", roundtrip<FieldMatrix<double,3,1>>); nat::section("matrix<1x1>", roundtrip<FieldMatrix<double,1,1>>); nat::section("matrix<complex 2x2>", roundtrip<FieldMatrix<C,2,2>>);
  nat::section("vector<double>", vec<double>); nat::section("vector<int>", vec<int>); nat::section("vector<complex>", vec<C>); nat::section("vector<3>", vec<FieldVector<double,3>>); nat::section("vector<1>", vec<FieldVector<double,1>>); nat::section("vector<complex 2>", vec<FieldVector<C,2>>); nat::section("vector<4 lanes>", lanes);
  nat::section("layouts<double>", layouts<double>, 2); nat::section("layouts<int>", layouts<int>); nat::section("layouts<complex>", layouts<C>); nat::section("layouts<2x2>", layouts<FieldMatrix<double,2,2>>); nat::section("layouts<1x2>", layouts<FieldMatrix<double,1,2>>); nat::section("layouts<complex 2x2>", layouts<FieldMatrix<C,2,2>>);
  nat::section("damaged<double>", damaged<double>); nat::section("damaged<complex>", damaged<C>); nat::section("damaged<2x3>", damaged<FieldMatrix<double,2,3>>); nat::section("damaged vector<double>", damagedvec<double>); nat::section("damaged vector<3>", damagedvec<FieldVector<double,3>>); nat::section("noise<double>", noise<double>, 2); nat::section("noise<2x2>", noise<FieldMatrix<double,2,2>>);
  nat::section("files<double>", files<double>); nat::section("files<2x3>", files<FieldMatrix<double,2,3>>); nat::section("parallel files", parallel, 2); }
int main(int argc, char** argv) {
  if (!getenv("OMPI_COMM_WORLD_SIZE")) {
    setenv("OMPI_ALLOW_RUN_AS_ROOT","1",1); setenv("OMPI_ALLOW_RUN_AS_ROOT_CONFIRM","1",1); setenv("OMPI_MCA_btl","self,vader",1); setenv("OMPI_MCA_plm","isolated",1); setenv("OMPI_MCA_rmaps_base_oversubscribe","1",1); setenv("OMPI_MCA_hwloc_base_binding_policy","none",1); setenv("OMPI_MCA_mpi_yield_when_idle","1",1); setenv("OMPI_MCA_btl_vader_single_copy_mechanism","none",1);
    std::vector<char*> a; for (const char* s : {"mpirun","-np","4"}) a.push_back(const_cast<char*>(s)); for (int i=0; i<argc; ++i) a.push_back(argv[i]); a.push_back(nullptr); execvp("mpirun",a.data()); perror("mpirun"); return 3; }
  MPI_Init(&argc,&argv); MPI_Comm_rank(MPI_COMM_WORLD,&RANK); MPI_Comm_size(MPI_COMM_WORLD,&SIZE);
  for (int P=1; P<=4; ++P) MPI_Comm_split(MPI_COMM_WORLD, RANK<P ? 0 : 1, RANK, &SUB[P]);
  char buf[64] = "/tmp/vc19.XXXXXX"; if (RANK==0 && !mkdtemp(buf)) { perror("mkdtemp"); MPI_Abort(MPI_COMM_WORLD,3); } MPI_Bcast(buf,sizeof(buf),MPI_CHAR,0,MPI_COMM_WORLD); dir = buf;
  nat::hooks().rank = RANK;
  nat::hooks().clock = [](double t) { MPI_Barrier(MPI_COMM_WORLD); MPI_Bcast(&t,1,MPI_DOUBLE,0,MPI_COMM_WORLD); return t; };
  nat::hooks().abort = [] { usleep(100000*(RANK+1)); std::error_code e; std::filesystem::remove_all(dir,e); MPI_Abort(MPI_COMM_WORLD,1); };
  register_sections(); int r = nat::run(argc,argv); MPI_Finalize(); if (RANK==0) ::rmdir(dir.c_str()); return r; }
