// C19: writing and reading matrix market files. VC-EXTERN-STD
// VC-OPAQUE: _ZN4Dune16MatrixMarketImpl22readMatrixMarketBannerERSiRNS0_8MMHeaderE _ZN4Dune16MatrixMarketImpl12skipCommentsERSi _ZN4Dune16MatrixMarketImpl8lineFeedERSi _ZStlsIdcSt11char_traitsIcEERSt13basic_ostreamIT0_T1_ES6_RKSt7complexIT_E _ZStrsIdcSt11char_traitsIcEERSt13basic_istreamIT0_T1_ES6_RSt7complexIT_E
#include <config.h>
#include <complex>
#include <iostream>
#include <dune/common/fmatrix.hh>
#include <dune/istl/bcrsmatrix.hh>
#include <dune/istl/bvector.hh>
#include <dune/istl/matrixmarket.hh>
#include "layout.hh"
using namespace Dune;
#if VARIANT==0
using B = double; using VB = double;
#elif VARIANT==1
using B = std::complex<double>; using VB = std::complex<double>;
#else
using B = FieldMatrix<double,2,3>; using VB = FieldVector<double,2>;
#endif
using M = BCRSMatrix<B>; using V = BlockVector<VB>;
extern "C" void c_writemat(const M& A, std::ostream& o) { writeMatrixMarket(A, o); }
extern "C" void c_writevec(const V& v, std::ostream& o) { writeMatrixMarket(v, o); }
extern "C" void c_readvec(V& v, std::istream& i) { readMatrixMarket(v, i); }
LAY_BCRS(M)
LAY_VECS(V)
