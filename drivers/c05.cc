#include <config.h>
#include <complex>
#include <dune/common/fvector.hh>
#include <dune/istl/bvector.hh>
#include <dune/istl/vbvector.hh>
#include <dune/istl/multitypeblockvector.hh>
#include "layout.hh"
using namespace Dune;
#if VARIANT==0
typedef double K; typedef BlockVector<double> V;
#elif VARIANT==1
typedef std::complex<double> K; typedef BlockVector<K> V;
#elif VARIANT==2
typedef double K; typedef BlockVector<FieldVector<double,3>> V;
#elif VARIANT==3
typedef std::complex<double> K; typedef BlockVector<FieldVector<K,2>> V;
#elif VARIANT==4
typedef double K; typedef VariableBlockVector<FieldVector<double,2>> V;
#elif VARIANT==7
typedef std::complex<double> K; typedef VariableBlockVector<FieldVector<K,1>> V;
#elif VARIANT==5 || VARIANT==6
#if VARIANT==5
typedef double K;
#else
typedef std::complex<double> K;
#endif
typedef BlockVector<K> V0; typedef BlockVector<FieldVector<K,2>> V1; typedef MultiTypeBlockVector<V0,V1> V;
LAY_VEC(V0)
extern "C" unsigned long c_off0(const V& x) { return (const char*)&std::get<0>(x)-(const char*)&x; }
extern "C" unsigned long c_off1(const V& x) { return (const char*)&std::get<1>(x)-(const char*)&x; }
LAYSIZE(mt_size, V)
#endif
#if VARIANT<5 || VARIANT==7
LAY_VEC(V)
#endif
extern "C" {
void c_assign(V& x, const K& a) { x = a; }
void c_iadd(V& x, const V& y) { x += y; }
void c_isub(V& x, const V& y) { x -= y; }
void c_imul(V& x, const K& a) { x *= a; }
void c_idiv(V& x, const K& a) { x /= a; }
void c_axpy(V& x, const K& a, const V& y) { x.axpy(a, y); }
void c_tdot(const V& x, const V& y, K& r) { r = x * y; }
void c_dot(const V& x, const V& y, K& r) { r = x.dot(y); }
void c_one(const V& x, double& r) { r = x.one_norm(); }
void c_oner(const V& x, double& r) { r = x.one_norm_real(); }
void c_two(const V& x, double& r) { r = x.two_norm(); }
void c_two2(const V& x, double& r) { r = x.two_norm2(); }
void c_inf(const V& x, double& r) { r = x.infinity_norm(); }
void c_infr(const V& x, double& r) { r = x.infinity_norm_real(); }
void c_dim(const V& x, unsigned long& r) { r = x.dim(); }
}
