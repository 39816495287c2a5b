#include <cmath>
#include <complex>
#include <cstddef>
#include <cstring>
#include <deque>
#include <fstream>
#include <functional>
#include <iomanip>
#include <iostream>
#include <iterator>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <sstream>
#include <stack>
#include <string>
#include <thread>
#include <typeinfo>
#include <utility>
#include <valarray>
#include <vector>
#include <algorithm>
#define private public
#define protected public
#include "vb.hpp"
#include <cppad/cppad.hpp>
using namespace CppAD;
typedef AD<VB> A;
extern "C" {
// operand kinds: 0 constant, 1 dynamic, 2 variable, 3 variable of another recording, 4 dynamic of another
int h_k0(); int h_k1(); int h_k2(); int h_k3();
VPURE VB h_v0(); VPURE VB h_v1(); VPURE VB h_v2(); VPURE VB h_v3();
VPURE addr_t h_t0(); VPURE addr_t h_t1(); VPURE addr_t h_t2(); VPURE addr_t h_t3();
extern char h_tape_obj;
void h_out(VB value, unsigned tape_id, addr_t taddr, int ad_type, int operand);
void h_bool(int);
local::ADTape<VB>* h_tape() {
    local::ADTape<VB>* p = reinterpret_cast<local::ADTape<VB>*>(&h_tape_obj); __builtin_assume(p->id_ == 7); return p; }
}
static inline __attribute__((always_inline)) void mk(A& x, int k, VB v, addr_t t)
{   x.value_ = v; x.taddr_ = t;
    x.tape_id_ = (k == 0) ? 0 : (k <= 2 ? 7 : 5);
    x.ad_type_ = (k == 0) ? constant_enum : ((k == 1 || k == 4) ? dynamic_enum : variable_enum); }
#define X0 A x; mk(x, h_k0(), h_v0(), h_t0());
#define X1 A y; mk(y, h_k1(), h_v1(), h_t1());
static inline __attribute__((always_inline)) void out(const A& z, int o=-1) { h_out(z.value_, unsigned(z.tape_id_), z.taddr_, int(z.ad_type_), o); }
extern "C" {
#define BIN(n,op,opeq) \
  void r_##n(){ X0 X1 A z = x op y; out(z); out(x,0); out(y,1); } \
  void r_##n##_self(){ X0 A z = x op x; out(z); } \
  void r_##n##_eq(){ X0 X1 x opeq y; out(x); out(y,1); } \
  void r_##n##_eq_self(){ X0 x opeq x; out(x); } \
  void r_##n##_base(){ X0 A z = x op h_v1(); out(z); } \
  void r_base_##n(){ X1 A z = h_v0() op y; out(z); } \
  void r_##n##_eq_base(){ X0 x opeq h_v1(); out(x); }
BIN(add,+,+=) BIN(sub,-,-=) BIN(mul,*,*=) BIN(div,/,/=)
void r_pow(){ X0 X1 A z = pow(x, y); out(z); out(x,0); out(y,1); }
void r_pow_base(){ X0 A z = pow(x, h_v1()); out(z); }
void r_base_pow(){ X1 A z = pow(h_v0(), y); out(z); }
void r_azmul(){ X0 X1 A z = azmul(x, y); out(z); out(x,0); out(y,1); }
void r_azmul_base(){ X0 A z = azmul(x, h_v1()); out(z); }
void r_base_azmul(){ X1 A z = azmul(h_v0(), y); out(z); }
void r_neg(){ X0 A z = -x; out(z); out(x,0); }
void r_plus(){ X0 A z = +x; out(z); out(x,0); }
#define UN(f) void r_##f(){ X0 A z = f(x); out(z); out(x,0); }
UN(abs) UN(fabs) UN(acos) UN(acosh) UN(asin) UN(asinh) UN(atan) UN(atanh) UN(cos) UN(cosh) UN(erf) UN(erfc) UN(exp) UN(expm1) UN(log) UN(log10) UN(log1p) UN(sign) UN(sin) UN(sinh) UN(sqrt) UN(tan) UN(tanh)
void r_assign(){ X0 X1 y = x; out(y); }
void r_copy(){ X0 A z(x); out(z); }
void r_assign_base(){ X0 x = h_v1(); out(x); }
#define CMP(n,op) void r_##n(){ X0 X1 h_bool(x op y); out(x,0); out(y,1); } \
   void r_##n##_base(){ X0 h_bool(x op h_v1()); } void r_base_##n(){ X1 h_bool(h_v0() op y); }
CMP(lt,<) CMP(le,<=) CMP(gt,>) CMP(ge,>=) CMP(eq,==) CMP(ne,!=)
#define CEX(n) void r_CondExp##n(){ A a,b,c,d; mk(a,h_k0(),h_v0(),h_t0()); mk(b,h_k1(),h_v1(),h_t1()); mk(c,h_k2(),h_v2(),h_t2()); mk(d,h_k3(),h_v3(),h_t3()); \
   A z = CondExp##n(a,b,c,d); out(z); }
CEX(Lt) CEX(Le) CEX(Eq) CEX(Ge) CEX(Gt)
void h_enum(int, int, int);
void r_enum(){ h_enum(int(constant_enum), int(dynamic_enum), int(variable_enum)); }
}
