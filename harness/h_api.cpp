// interface routines of ADFun: every sweep is opaque
#include <vector>
#include <set>
#include <map>
#include <list>
#include <string>
#include <sstream>
#include <iostream>
#include <fstream>
#include <cmath>
#include <complex>
#include <algorithm>
#include <limits>
#include <typeinfo>
#include <thread>
#include <mutex>
#include <functional>
#include <random>
#include <type_traits>
#define private public
#define protected public
#include "vb.hpp"
#include <cppad/cppad.hpp>
using namespace CppAD;
// simple vector whose storage is visible
template <class T> struct Vec {
    T* d; size_t n;
    typedef T value_type;
    Vec(); Vec(size_t k); Vec(const Vec& v); ~Vec();
    Vec& operator=(const Vec& v);
    void resize(size_t k);
    size_t size() const { return n; }
    T& operator[](size_t i) { return d[i]; }
    const T& operator[](size_t i) const { return d[i]; }
};
typedef Vec<VB> V; typedef ADFun<VB,VB> F; typedef Vec<size_t> S;
extern "C" {
void i_forward(F& f, size_t q, const V& xq, std::ostream& s, V& out) { new(&out) V(f.Forward(q, xq, s)); }
void i_forward_dir(F& f, size_t q, size_t r, const V& xq, V& out) { new(&out) V(f.Forward(q, r, xq)); }
void i_reverse(F& f, size_t q, const V& w, V& out) { new(&out) V(f.Reverse(q, w)); }
void i_capacity(F& f, size_t c, size_t r) { f.capacity_order(c, r); }
void i_capacity1(F& f, size_t c) { f.capacity_order(c); }
void i_new_dynamic(F& f, const V& dyn) { f.new_dynamic(dyn); }
void i_jac_for(F& f, const V& x, V& jac) { JacobianFor(f, x, jac); }
void i_jac_rev(F& f, const V& x, V& jac) { JacobianRev(f, x, jac); }
void i_jacobian(F& f, const V& x, V& out) { new(&out) V(f.Jacobian(x)); }
void i_hessian_w(F& f, const V& x, const V& w, V& out) { new(&out) V(f.Hessian(x, w)); }
void i_hessian_l(F& f, const V& x, size_t l, V& out) { new(&out) V(f.Hessian(x, l)); }
void i_for_one(F& f, const V& x, size_t j, V& out) { new(&out) V(f.ForOne(x, j)); }
void i_rev_one(F& f, const V& x, size_t i, V& out) { new(&out) V(f.RevOne(x, i)); }
void i_for_two(F& f, const V& x, const S& j, const S& k, V& out) { new(&out) V(f.ForTwo(x, j, k)); }
void i_rev_two(F& f, const V& x, const S& i, const S& j, V& out) { new(&out) V(f.RevTwo(x, i, j)); }
// positions of the members
void* o_taylor(F& f) { return f.taylor_.data(); }
size_t o_ind(F& f) { return f.ind_taddr_.size(); }
size_t o_dep(F& f) { return f.dep_taddr_.size(); }
void* o_indd(F& f) { return f.ind_taddr_.data(); }
void* o_depd(F& f) { return f.dep_taddr_.data(); }
size_t o_nvar(F& f) { return f.num_var_tape_; }
size_t o_cap(F& f) { return f.cap_order_taylor_; }
size_t o_nord(F& f) { return f.num_order_taylor_; }
size_t o_ndir(F& f) { return f.num_direction_taylor_; }
void* o_cskip(F& f) { return f.cskip_op_.data(); }
size_t o_cc(F& f) { return f.compare_change_count_; }
size_t o_cn(F& f) { return f.compare_change_number_; }
size_t o_ci(F& f) { return f.compare_change_op_index_; }
char o_play(F& f) { return *(char*)&f.play_; }
char o_load2var(F& f) { return *(char*)&f.load_op2var_; }
bool* o_deppar(F& f) { return f.dep_parameter_.data(); }
}
