// VecAD vectors: recording of element accesses, and the operators in the sweeps
#include <cmath>
#include <complex>
#include <cstddef>
#include <cstring>
#include <deque>
#include <fstream>
#include <functional>
#include <iomanip>
#include <iostream>
#include <iterator>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <new>
#include <set>
#include <sstream>
#include <stack>
#include <string>
#include <thread>
#include <typeinfo>
#include <utility>
#include <valarray>
#include <vector>
#include <algorithm>
#define private public
#define protected public
#include "h_sweep.cpp"
typedef AD<VB> A; typedef VecAD<VB> W; typedef VecAD_reference<VB> R;
extern "C" {
// recording
void r_index(W& v, const A& ind, void* out){ new(out) R(v[ind]); }
void r_load(const R& r, A& res){ res = r.ADBase(); }
void r_store(R& r, const A& right){ r = right; }
void s_store_base(R& r, const VB& right){ r = right; }
void s_store_int(R& r, int right){ r = right; }
void s_store_ref(R& r, const R& right){ r = right; }
void r_ctor(void* p, size_t n){ new(p) W(n); }
const VB* r_elem(W& v, size_t i){ return &v[i]; }
size_t r_size(W& v){ return v.size(); }
#define FOLD(nm,op) \
void f_##nm##_ra(const R& x, const A& y, A& z){ z = x op y; } void f_##nm##_ar(const A& x, const R& y, A& z){ z = x op y; } void f_##nm##_rr(const R& x, const R& y, A& z){ z = x op y; } \
void f_##nm##_rb(const R& x, const VB& y, A& z){ z = x op y; } void f_##nm##_br(const VB& x, const R& y, A& z){ z = x op y; }
FOLD(add,+) FOLD(sub,-) FOLD(mul,*) FOLD(div,/)
#define FOLDC(nm,op) \
bool f_##nm##_ra(const R& x, const A& y){ return x op y; } bool f_##nm##_ar(const A& x, const R& y){ return x op y; } bool f_##nm##_rr(const R& x, const R& y){ return x op y; } \
bool f_##nm##_rb(const R& x, const VB& y){ return x op y; } bool f_##nm##_br(const VB& x, const R& y){ return x op y; }
FOLDC(lt,<) FOLDC(le,<=) FOLDC(gt,>) FOLDC(ge,>=) FOLDC(eq,==) FOLDC(ne,!=)
addr_t q_vecad(recorder<VB>& r, size_t n, const pod_vector<addr_t>& t){ return r.put_var_vecad(n, t); }
addr_t q_ldp(recorder<VB>& r){ return r.PutLoadOp(LdpOp); }
addr_t q_ldv(recorder<VB>& r){ return r.PutLoadOp(LdvOp); }
// sweeps with fixed orders
#define FA(p,q,J) void w_any_##p##_##q(const player<Base>* play, size_t num_var, Base* taylor, bool* cskip, pod_vector<addr_t>& load_op2var, size_t& cn, size_t& coi, std::ostream& os) \
{   sweep::forward_any<Base,RecBase>(VB(0.), play, num_var, J, cskip, load_op2var, 0, cn, coi, os, false, p, q, taylor); }
FA(0,0,1) FA(0,1,2) FA(0,2,4) FA(1,1,3) FA(1,3,4) FA(2,3,5)
void w_zero(const player<Base>* play, size_t num_var, Base* taylor, bool* cskip, pod_vector<addr_t>& load_op2var, size_t& cn, size_t& coi, std::ostream& os)
{   sweep::forward_0<Base,RecBase>(VB(0.), play, num_var, 3, cskip, load_op2var, 0, cn, coi, os, false, taylor); }
#define FD(q,r,J) void w_dir_##q##_##r(const player<Base>* play, size_t num_var, Base* taylor, const bool* cskip, const pod_vector<addr_t>& load_op2var) \
{   sweep::forward_dir<Base,RecBase>(VB(0.), play, num_var, J, cskip, load_op2var, q, r, taylor); }
FD(1,1,2) FD(1,3,4) FD(2,2,3) FD(3,2,5)
#define RV(K,J) void w_rev_##K(const player<Base>* play, size_t num_var, Base* partial, bool* cskip, const pod_vector<addr_t>& load_op2var, HItr& itr, const Base* taylor) \
{   sweep::reverse<Base,HItr,RecBase>(num_var, play, J, taylor, K, partial, cskip, load_op2var, itr, VB(0.)); }
RV(1,1) RV(2,4) RV(3,3)
// positions of the members
void* o_r_vec(R& r){ return &r.vec_; } void* o_r_ind(R& r){ return &r.ind_; }
void* o_v_length(W& v){ return (void*)&v.length_; } void* o_v_data(W& v){ return &v.data_; } void* o_v_taddr(W& v){ return &v.taddr_; } void* o_v_tape_id(W& v){ return &v.tape_id_; } void* o_v_offset(W& v){ return &v.offset_; } void* o_v_ad_type(W& v){ return &v.ad_type_; }
void* o_a_value(A& a){ return &a.value_; } void* o_a_tape_id(A& a){ return &a.tape_id_; } void* o_a_taddr(A& a){ return &a.taddr_; } void* o_a_ad_type(A& a){ return &a.ad_type_; }
void* o_t_id(ADTape<VB>& t){ return &t.id_; } void* o_t_rec(ADTape<VB>& t){ return &t.Rec_; }
void* o_q_ind(recorder<VB>& r){ return &r.var_vecad_ind_; } void* o_q_nload(recorder<VB>& r){ return &r.num_var_load_; } void* o_q_nvar(recorder<VB>& r){ return &r.num_var_; } void* o_q_op(recorder<VB>& r){ return &r.var_op_; }
int k_constant(){ return constant_enum; } int k_dynamic(){ return dynamic_enum; } int k_variable(){ return variable_enum; }
int k_addvv(){ return AddvvOp; } int k_subvv(){ return SubvvOp; } int k_mulvv(){ return MulvvOp; } int k_divvv(){ return DivvvOp; }
int k_LdpOp(){ return LdpOp; } int k_LdvOp(){ return LdvOp; } int k_StppOp(){ return StppOp; } int k_StpvOp(){ return StpvOp; } int k_StvpOp(){ return StvpOp; } int k_StvvOp(){ return StvvOp; }
}
