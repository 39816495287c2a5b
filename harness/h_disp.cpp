// calls of atomic functions: the dispatch to the user's function, the transfer of its sparsity
// patterns, and the recording of a call
#include <cmath>
#include <complex>
#include <cstddef>
#include <cstring>
#include <deque>
#include <fstream>
#include <functional>
#include <iomanip>
#include <iostream>
#include <iterator>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <sstream>
#include <stack>
#include <string>
#include <thread>
#include <typeinfo>
#include <utility>
#include <valarray>
#include <vector>
#include <algorithm>
#define private public
#define protected public
#include "vb.hpp"
#include <cppad/cppad.hpp>
#include "sv.hpp"
using namespace CppAD; using namespace CppAD::local;
typedef VB Base; typedef AD<VB> A;

typedef CppAD::vector<VB> V; typedef CppAD::vector<A> AV; typedef CppAD::vector<bool> VBool; typedef CppAD::vector<size_t> VI; typedef CppAD::vector<ad_type_enum> VT;
typedef sparse_rc< CppAD::vector<size_t> > RC;
typedef atomic_four<VB> F4; typedef atomic_three<VB> F3; typedef atomic_base<VB> F2;
extern "C" {
// dispatch
void d_forward(const V& par, const VT& typ, size_t need_y, const VBool& sel_y, size_t low, size_t up, size_t atom, size_t call, const V& tx, V& ty)
{   sweep::call_atomic_forward<VB,VB>(par, typ, need_y, sel_y, low, up, atom, call, tx, ty); }
void d_reverse(const V& par, const VT& typ, const VBool& sel_x, size_t up, size_t atom, size_t call, const V& tx, const V& ty, V& px, const V& py)
{   sweep::call_atomic_reverse<VB,VB>(par, typ, sel_x, up, atom, call, tx, ty, px, py); }
void d_aforward(const AV& par, const VT& typ, size_t need_y, const VBool& sel_y, size_t low, size_t up, size_t atom, size_t call, const AV& tx, AV& ty)
{   sweep::call_atomic_forward<A,VB>(par, typ, need_y, sel_y, low, up, atom, call, tx, ty); }
void d_areverse(const AV& par, const VT& typ, const VBool& sel_x, size_t up, size_t atom, size_t call, const AV& tx, const AV& ty, AV& px, const AV& py)
{   sweep::call_atomic_reverse<A,VB>(par, typ, sel_x, up, atom, call, tx, ty, px, py); }
void d_for_jac(size_t atom, size_t call, bool dep, const V& par, const VT& typ, const VI& x, const VI& y, SV& var)
{   sweep::call_atomic_for_jac_sparsity<VB,VB,SV>(atom, call, dep, par, typ, x, y, var); }
void d_rev_jac(size_t atom, size_t call, bool dep, const V& par, const VT& typ, const VI& x, const VI& y, SV& var)
{   sweep::call_atomic_rev_jac_sparsity<VB,VB,SV>(atom, call, dep, par, typ, x, y, var); }
void d_for_hes(size_t atom, size_t call, const V& par, const VT& typ, const VI& x, const VI& y, size_t np1, size_t num_var, const SV& rj, SV& fs)
{   sweep::call_atomic_for_hes_sparsity<VB,VB,SV>(atom, call, par, typ, x, y, np1, num_var, rj, fs); }
void d_rev_hes(size_t atom, size_t call, const V& par, const VT& typ, const VI& x, const VI& y, const SV& fj, bool* rj, SV& rh)
{   sweep::call_atomic_rev_hes_sparsity<VB,VB,SV>(atom, call, par, typ, x, y, fj, rj, rh); }
void d_rev_depend(size_t atom, size_t call, const V& par, const VT& typ, VBool& dx, const VBool& dy)
{   sweep::call_atomic_rev_depend<VB,VB>(atom, call, par, typ, dx, dy); }
// position of the virtual functions
bool v_4_forward(F4& f, const VBool& s, const V& tx, V& ty){ return f.forward(1, s, 2, 3, tx, ty); }
bool v_4_aforward(F4& f, const VBool& s, const AV& tx, AV& ty){ return f.forward(1, s, 2, 3, tx, ty); }
bool v_4_reverse(F4& f, const VBool& s, const V& tx, const V& ty, V& px, const V& py){ return f.reverse(1, s, 3, tx, ty, px, py); }
bool v_4_areverse(F4& f, const VBool& s, const AV& tx, const AV& ty, AV& px, const AV& py){ return f.reverse(1, s, 3, tx, ty, px, py); }
bool v_4_for_type(F4& f, const VT& x, VT& y){ return f.for_type(1, x, y); }
bool v_4_jac(F4& f, const VBool& z, const VBool& x, const VBool& y, RC& p){ return f.jac_sparsity(1, true, z, x, y, p); }
bool v_4_jac_old(F4& f, const VBool& x, const VBool& y, RC& p){ return f.jac_sparsity(1, true, x, y, p); }
bool v_4_hes(F4& f, const VBool& z, const VBool& x, const VBool& y, RC& p){ return f.hes_sparsity(1, z, x, y, p); }
bool v_4_hes_old(F4& f, const VBool& x, const VBool& y, RC& p){ return f.hes_sparsity(1, x, y, p); }
bool v_4_rev_depend(F4& f, const VBool& z, VBool& x, const VBool& y){ return f.rev_depend(1, z, x, y); }
bool v_4_rev_depend_old(F4& f, VBool& x, const VBool& y){ return f.rev_depend(1, x, y); }
bool v_3_forward(F3& f, const V& p, const VT& t, const V& tx, V& ty){ return f.forward(p, t, 1, 2, 3, tx, ty); }
bool v_3_aforward(F3& f, const AV& p, const VT& t, const AV& tx, AV& ty){ return f.forward(p, t, 1, 2, 3, tx, ty); }
bool v_3_reverse(F3& f, const V& p, const VT& t, const V& tx, const V& ty, V& px, const V& py){ return f.reverse(p, t, 3, tx, ty, px, py); }
bool v_3_areverse(F3& f, const AV& p, const VT& t, const AV& tx, const AV& ty, AV& px, const AV& py){ return f.reverse(p, t, 3, tx, ty, px, py); }
bool v_3_for_type(F3& f, const V& p, const VT& x, VT& y){ return f.for_type(p, x, y); }
bool v_3_jac(F3& f, const V& p, const VT& t, const VBool& x, const VBool& y, RC& r){ return f.jac_sparsity(p, t, true, x, y, r); }
bool v_3_hes(F3& f, const V& p, const VT& t, const VBool& x, const VBool& y, RC& r){ return f.hes_sparsity(p, t, x, y, r); }
bool v_3_rev_depend(F3& f, const V& p, const VT& t, VBool& x, const VBool& y){ return f.rev_depend(p, t, x, y); }
void v_2_set_old(F2& f){ f.set_old(1); }
bool v_2_reverse(F2& f, const V& tx, const V& ty, V& px, const V& py){ return f.reverse(3, tx, ty, px, py); }
bool v_2_areverse(F2& f, const AV& tx, const AV& ty, AV& px, const AV& py){ return f.reverse(3, tx, ty, px, py); }
// transfer of sparsity patterns
bool t_4_for_jac(F4& f, size_t call, bool dep, const VBool& z, const VI& x, const VI& y, SV& var){ return f.for_jac_sparsity(call, dep, z, x, y, var); }
bool t_4_rev_jac(F4& f, size_t call, bool dep, const VBool& z, const VI& x, const VI& y, SV& var){ return f.rev_jac_sparsity(call, dep, z, x, y, var); }
bool t_4_for_hes(F4& f, size_t call, const VBool& z, const VI& x, const VI& y, size_t np1, size_t nv, const SV& rj, SV& fs){ return f.for_hes_sparsity(call, z, x, y, np1, nv, rj, fs); }
bool t_4_rev_hes(F4& f, size_t call, const VBool& z, const VI& x, const VI& y, const SV& fj, bool* rj, SV& rh){ return f.rev_hes_sparsity(call, z, x, y, fj, rj, rh); }
bool t_3_for_jac(F3& f, bool dep, const V& p, const VT& t, const VI& x, const VI& y, SV& var){ return f.for_jac_sparsity(dep, p, t, x, y, var); }
bool t_3_rev_jac(F3& f, bool dep, const V& p, const VT& t, const VI& x, const VI& y, SV& var){ return f.rev_jac_sparsity(dep, p, t, x, y, var); }
bool t_3_for_hes(F3& f, const V& p, const VT& t, const VI& x, const VI& y, size_t np1, size_t nv, const SV& rj, SV& fs){ return f.for_hes_sparsity(p, t, x, y, np1, nv, rj, fs); }
bool t_3_rev_hes(F3& f, const V& p, const VT& t, const VI& x, const VI& y, const SV& fj, bool* rj, SV& rh){ return f.rev_hes_sparsity(p, t, x, y, fj, rj, rh); }
// recording of a call
void c_4(F4& f, size_t call, const AV& ax, AV& ay){ f(call, ax, ay); }
void c_4_default(F4& f, const AV& ax, AV& ay){ f(ax, ay); }
void c_3(F3& f, const AV& ax, AV& ay){ f(ax, ay); }
void p_var(recorder<VB>& r, tape_id_t id, size_t atom, size_t call, const VT& tx, const VT& ty, const AV& ax, AV& ay){ r.put_var_atomic(id, atom, call, tx, ty, ax, ay); }
void p_dyn(recorder<VB>& r, tape_id_t id, size_t atom, size_t call, const VT& tx, const VT& ty, const AV& ax, AV& ay){ r.put_dyn_atomic(id, atom, call, tx, ty, ax, ay); }
// positions of the members and values of the constants
void* o_value(A& a){ return &a.value_; } void* o_tape_id(A& a){ return &a.tape_id_; } void* o_taddr(A& a){ return &a.taddr_; } void* o_ad_type(A& a){ return &a.ad_type_; }
size_t k_sizeof_AD(){ return sizeof(A); }
void* o_rec(ADTape<VB>& t){ return &t.Rec_; } void* o_index4(F4& f){ return &f.index_; } void* o_index3(F3& f){ return &f.index_; } void* o_dyn_par_arg(dyn_recorder<VB>& r){ return &r.dyn_par_arg_; }
int k_zero(){ return identical_zero_enum; } int k_constant(){ return constant_enum; } int k_dynamic(){ return dynamic_enum; } int k_variable(){ return variable_enum; }
int k_AFunOp(){ return AFunOp; } int k_FunapOp(){ return FunapOp; } int k_FunavOp(){ return FunavOp; } int k_FunrpOp(){ return FunrpOp; } int k_FunrvOp(){ return FunrvOp; }
int k_atom_dyn(){ return atom_dyn; } int k_result_dyn(){ return result_dyn; }
}
