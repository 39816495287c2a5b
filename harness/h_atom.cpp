// calls of atomic functions inside a recording: the operators of one call, the dispatch to the
// user's function, the transfer of its sparsity patterns, and the recording of a call
#include <cmath>
#include <complex>
#include <cstddef>
#include <cstring>
#include <deque>
#include <fstream>
#include <functional>
#include <iomanip>
#include <iostream>
#include <iterator>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <sstream>
#include <stack>
#include <string>
#include <thread>
#include <typeinfo>
#include <utility>
#include <valarray>
#include <vector>
#include <algorithm>
#define private public
#define protected public
#include "vb.hpp"
#include <cppad/cppad.hpp>
#include "sv.hpp"
using namespace CppAD; using namespace CppAD::local;
typedef VB Base; typedef AD<VB> A;
extern "C" {
// sample: number of arguments, of results, kinds (bit set: variable), orders, directions
size_t h_n(); size_t h_m(); unsigned h_xmask(); unsigned h_ymask(); 
size_t h_low(); size_t h_up(); size_t h_cap(); size_t h_dir(); size_t h_dup(); size_t h_nnz(); int h_dep();
VPURE size_t h_atom(); VPURE size_t h_call();
}
// address of argument j: variable 11+j (with h_dup the last one is the first again), parameter 41+j
#define XA(j) ((h_xmask() >> (j)) & 1 ? addr_t(11 + ((h_dup() && (j)+1==h_n()) ? 0 : (j))) : addr_t(41 + (j)))
#define YA(i) (addr_t(61 + (i)))
#define YV(i) (size_t(21 + (i)))
struct Pos { size_t k; };
extern "C" {
static inline __attribute__((always_inline)) void info(size_t k, op_code_var& op, const addr_t*& arg, size_t& i_var)
{   static const addr_t none = 0;
    static thread_local addr_t cell[64];
    i_var = 7; arg = cell + 4*k;
    if( k == 0 || k > h_n() + h_m() ) { op = AFunOp; return; }
    if( k <= h_n() ) { size_t j = k - 1; op = (h_xmask() >> j) & 1 ? FunavOp : FunapOp; cell[4*k] = XA(j); return; }
    size_t i = k - 1 - h_n();
    if( (h_ymask() >> i) & 1 ) { op = FunrvOp; i_var = YV(i); } else { op = FunrpOp; cell[4*k] = YA(i); }
}
void h_op_info(void* p, op_code_var& op, const addr_t*& arg, size_t& i_var) { info(((Pos*)p)->k, op, arg, i_var); }
void* h_inc(void* p) { ++((Pos*)p)->k; return p; }
void* h_dec(void* p) { --((Pos*)p)->k; return p; }
size_t h_opindex(void* p) { return ((Pos*)p)->k; }
void h_atom_info(op_code_var op, const addr_t* arg, size_t& ai, size_t& ci, size_t& m, size_t& n)
{   ai = h_atom(); ci = h_call(); m = h_m(); n = h_n(); }
void h_end(size_t k);
}
struct HItr { size_t k;
    void op_info(op_code_var& op, const addr_t*& arg, size_t& i_var) const { info(k, op, arg, i_var); }
    HItr& operator++() { ++k; return *this; } HItr& operator--() { --k; return *this; } size_t op_index() const { return k; } };
#define SEQ alignas(play::const_sequential_iterator) char buf[sizeof(play::const_sequential_iterator)]; \
    play::const_sequential_iterator& itr = *reinterpret_cast<play::const_sequential_iterator*>(buf); ((Pos*)buf)->k
#define LAST (h_n() + h_m() + 1)
extern "C" {
void a_forward(var_op::atomic_op_work<Base>& work, const player<Base>* play, const Base* parameter, Base* taylor)
{   SEQ = 0; var_op::atomic_forward_any<Base,Base>(itr, play, parameter, false, work, h_cap(), h_low(), h_up(), taylor); h_end(((Pos*)buf)->k); }
void a_forward_dir(var_op::atomic_op_work<Base>& work, const player<Base>* play, const Base* parameter, Base* taylor)
{   SEQ = 0; var_op::atomic_forward_dir<Base,Base>(itr, play, parameter, false, work, h_cap(), h_up(), h_dir(), taylor); h_end(((Pos*)buf)->k); }
void a_reverse(var_op::atomic_op_work<Base>& work, const player<Base>* play, const Base* parameter, const Base* taylor, Base* partial)
{   HItr itr; itr.k = LAST; var_op::atomic_reverse<Base,Base,HItr>(itr, play, parameter, false, work, h_cap(), h_up()+1, taylor, partial); h_end(itr.k); }
void a_for_jac(var_op::atomic_op_work<Base>& work, const player<Base>* play, const Base* parameter, bool dep, SV& var)
{   SEQ = 0; var_op::atomic_for_jac<SV,Base,Base>(itr, play, parameter, false, work, dep, var); h_end(((Pos*)buf)->k); }
void a_rev_jac(var_op::atomic_op_work<Base>& work, const player<Base>* play, const Base* parameter, bool dep, SV& var)
{   SEQ = LAST; var_op::atomic_rev_jac<SV,Base,Base>(itr, play, parameter, false, work, dep, var); h_end(((Pos*)buf)->k); }
void a_rev_hes(var_op::atomic_op_work<Base>& work, const player<Base>* play, const Base* parameter, const SV& fj, bool* rj, SV& rh)
{   SEQ = LAST; var_op::atomic_rev_hes<SV,Base,Base>(itr, play, parameter, false, work, fj, rj, rh); h_end(((Pos*)buf)->k); }
void a_for_hes(var_op::atomic_op_work<Base>& work, const player<Base>* play, const Base* parameter, size_t np1, const SV& rj, SV& fh)
{   SEQ = 0; var_op::atomic_for_hes<SV,Base,Base>(itr, play, parameter, false, work, np1, rj, fh); h_end(((Pos*)buf)->k); }
// positions of the members
#define MEM(x) void* o_##x(var_op::atomic_op_work<Base>& w) { return w.x.data_; }
MEM(parameter_x) MEM(type_x) MEM(taylor_x) MEM(taylor_y) MEM(partial_x) MEM(partial_y) MEM(index_x) MEM(index_y) MEM(variable_x) MEM(variable_y)
void* o_pd(player<Base>& p) { return &p; }
}
extern "C" { int k_constant(){ return constant_enum; } int k_dynamic(){ return dynamic_enum; } int k_variable(){ return variable_enum; } int k_zero(){ return identical_zero_enum; } }
