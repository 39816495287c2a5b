// the optimizer, an operator at a time: the random iterator, the player and the
// recorder are abstract
#include <vector>
#include <set>
#include <map>
#include <list>
#include <string>
#include <sstream>
#include <iostream>
#include <fstream>
#include <cmath>
#include <complex>
#include <algorithm>
#include <limits>
#include <typeinfo>
#include <thread>
#include <mutex>
#include <functional>
#include <random>
#include <stack>
#include "vb.hpp"
#include <cppad/cppad.hpp>
using namespace CppAD; using namespace CppAD::local;
typedef unsigned short U; typedef play::const_random_iterator<U> RI;
extern "C" {
unsigned h_op(); VPURE size_t h_current();
const addr_t* h_arg(size_t i); size_t h_var(size_t i); unsigned h_opof(size_t i);
// replaces const_random_iterator::op_info : every operator is the one of this analysis
void h_op_info(const void*, size_t i, op_code_var& op, const addr_t*& arg, size_t& v)
{   op = op_code_var(h_op()); arg = h_arg(i); v = h_var(i); }
// the same when another operator can be looked up
void h_op_info2(const void*, size_t i, op_code_var& op, const addr_t*& arg, size_t& v)
{   op = op_code_var(i == h_current() ? h_op() : h_opof(i)); arg = h_arg(i); v = h_var(i); }
// every operator can be looked up
void h_op_info3(const void*, size_t i, op_code_var& op, const addr_t*& arg, size_t& v)
{   op = op_code_var(h_opof(i)); arg = h_arg(i); v = h_var(i); }
unsigned h_get_op(const void*, size_t i) { return h_op(); }
unsigned h_get_op2(const void*, size_t i) { return i == h_current() ? h_op() : h_opof(i); }
void e_usage(bool cs, bool cmp, bool pri, bool csum, const player<VB>* play, const RI& itr, const pod_vector<size_t>& dep, pod_vector<addr_t>& cexp2op, sparse::list_setvec& cexp_set, pod_vector<bool>& vecad_used, pod_vector<optimize::usage_t>& op_usage)
{ optimize::get_op_usage(cs, cmp, pri, csum, play, itr, dep, cexp2op, cexp_set, vecad_used, op_usage); }
void e_inc(const player<VB>* play, bool csum, size_t i_result, size_t i_arg, pod_vector<optimize::usage_t>& op_usage, sparse::list_setvec& cexp_set)
{ optimize::op_inc_arg_usage(play, csum, i_result, i_arg, op_usage, cexp_set); }
bool e_previous(size_t limit, const player<VB>* play, const RI& itr, sparse::list_setvec& cexp_set, pod_vector<addr_t>& op_previous, pod_vector<optimize::usage_t>& op_usage)
{ return optimize::get_op_previous(limit, play, itr, cexp_set, op_previous, op_usage); }
bool e_match(size_t limit, const RI& itr, pod_vector<addr_t>& op_previous, sparse::list_setvec& table, pod_vector<bool>& wb, pod_vector<addr_t>& wa)
{ return optimize::match_op(limit, itr, op_previous, h_current(), table, wb, wa); }
bool e_run(const std::string& options, size_t n, pod_vector<size_t>& dep, player<VB>* play, recorder<VB>* rec)
{ return optimize::optimize_run<U>(options, n, dep, play, rec); }
void e_csum(const player<VB>* play, const RI& itr, const pod_vector<optimize::usage_t>& op_usage, const pod_vector<addr_t>& new_par, const pod_vector<addr_t>& new_var, size_t current, recorder<VB>* rec, optimize::struct_csum_stacks& stack, optimize::struct_size_pair& out)
{ out = optimize::record_csum(play, itr, op_usage, new_par, new_var, current, rec, stack); }
void e_cexp(const player<VB>* play, const RI& itr, const pod_vector<addr_t>& op_previous, const pod_vector<optimize::usage_t>& op_usage, const pod_vector<addr_t>& cexp2op, const sparse::list_setvec& cexp_set, CppAD::vector<optimize::struct_cexp_info>& info, sparse::list_setvec& t, sparse::list_setvec& f)
{ optimize::get_cexp_info(play, itr, op_previous, op_usage, cexp2op, cexp_set, info, t, f); }
void e_par(const player<VB>* play, const RI& itr, pod_vector<optimize::usage_t>& op_usage, pod_vector<bool>& vecad_used, pod_vector<bool>& par_usage)
{ optimize::get_par_usage(play, itr, op_usage, vecad_used, par_usage); }
void e_dyn(const player<VB>* play, pod_vector<bool>& par_usage, pod_vector<addr_t>& dyn_previous)
{ optimize::get_dyn_previous(play, par_usage, dyn_previous); }
int k_no() { return optimize::no_usage; }
int k_start_atom() { return start_atom; } int k_arg_atom() { return arg_atom; } int k_ret_atom() { return ret_atom; } int k_end_atom() { return end_atom; }
int k_yes() { return optimize::yes_usage; }
int k_constant(){ return constant_enum; }
int k_dynamic(){ return dynamic_enum; }
int k_variable(){ return variable_enum; }
int k_csum() { return optimize::csum_usage; }
}
