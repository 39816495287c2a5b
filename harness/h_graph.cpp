// the C++ AD graph of a function, and the function of a graph
#include <vector>
#include <set>
#include <map>
#include <list>
#include <string>
#include <sstream>
#include <iostream>
#include <fstream>
#include <cmath>
#include <complex>
#include <algorithm>
#include <limits>
#include <typeinfo>
#include <thread>
#include <mutex>
#include <functional>
#include <random>
#include <type_traits>
#include <stack>
#define private public
#define protected public
#include <cppad/cppad.hpp>
using namespace CppAD; using namespace CppAD::local;
typedef ADFun<double,double> FD;
extern "C" {
void g_to(FD& f, cpp_graph& g) { f.to_graph(g); }
void g_from(FD& f, const cpp_graph& g, const CppAD::vector<bool>& d, const CppAD::vector<bool>& v) { f.from_graph(g, d, v); }
void g_set(CppAD::local::graph::cpp_graph_itr& i) { i.set_value(); }
void g_inc(CppAD::local::graph::cpp_graph_itr& i) { ++i; }
void g_begin(const cpp_graph& g, CppAD::local::graph::cpp_graph_itr& i) { new(&i) CppAD::local::graph::cpp_graph_itr( g.begin() ); }
}
// the sequential iterator, an operator at a time
extern "C" {
unsigned h_op(); const addr_t* h_arg(); size_t h_var();
void h_op_info(const void*, op_code_var& op, const addr_t*& arg, size_t& v) { op = op_code_var(h_op()); arg = h_arg(); v = h_var(); }
// one operator of a graph
unsigned h_gop(); size_t h_nres(); size_t h_callid(); const CppAD::vector<size_t>* h_str(); const CppAD::vector<size_t>* h_argn();
}
typedef CppAD::local::graph::cpp_graph_itr::value_type GV;
extern "C" {
GV h_gval(const void*) { GV v; v.op_enum = CppAD::graph::graph_op_enum(h_gop()); v.n_result = h_nres(); v.call_id = h_callid(); v.str_index_ptr = h_str(); v.arg_node_ptr = h_argn(); return v; }
int k_no() { return 0; }
CppAD::graph::graph_op_enum k_gop() { return CppAD::graph::abs_graph_op; }
CppAD::ad_type_enum k_type() { return CppAD::constant_enum; }
int k_t_constant() { return CppAD::constant_enum; }
int k_t_dynamic() { return CppAD::dynamic_enum; }
int k_t_variable() { return CppAD::variable_enum; }
op_code_dyn k_dyn() { return abs_dyn; }
CompareOp k_cop() { return CompareLt; }
}
#ifdef H_LIB
#include "../cppad_lib/cpp_graph_op.cpp"
#endif
