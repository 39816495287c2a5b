// functions that replace the recording of an ADFun object
#include <vector>
#include <set>
#include <map>
#include <list>
#include <string>
#include <sstream>
#include <iostream>
#include <fstream>
#include <cmath>
#include <complex>
#include <algorithm>
#include <limits>
#include <typeinfo>
#include <thread>
#include <mutex>
#include <functional>
#include <random>
#include <type_traits>
#include <stack>
#define private public
#define protected public
#include "vb.hpp"
#include <cppad/cppad.hpp>
using namespace CppAD; using namespace CppAD::local;
typedef ADFun<VB,VB> F;
extern "C" {
void r_dependent(F& f, ADTape<VB>* t, const CppAD::vector< AD<VB> >& y) { f.Dependent(t, y); }
void r_optimize(F& f, const std::string& o) { f.optimize(o); }
void r_valopt(F& f, const std::string& o) { f.val_optimize(o); }
void r_val2fun(F& f, const val_graph::tape_t<VB>& t, const val_graph::Vector<size_t>& d, const val_graph::Vector<size_t>& v, const vectorBool& u) { f.val2fun(t, d, v, u); }
void r_newdyn(F& f, const CppAD::vector<VB>& d) { f.new_dynamic(d); }
void r_abs(const F& f, F& g, F& a) { f.abs_normal_fun(g, a); }
}
typedef ADFun<double,double> FD;
extern "C" {
void r_fromgraph(FD& f, const cpp_graph& g, const CppAD::vector<bool>& d, const CppAD::vector<bool>& v) { f.from_graph(g, d, v); }
}
// the sequential iterator, an operator at a time
extern "C" {
unsigned h_op(); const addr_t* h_arg(); size_t h_var();
void h_op_info(const void*, op_code_var& op, const addr_t*& arg, size_t& v) { op = op_code_var(h_op()); arg = h_arg(); v = h_var(); }
int k_no() { return 0; }
}
