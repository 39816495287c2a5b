// the writers and the parser of AD graphs
#include <cppad/cppad.hpp>
#include <cppad/local/graph/cpp_graph_op.hpp>
#include <cppad/local/graph/cpp_graph_itr.hpp>
#include "../cppad_lib/cpp_graph_op.cpp"
#include "../cppad_lib/csrc_writer.cpp"
#include "../cppad_lib/json_writer.cpp"
#include "../cppad_lib/json_parser.cpp"
extern "C" {
unsigned h_gop(); size_t h_nres(); size_t h_callid(); const CppAD::vector<size_t>* h_str(); const CppAD::vector<size_t>* h_argn();
}
typedef CppAD::local::graph::cpp_graph_itr::value_type GV;
extern "C" {
GV h_gval(const void*) { GV v; v.op_enum = CppAD::graph::graph_op_enum(h_gop()); v.n_result = h_nres(); v.call_id = h_callid(); v.str_index_ptr = h_str(); v.arg_node_ptr = h_argn(); return v; }
void g_csrc(std::ostream& os, const CppAD::cpp_graph& g, const std::string& t) { CppAD::local::graph::csrc_writer(os, g, t); }
void g_jsonw(std::string& json, const CppAD::cpp_graph& g) { CppAD::local::graph::json_writer(json, g); }
void g_jsonp(const std::string& json, CppAD::cpp_graph& g) { CppAD::local::graph::json_parser(json, g); }
void g_info() { CppAD::local::graph::set_operator_info(); }
void g_tocsrc(CppAD::ADFun<double>& f, std::ostream& os, const std::string& t) { f.to_csrc(os, t); }
void g_tojson(CppAD::ADFun<double>& f, std::string& out) { out = f.to_json(); }
void g_fromjson(CppAD::ADFun<double>& f, const std::string& json) { f.from_json(json); }
CppAD::graph::graph_op_enum k_gop() { return CppAD::graph::abs_graph_op; }
}
