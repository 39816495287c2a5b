#include "vb.hpp"
#include <cppad/cppad.hpp>
using namespace CppAD; using namespace CppAD::local;
extern "C" {
unsigned h_op(); void h_opindex(const void*, size_t);
const opcode_t* h_opref(const void* v, size_t i)
{   static opcode_t cell; h_opindex(v, i); cell = opcode_t(h_op()); return &cell; }
int k_constant(){ return constant_enum; }
int k_dynamic(){ return dynamic_enum; }
int k_variable(){ return variable_enum; }
void e_dynamic(pod_vector_maybe<VB>& par_all, const CppAD::vector<VB>& ind, const pod_vector<bool>& par_is_dyn,
    const pod_vector<addr_t>& dyn2par, const pod_vector<opcode_t>& dyn_op, const pod_vector<addr_t>& dyn_arg)
{   sweep::dynamic(par_all, ind, par_is_dyn, dyn2par, dyn_op, dyn_arg, VB(0.)); }
}
