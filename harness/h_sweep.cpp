#include "vb.hpp"
#include <cppad/cppad.hpp>
#include "sv.hpp"
using namespace CppAD; using namespace CppAD::local;
extern "C" {
unsigned h_op(); const addr_t* h_arg(); const addr_t* h_arg_corrected(); size_t h_var(); size_t h_index();
// replaces const_sequential_iterator::op_info
void h_op_info(void*, op_code_var& op, const addr_t*& arg, size_t& i_var)
{   op = op_code_var(h_op()); arg = h_arg(); i_var = h_var(); }
// replaces correct_after_decrement, which moves arg of CSumOp and CSkipOp
void h_correct(void*, const addr_t*& arg) { arg = h_arg_corrected(); }
}
struct HItr { long d;
    void op_info(op_code_var& op, const addr_t*& arg, size_t& i_var) const;
    HItr& operator++(); HItr& operator--(); size_t op_index(); size_t op_index() const;
    void correct_before_increment(); void correct_after_decrement(const addr_t*& arg);
};
inline void HItr::op_info(op_code_var& op, const addr_t*& arg, size_t& i_var) const { h_op_info(nullptr, op, arg, i_var); }
typedef VB Base; typedef VB RecBase;
extern "C" {
void e_forward_0(const player<Base>* play, size_t num_var, size_t J, bool* cskip, pod_vector<addr_t>& load_op2var, size_t cc, size_t& cn, size_t& coi, std::ostream& os, bool print, Base* taylor)
{ sweep::forward_0<Base,RecBase>(VB(0.), play, num_var, J, cskip, load_op2var, cc, cn, coi, os, print, taylor); }
// order ranges [p,q]
void e_any_pq(const player<Base>* play, size_t num_var, size_t J, bool* cskip, pod_vector<addr_t>& load_op2var, size_t cc, size_t& cn, size_t& coi, std::ostream& os, bool print, size_t p, size_t q, Base* taylor)
{ sweep::forward_any<Base,RecBase>(VB(0.), play, num_var, J, cskip, load_op2var, cc, cn, coi, os, print, p, q, taylor); }
void e_any_00(const player<Base>* play, size_t num_var, size_t J, bool* cskip, pod_vector<addr_t>& load_op2var, size_t cc, size_t& cn, size_t& coi, std::ostream& os, bool print, size_t p, size_t q, Base* taylor)
{ sweep::forward_any<Base,RecBase>(VB(0.), play, num_var, J, cskip, load_op2var, cc, cn, coi, os, print, 0, 0, taylor); }
void e_any_0q(const player<Base>* play, size_t num_var, size_t J, bool* cskip, pod_vector<addr_t>& load_op2var, size_t cc, size_t& cn, size_t& coi, std::ostream& os, bool print, size_t p, size_t q, Base* taylor)
{ sweep::forward_any<Base,RecBase>(VB(0.), play, num_var, J, cskip, load_op2var, cc, cn, coi, os, print, 0, q, taylor); }
void e_any_1q(const player<Base>* play, size_t num_var, size_t J, bool* cskip, pod_vector<addr_t>& load_op2var, size_t cc, size_t& cn, size_t& coi, std::ostream& os, bool print, size_t p, size_t q, Base* taylor)
{ sweep::forward_any<Base,RecBase>(VB(0.), play, num_var, J, cskip, load_op2var, cc, cn, coi, os, print, 1, q, taylor); }
void e_any_3q(const player<Base>* play, size_t num_var, size_t J, bool* cskip, pod_vector<addr_t>& load_op2var, size_t cc, size_t& cn, size_t& coi, std::ostream& os, bool print, size_t p, size_t q, Base* taylor)
{ sweep::forward_any<Base,RecBase>(VB(0.), play, num_var, J, cskip, load_op2var, cc, cn, coi, os, print, 3, q, taylor); }
void e_forward_dir(const player<Base>* play, size_t num_var, size_t J, const bool* cskip, const pod_vector<addr_t>& load_op2var, size_t q, size_t r, Base* taylor)
{ sweep::forward_dir<Base,RecBase>(VB(0.), play, num_var, J, cskip, load_op2var, q, r, taylor); }
void e_reverse(size_t num_var, const player<Base>* play, size_t J, const Base* Taylor, size_t K, Base* Partial, bool* cskip, const pod_vector<addr_t>& load_op2var, HItr& itr)
{ sweep::reverse<Base,HItr,RecBase>(num_var, play, J, Taylor, K, Partial, cskip, load_op2var, itr, VB(0.)); }
void e_for_jac(const player<Base>* play, bool dependency, size_t n, size_t num_var, SV& var)
{ sweep::for_jac<SV,Base,RecBase>(play, dependency, n, num_var, var, VB(0.)); }
void e_rev_jac(const player<Base>* play, bool dependency, size_t n, size_t num_var, SV& var)
{ sweep::rev_jac<Base,SV,RecBase>(play, dependency, n, num_var, var, VB(0.)); }
void e_for_hes(const player<Base>* play, size_t n, size_t num_var, const pod_vector<bool>& sd, const SV& rj, SV& fh)
{ sweep::for_hes<Base,SV,RecBase>(play, n, num_var, sd, rj, fh, VB(0.)); }
void e_rev_hes(const player<Base>* play, size_t num_var, const SV& fj, bool* RevJac, SV& rh)
{ sweep::rev_hes<Base,SV,RecBase>(play, num_var, fj, RevJac, rh, VB(0.)); }
}
