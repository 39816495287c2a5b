// sparsity interface of ADFun: sweeps and set classes are opaque
#include <vector>
#include <set>
#include <map>
#include <list>
#include <string>
#include <sstream>
#include <iostream>
#include <fstream>
#include <cmath>
#include <complex>
#include <algorithm>
#include <limits>
#include <typeinfo>
#include <thread>
#include <mutex>
#include <functional>
#include <random>
#include <type_traits>
#define private public
#define protected public
#include "vb.hpp"
#include <cppad/cppad.hpp>
using namespace CppAD;
// simple vector: every member function is opaque
template <class T> struct Vec {
    T* d; size_t n;
    typedef T value_type;
    Vec(); Vec(size_t k); Vec(const Vec& v); ~Vec();
    Vec& operator=(const Vec& v);
    void resize(size_t k);
    size_t size() const;
    T& operator[](size_t i);
    const T& operator[](size_t i) const;
    void swap(Vec& v);
};
typedef ADFun<VB,VB> F; typedef Vec<bool> B; typedef Vec< std::set<size_t> > S; typedef Vec<size_t> Z; typedef sparse_rc<Z> R;
typedef local::sparse::list_setvec L; typedef local::sparse::pack_setvec P;
typedef local::pod_vector<size_t> I;
namespace LS = CppAD::local::sparse;
extern "C" {
#define BOTH(name, args, call) void name##_n args { const bool transpose = false; call; } void name##_t args { const bool transpose = true; call; }
#define BOTH2(name, args, call) \
    void name##_nb args { const bool transpose = false; const bool internal_bool = true; call; } \
    void name##_tb args { const bool transpose = true; const bool internal_bool = true; call; } \
    void name##_ns args { const bool transpose = false; const bool internal_bool = false; call; } \
    void name##_ts args { const bool transpose = true; const bool internal_bool = false; call; }
BOTH2(s_fj, (F& f, const R& in, bool dep, R& out), f.for_jac_sparsity(in, transpose, dep, internal_bool, out))
BOTH2(s_rj, (F& f, const R& in, bool dep, R& out), f.rev_jac_sparsity(in, transpose, dep, internal_bool, out))
BOTH2(s_rh, (F& f, const B& sel, R& out), f.rev_hes_sparsity(sel, transpose, internal_bool, out))
void s_fh_b(F& f, const B& dom, const B& sel, R& out) { f.for_hes_sparsity(dom, sel, true, out); }
void s_fh_s(F& f, const B& dom, const B& sel, R& out) { f.for_hes_sparsity(dom, sel, false, out); }
BOTH(s_fsjb, (F& f, size_t q, const B& r, bool dep, B& out), f.ForSparseJacCase(bool(), transpose, dep, q, r, out))
BOTH(s_fsjs, (F& f, size_t q, const S& r, bool dep, S& out), f.ForSparseJacCase(std::set<size_t>(), transpose, dep, q, r, out))
BOTH(s_fsjc, (F& f, size_t q, const L& r, bool dep, L& out), f.ForSparseJacCheckpoint(q, r, transpose, dep, out))
BOTH(s_rsjb, (F& f, size_t q, const B& r, bool dep, B& out), f.RevSparseJacCase(bool(), transpose, dep, q, r, out))
BOTH(s_rsjs, (F& f, size_t q, const S& r, bool dep, S& out), f.RevSparseJacCase(std::set<size_t>(), transpose, dep, q, r, out))
BOTH(s_rsjc, (F& f, size_t q, const L& r, bool dep, L& out), f.RevSparseJacCheckpoint(q, r, transpose, dep, out))
BOTH(s_rshb, (F& f, size_t q, const B& r, B& out), f.RevSparseHesCase(bool(), transpose, q, r, out))
BOTH(s_rshs, (F& f, size_t q, const S& r, S& out), f.RevSparseHesCase(std::set<size_t>(), transpose, q, r, out))
BOTH(s_rshc, (F& f, size_t q, vector<bool>& r, L& out), f.RevSparseHesCheckpoint(q, r, transpose, out))
void s_fshb(F& f, const B& r, const B& s, B& out) { f.ForSparseHesCase(bool(), r, s, out); }
void s_fshs(F& f, const S& r, const S& s, S& out) { f.ForSparseHesCase(std::set<size_t>(), r, s, out); }
// outer routines
void s_fsj(F& f, size_t q, const B& r, bool t, bool dep, B& out) { new(&out) B(f.ForSparseJac(q, r, t, dep)); }
void s_rsj(F& f, size_t q, const B& r, bool t, bool dep, B& out) { new(&out) B(f.RevSparseJac(q, r, t, dep)); }
void s_rsh(F& f, size_t q, const B& r, bool t, B& out) { new(&out) B(f.RevSparseHes(q, r, t)); }
void s_fsh(F& f, const B& r, const B& s, B& out) { new(&out) B(f.ForSparseHes(r, s)); }
// from and to the patterns of the variables
BOTH(s_sir, (bool z, bool e, const I& ix, P& p, const R& in), LS::set_internal_pattern(z, e, transpose, ix, p, in))
BOTH(s_sib, (bool z, bool e, const I& ix, P& p, const vectorBool& in), LS::set_internal_pattern(z, e, transpose, ix, p, in))
BOTH(s_siv, (bool z, bool e, const I& ix, P& p, const vector<bool>& in), LS::set_internal_pattern(z, e, transpose, ix, p, in))
BOTH(s_sis, (bool z, bool e, const I& ix, P& p, const vector< std::set<size_t> >& in), LS::set_internal_pattern(z, e, transpose, ix, p, in))
BOTH(s_gir, (const I& ix, P& p, R& out), LS::get_internal_pattern(transpose, ix, p, out))
BOTH(s_gib, (const I& ix, P& p, vectorBool& out), LS::get_internal_pattern(transpose, ix, p, out))
BOTH(s_giv, (const I& ix, P& p, vector<bool>& out), LS::get_internal_pattern(transpose, ix, p, out))
BOTH(s_gis, (const I& ix, P& p, vector< std::set<size_t> >& out), LS::get_internal_pattern(transpose, ix, p, out))
// positions of the members
void* o_ind(F& f) { return &f.ind_taddr_; }
void* o_dep(F& f) { return &f.dep_taddr_; }
void* o_nvar(F& f) { return &f.num_var_tape_; }
void* o_play(F& f) { return &f.play_; }
void* o_pack(F& f) { return &f.for_jac_sparse_pack_; }
void* o_set(F& f) { return &f.for_jac_sparse_set_; }
}
