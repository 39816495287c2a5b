// copy, assignment, swap and conversion of the classes that hold state
#include <vector>
#include <set>
#include <map>
#include <list>
#include <string>
#include <sstream>
#include <iostream>
#include <fstream>
#include <cmath>
#include <complex>
#include <algorithm>
#include <limits>
#include <typeinfo>
#include <thread>
#include <mutex>
#include <functional>
#include <random>
#include <type_traits>
#define private public
#define protected public
#include "vb.hpp"
#include <cppad/cppad.hpp>
using namespace CppAD;
template <class T> struct Vec {
    T* d; size_t n;
    typedef T value_type;
    Vec(); Vec(size_t k); Vec(const Vec& v); ~Vec();
    Vec& operator=(const Vec& v);
    void resize(size_t k);
    size_t size() const;
    T& operator[](size_t i);
    const T& operator[](size_t i) const;
    void swap(Vec& v);
};
typedef ADFun<VB,VB> F; typedef ADFun<AD<VB>,VB> AF;
typedef local::player<VB> PL; typedef local::dyn_player<VB> DP; typedef local::player< AD<VB> > APL; typedef local::dyn_player< AD<VB> > ADP;
typedef local::recorder<VB> RE; typedef local::dyn_recorder<VB> DR;
typedef local::sparse::pack_setvec PK; typedef local::sparse::list_setvec LS; typedef local::sparse::svec_setvec SV;
typedef local::subgraph::subgraph_info SI; typedef local::random_itr_info_t RI;
typedef sparse_rc< Vec<size_t> > RC; typedef sparse_rcv< Vec<size_t>, Vec<VB> > RV;
typedef local::pod_vector<size_t> PV; typedef local::pod_vector_maybe<VB> PM; typedef CppAD::vector<VB> CV; typedef vectorBool BV;
typedef local::val_graph::tape_t<VB> TA;
extern "C" {
#define CA(n, T) void ca_##n(T& a, const T& b) { a = b; }
#define MA(n, T) void ma_##n(T& a, T& b) { a = std::move(b); }
#define SW(n, T) void sw_##n(T& a, T& b) { a.swap(b); }
#define CC(n, T) void cc_##n(T* a, const T& b) { new(a) T(b); }
#define MC(n, T) void mc_##n(T* a, T& b) { new(a) T(std::move(b)); }
CA(fun,F) MA(fun,F) SW(fun,F) MC(fun,F)
CA(player,PL) MA(player,PL) SW(player,PL)
CA(dyn_player,DP) MA(dyn_player,DP) SW(dyn_player,DP)
CA(random,RI) SW(random,RI)
CA(pack,PK) SW(pack,PK)
CA(size,LS) SW(size,LS)
CA(svec,SV) SW(svec,SV)
CA(subgraph,SI) SW(subgraph,SI)
CA(rc,RC) MA(rc,RC) SW(rc,RC) CC(rc,RC) MC(rc,RC)
CA(rcv,RV) MA(rcv,RV) SW(rcv,RV) CC(rcv,RV) MC(rcv,RV)
SW(pod,PV) SW(podm,PM) SW(vector,CV) MA(vector,CV) SW(vbool,BV) MA(vbool,BV)
CA(graph,cpp_graph) CC(graph,cpp_graph)
SW(tape,TA)
void b2_fun(AF* a, const F& b) { new(a) AF(b.base2ad()); }
void b2_player(APL* a, const PL& b) { new(a) APL(b.base2ad()); }
void b2_dyn(ADP* a, const DP& b) { new(a) ADP(b.base2ad()); }
void gr_player(PL& a, RE& b) { a.get_recording(b, 0); }
void gr_dyn(DP& a, DR& b) { a.get_recording(b); }
}
// contents
extern "C" {
void ct_pod(PV& a, const PV& b) { a = b; }
void ct_podm(PM& a, const PM& b) { a = b; }
void ct_vector(CV& a, const CV& b) { a = b; }
void ct_vbool(BV& a, const BV& b) { a = b; }
void ct_vectorc(CV* a, const CV& b) { new(a) CV(b); }
void ct_vboolc(BV* a, const BV& b) { new(a) BV(b); }
}
// patterns and sparse matrices
template <class T> struct PVec : public Vec<T> { PVec(); PVec(size_t k); PVec(const PVec& v); ~PVec(); PVec& operator=(const PVec& v); void push_back(const T& t); };
typedef sparse_rc< PVec<size_t> > RP;
extern "C" {
void rs_set(RC& a, size_t k, size_t r, size_t c) { a.set(k, r, c); }
void rs_push(RP& a, size_t r, size_t c) { a.push_back(r, c); }
void rs_resize(RC& a, size_t nr, size_t nc, size_t nnz) { a.resize(nr, nc, nnz); }
void rs_ctor(RC* a, size_t nr, size_t nc, size_t nnz) { new(a) RC(nr, nc, nnz); }
void rs_setrow(RC& a) { a.set_row_major(); }
void rs_setcol(RC& a) { a.set_col_major(); }
void rs_row(Vec<size_t>* r, const RC& a) { new(r) Vec<size_t>( a.row_major() ); }
void rs_col(Vec<size_t>* r, const RC& a) { new(r) Vec<size_t>( a.col_major() ); }
bool rs_eq(const RC& a, const RC& b) { return a == b; }
void rv_set(RV& a, size_t k, const VB& v) { a.set(k, v); }
void rv_ctor(RV* a, const RC& p) { new(a) RV(p); }
size_t rg_nr(const RC& a) { return a.nr(); }
size_t rg_nc(const RC& a) { return a.nc(); }
size_t rg_nnz(const RC& a) { return a.nnz(); }
const void* rg_row(const RC& a) { return &a.row(); }
const void* rg_col(const RC& a) { return &a.col(); }
size_t rh_nr(const RV& a) { return a.nr(); }
size_t rh_nc(const RV& a) { return a.nc(); }
size_t rh_nnz(const RV& a) { return a.nnz(); }
const void* rh_row(const RV& a) { return &a.row(); }
const void* rh_col(const RV& a) { return &a.col(); }
const void* rh_val(const RV& a) { return &a.val(); }
const void* rh_pat(const RV& a) { return &a.pat(); }
}
