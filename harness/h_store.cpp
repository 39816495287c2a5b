// storage management of the vector classes
#include <vector>
#include <set>
#include <map>
#include <list>
#include <string>
#include <sstream>
#include <iostream>
#include <cmath>
#include <complex>
#include <limits>
#include <typeinfo>
#include <functional>
#include <algorithm>
#include <type_traits>
#define private public
#define protected public
#include "vb.hpp"
#include <cppad/cppad.hpp>
using namespace CppAD;
struct NP { double d; NP(); NP(int); bool operator==(const NP&) const; NP(const NP& x); ~NP(); NP& operator=(const NP& x); };
template <class T> struct Vec { typedef T value_type; T* d; size_t n; Vec(); Vec(size_t); Vec(const Vec&); ~Vec(); Vec& operator=(const Vec&); void resize(size_t); size_t size() const; T& operator[](size_t i); const T& operator[](size_t i) const; };
typedef local::pod_vector<size_t> pod; typedef local::pod_vector_maybe<NP> podm; typedef CppAD::vector<NP> vec; typedef vectorBool vb;
extern "C" {

void pod_resize(pod& a, size_t n) { a.resize(n); } void pod_clear(pod& a) { a.clear(); } void pod_dtor(pod& a) { a.~pod_vector(); }
void podm_resize(podm& a, size_t n) { a.resize(n); } void podm_clear(podm& a) { a.clear(); } void podm_dtor(podm& a) { a.~pod_vector_maybe(); }
void vec_resize(vec& a, size_t n) { a.resize(n); } void vec_clear(vec& a) { a.clear(); } void vec_dtor(vec& a) { a.~vector(); }
void vb_resize(vb& a, size_t n) { a.resize(n); } void vb_clear(vb& a) { a.clear(); } void vb_dtor(vb& a) { a.~vectorBool(); }
size_t pod_extend(pod& a, size_t n) { return a.extend(n); }
size_t podm_extend(podm& a, size_t n) { return a.extend(n); }
void pod_push(pod& a, const size_t& e) { a.push_back(e); }
void podm_push(podm& a, const NP& e) { a.push_back(e); }
void vec_push(vec& a, const NP& e) { a.push_back(e); }
void vb_push(vb& a, bool e) { a.push_back(e); }
void vec_pushv(vec& a, const Vec<NP>& v) { a.push_vector(v); }
void vb_pushv(vb& a, const Vec<bool>& v) { a.push_vector(v); }
void pod_ctor(pod* a, size_t n) { new(a) pod(n); } void podm_ctor(podm* a, size_t n) { new(a) podm(n); } void vec_ctor(vec* a, size_t n) { new(a) vec(n); } void vb_ctor(vb* a, size_t n) { new(a) vb(n); }
void ar_delete(NP* a) { thread_alloc::delete_array(a); }
bool vb_get(const vb& a, size_t i) { return a[i]; }
void vb_set(vb& a, size_t i, bool e) { a[i] = e; }
bool vb_rd(vb& a, size_t i) { return a[i]; }
NP* ar_create(size_t n, size_t& m) { return thread_alloc::create_array<NP>(n, m); }
}
