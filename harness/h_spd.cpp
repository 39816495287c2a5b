// Drivers of sparse derivatives (P23): opaque sweeps, patterns and vectors
#include <cmath>
#include <complex>
#include <cstddef>
#include <cstring>
#include <deque>
#include <fstream>
#include <functional>
#include <iomanip>
#include <iostream>
#include <iterator>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <new>
#include <set>
#include <sstream>
#include <stack>
#include <string>
#include <thread>
#include <typeinfo>
#include <utility>
#include <valarray>
#include <vector>
#include <algorithm>
#define private public
#define protected public
#include <cppad/cppad.hpp>
template <class T> struct HV
{   typedef T value_type;
    HV(); HV(size_t n); HV(const HV&); ~HV();
    HV& operator=(const HV&);
    size_t size() const; void resize(size_t n);
    T& operator[](size_t i); const T& operator[](size_t i) const;
};
typedef HV<double> B; typedef HV<size_t> S;
typedef CppAD::ADFun<double> F;
typedef CppAD::sparse_rcv<S,B> RCV; typedef CppAD::sparse_rc<S> RC;
typedef CppAD::local::sparse::list_setvec SETS;
extern "C" {
size_t d_for1(F* f,const B& x,RCV& s,const RC& p,const std::string& c,CppAD::sparse_jac_work& w){ return f->sparse_jac_for(1,x,s,p,c,w); }
size_t d_for2(F* f,const B& x,RCV& s,const RC& p,const std::string& c,CppAD::sparse_jac_work& w){ return f->sparse_jac_for(2,x,s,p,c,w); }
size_t d_for5(F* f,const B& x,RCV& s,const RC& p,const std::string& c,CppAD::sparse_jac_work& w){ return f->sparse_jac_for(5,x,s,p,c,w); }
size_t d_rev(F* f,const B& x,RCV& s,const RC& p,const std::string& c,CppAD::sparse_jac_work& w){ return f->sparse_jac_rev(x,s,p,c,w); }
size_t d_hes(F* f,const B& x,RCV& s,const RC& p,const std::string& c,CppAD::sparse_hes_work& w,const B& wt){ return f->sparse_hes(x,wt,s,p,c,w); }
size_t o_for(F* f,const B& x,SETS& p,const S& r,const S& c,B& jac,CppAD::sparse_jacobian_work& w){ return f->SparseJacobianFor(x,p,r,c,jac,w); }
size_t o_rev(F* f,const B& x,SETS& p,const S& r,const S& c,B& jac,CppAD::sparse_jacobian_work& w){ return f->SparseJacobianRev(x,p,r,c,jac,w); }
size_t o_hes(F* f,const B& x,SETS& p,const S& r,const S& c,B& hes,CppAD::sparse_hessian_work& w,const B& wt){ return f->SparseHessianCompute(x,wt,p,r,c,hes,w); }
void* k_jac_color(CppAD::sparse_jac_work& w){ return &w.color; }
void* k_jac_order(CppAD::sparse_jac_work& w){ return &w.order; }
void* k_hes_color(CppAD::sparse_hes_work& w){ return &w.color; }
void* k_hes_order(CppAD::sparse_hes_work& w){ return &w.order; }
void* k_hes_row(CppAD::sparse_hes_work& w){ return &w.row; }
void* k_hes_col(CppAD::sparse_hes_work& w){ return &w.col; }
void* k_ojac_color(CppAD::sparse_jacobian_work& w){ return &w.color; }
void* k_ojac_order(CppAD::sparse_jacobian_work& w){ return &w.order; }
void* k_ohes_color(CppAD::sparse_hessian_work& w){ return &w.color; }
void* k_ohes_order(CppAD::sparse_hessian_work& w){ return &w.order; }
void* k_ohes_row(CppAD::sparse_hessian_work& w){ return &w.row; }
void* k_ohes_col(CppAD::sparse_hessian_work& w){ return &w.col; }
}
