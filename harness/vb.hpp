// Opaque Base type: every Base operation is a declared-only, side-effect-free
// function, so each one is visible as a call in the compiled IR.
#ifndef VB_HPP
#define VB_HPP
#include <cppad/base_require.hpp>
#define VPURE __attribute__((const))
struct VB {
    double v;
    VB() = default;
    VB(double d) : v(d) {}
    VB(int d) : v(double(d)) {}
    VB(size_t d) : v(double(d)) {} VB(unsigned d) : v(double(d)) {} VB(long d) : v(double(d)) {}
    VB& operator+=(const VB& y); VB& operator-=(const VB& y);
    VB& operator*=(const VB& y); VB& operator/=(const VB& y);
};
VPURE VB vb_add(VB x, VB y); VPURE VB vb_sub(VB x, VB y); VPURE VB vb_mul(VB x, VB y); VPURE VB vb_div(VB x, VB y);
VPURE VB vb_neg(VB x);
inline VB operator+(const VB& x, const VB& y){ return vb_add(x,y);} inline VB operator-(const VB& x,const VB& y){return vb_sub(x,y);}
inline VB operator*(const VB& x, const VB& y){ return vb_mul(x,y);} inline VB operator/(const VB& x,const VB& y){return vb_div(x,y);}
inline VB operator-(const VB& x){ return vb_neg(x);} inline VB operator+(const VB& x){ return x;}
inline VB& VB::operator+=(const VB& y){ *this=vb_add(*this,y); return *this;}
inline VB& VB::operator-=(const VB& y){ *this=vb_sub(*this,y); return *this;}
inline VB& VB::operator*=(const VB& y){ *this=vb_mul(*this,y); return *this;}
inline VB& VB::operator/=(const VB& y){ *this=vb_div(*this,y); return *this;}
VPURE bool vb_lt(VB x, VB y); VPURE bool vb_le(VB x, VB y); VPURE bool vb_gt(VB x, VB y); VPURE bool vb_ge(VB x, VB y); VPURE bool vb_eq(VB x, VB y); VPURE bool vb_ne(VB x, VB y);
inline bool operator<(const VB& x,const VB& y){return vb_lt(x,y);} inline bool operator<=(const VB& x,const VB& y){return vb_le(x,y);}
inline bool operator>(const VB& x,const VB& y){return vb_gt(x,y);} inline bool operator>=(const VB& x,const VB& y){return vb_ge(x,y);}
inline bool operator==(const VB& x,const VB& y){return vb_eq(x,y);} inline bool operator!=(const VB& x,const VB& y){return vb_ne(x,y);}
std::ostream& operator<<(std::ostream& os, const VB& x);
std::istream& operator>>(std::istream& is, VB& x);
VPURE VB vb_azmul(VB x, VB y); VPURE VB vb_pow(VB x, VB y); VPURE VB vb_cexp(int cop, VB l, VB r, VB t, VB f);
VPURE bool vb_idcon(VB x); VPURE bool vb_idzero(VB x); VPURE bool vb_idone(VB x); VPURE bool vb_ideq(VB x, VB y);
VPURE bool vb_eqseq(VB x, VB y); VPURE int vb_integer(VB x); VPURE bool vb_gt0(VB x); VPURE bool vb_ge0(VB x); VPURE bool vb_lt0(VB x); VPURE bool vb_le0(VB x); VPURE bool vb_absgeq(VB x, VB y);
VPURE VB vb_nan(); VPURE VB vb_inf(); VPURE VB vb_eps(); VPURE VB vb_min(); VPURE VB vb_max(); VPURE bool vb_isnan(VB x);
VPURE unsigned short vb_hash(VB x);
#define VB_UNARY(X) X(acos) X(asin) X(atan) X(cos) X(cosh) X(exp) X(fabs) X(log) X(log10) X(sin) X(sinh) X(sqrt) X(tan) X(tanh) X(asinh) X(acosh) X(atanh) X(erf) X(erfc) X(expm1) X(log1p) X(sign)
#define VB_DECL(f) VPURE VB vb_##f(VB x);
VB_UNARY(VB_DECL)
namespace CppAD {
    inline VB CondExpOp(enum CompareOp cop, const VB& l, const VB& r, const VB& t, const VB& f){ return vb_cexp(int(cop), l, r, t, f); }
    CPPAD_COND_EXP_REL(VB)
    inline bool EqualOpSeq(const VB& x, const VB& y){ return vb_eqseq(x,y); }
    inline bool IdenticalCon(const VB& x){ return vb_idcon(x);} inline bool IdenticalZero(const VB& x){ return vb_idzero(x);}
    inline bool IdenticalOne(const VB& x){ return vb_idone(x);} inline bool IdenticalEqualCon(const VB& x,const VB& y){ return vb_ideq(x,y);}
    inline int Integer(const VB& x){ return vb_integer(x);}
    inline VB azmul(const VB& x, const VB& y){ return vb_azmul(x,y);}
    inline bool GreaterThanZero(const VB& x){return vb_gt0(x);} inline bool GreaterThanOrZero(const VB& x){return vb_ge0(x);}
    inline bool LessThanZero(const VB& x){return vb_lt0(x);} inline bool LessThanOrZero(const VB& x){return vb_le0(x);}
    inline bool abs_geq(const VB& x,const VB& y){return vb_absgeq(x,y);}
#define VB_DEF(f) inline VB f(const VB& x){ return vb_##f(x); }
    VB_UNARY(VB_DEF)
    inline VB abs(const VB& x){ return vb_fabs(x);}
    inline VB pow(const VB& x, const VB& y){ return vb_pow(x,y);}
    template <> class numeric_limits<VB> { public:
        static VB min(){return vb_min();} static VB max(){return vb_max();} static VB epsilon(){return vb_eps();}
        static VB quiet_NaN(){return vb_nan();} static VB infinity(){return vb_inf();}
        static const int digits = 53; static const int digits10 = 15; };
    inline unsigned short hash_code(const VB& x){ return vb_hash(x);}
    template <> struct to_string_struct<VB> { std::string operator()(const VB& x); };
}
#endif
