// instantiation unit: rational numbers
#include <dspbb/Math/Rational.hpp>
using namespace dspbb;
using T = long long;
using Q = Rational<T>;
#define BIN(N, OP) \
	extern "C" void N##_rr(Q* r, const Q* a, const Q* b) { *r = *a OP *b; } \
	extern "C" void N##_ri(Q* r, const Q* a, T b) { *r = *a OP b; } \
	extern "C" void N##_ir(Q* r, T a, const Q* b) { *r = a OP *b; } \
	extern "C" void N##eq_rr(Q* r, const Q* a, const Q* b) { *r = *a; *r OP##= *b; } \
	extern "C" void N##eq_ri(Q* r, const Q* a, T b) { *r = *a; *r OP##= b; }
BIN(add, +) BIN(sub, -) BIN(mul, *) BIN(div, /)
#define CMP(N, OP) \
	extern "C" bool N##_rr(const Q* a, const Q* b) { return *a OP *b; } \
	extern "C" bool N##_ri(const Q* a, T b) { return *a OP b; } \
	extern "C" bool N##_ir(T a, const Q* b) { return a OP *b; }
CMP(eq, ==) CMP(ne, !=) CMP(lt, <) CMP(gt, >) CMP(le, <=) CMP(ge, >=)
extern "C" void ctor2(Q* r, T n, T d) { *r = Q(n, d); }
extern "C" void ctor1(Q* r, T n) { *r = Q(n); }
extern "C" void preinc(Q* r, Q* a) { *r = ++*a; }
extern "C" void predec(Q* r, Q* a) { *r = --*a; }
extern "C" void postinc(Q* r, Q* a) { *r = (*a)++; }
extern "C" void postdec(Q* r, Q* a) { *r = (*a)--; }
extern "C" T ceil_q(const Q* a) { return ceil(*a); }
extern "C" T floor_q(const Q* a) { return floor(*a); }
extern "C" void frac_q(Q* r, const Q* a) { *r = frac(*a); }
extern "C" double todouble(const Q* a) { return double(*a); }
extern "C" T num_q(const Q* a) { return a->Numerator(); }
extern "C" T den_q(const Q* a) { return a->Denominator(); }
