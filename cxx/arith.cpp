// instantiation unit: elementwise arithmetic (public operators and three-argument functions)
#include <complex>
#include <dspbb/Primitives/Signal.hpp>
#include <dspbb/Primitives/SignalArithmetic.hpp>
#include <dspbb/Primitives/SignalView.hpp>
using namespace dspbb;
using cd = std::complex<double>;
#define OPS(T, S) OP(T, S, Add, add, +) OP(T, S, Subtract, sub, -) OP(T, S, Multiply, mul, *) OP(T, S, Divide, div, /)
#define OP(T, S, F, f, o) \
	extern "C" void f##_vv_##S(T* r, size_t n, const T* a, size_t na, const T* b, size_t nb) { F(SignalView<T>(r, n), SignalView<const T>(a, na), SignalView<const T>(b, nb)); } \
	extern "C" void f##_vs_##S(T* r, size_t n, const T* a, size_t na, const T* s) { F(SignalView<T>(r, n), SignalView<const T>(a, na), *s); } \
	extern "C" void f##_sv_##S(T* r, size_t n, const T* s, const T* b, size_t nb) { F(SignalView<T>(r, n), *s, SignalView<const T>(b, nb)); } \
	extern "C" void f##_cv_##S(T* r, size_t n, const T* b, size_t nb) { SignalView<T>(r, n) o##= SignalView<const T>(b, nb); } \
	extern "C" void f##_cs_##S(T* r, size_t n, const T* s) { SignalView<T>(r, n) o##= *s; } \
	extern "C" void f##_nvv_##S(Signal<T>* r, const T* a, size_t na, const T* b, size_t nb) { new (r) Signal<T>(SignalView<const T>(a, na) o SignalView<const T>(b, nb)); } \
	extern "C" void f##_nvs_##S(Signal<T>* r, const T* a, size_t na, const T* s) { new (r) Signal<T>(SignalView<const T>(a, na) o *s); } \
	extern "C" void f##_nsv_##S(Signal<T>* r, const T* s, const T* b, size_t nb) { new (r) Signal<T>(*s o SignalView<const T>(b, nb)); }
#if defined(A_D)
OPS(double, d)
#elif defined(A_F)
OPS(float, f)
#else
OPS(cd, c)
#endif
