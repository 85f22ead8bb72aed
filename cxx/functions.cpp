// instantiation unit: elementwise math functions
#include <complex>
#include <dspbb/Math/Functions.hpp>
#include <dspbb/Primitives/Signal.hpp>
#include <dspbb/Primitives/SignalView.hpp>
using namespace dspbb;
using cd = std::complex<double>;
#define ONE(F, T, S) \
	using R_##F##S = typename decltype(F(std::declval<SignalView<const T>>()))::value_type; \
	extern "C" void into_##F##_##S(R_##F##S* r, size_t n, const T* a) { F(SignalView<R_##F##S>(r, n), SignalView<const T>(a, n)); } \
	extern "C" void new_##F##_##S(Signal<R_##F##S>* r, const T* a, size_t n) { new (r) Signal<R_##F##S>(F(SignalView<const T>(a, n))); }
#define POW(T, S) \
	extern "C" void into_Pow_##S(T* r, size_t n, const T* a, T p) { Pow(SignalView<T>(r, n), SignalView<const T>(a, n), p); } \
	extern "C" void new_Pow_##S(Signal<T>* r, const T* a, size_t n, T p) { new (r) Signal<T>(Pow(SignalView<const T>(a, n), p)); }
#define REALS(T, S) ONE(Abs, T, S) ONE(Real, T, S) ONE(Imag, T, S) ONE(Log, T, S) ONE(Log2, T, S) ONE(Log10, T, S) ONE(Exp, T, S) ONE(Sqrt, T, S) ONE(Cbrt, T, S) \
	ONE(Sin, T, S) ONE(Cos, T, S) ONE(Tan, T, S) ONE(Asin, T, S) ONE(Acos, T, S) ONE(Atan, T, S) ONE(Sinh, T, S) ONE(Cosh, T, S) ONE(Tanh, T, S) \
	ONE(Asinh, T, S) ONE(Acosh, T, S) ONE(Atanh, T, S) ONE(Erf, T, S) ONE(Erfc, T, S) ONE(TGamma, T, S) ONE(LGamma, T, S) POW(T, S)
#if defined(A_F)
REALS(float, f)
#elif defined(A_D)
REALS(double, d)
#else
ONE(Abs, cd, c) ONE(Arg, cd, c) ONE(Real, cd, c) ONE(Imag, cd, c) ONE(Conj, cd, c) ONE(Exp, cd, c) ONE(Log, cd, c) ONE(Sqrt, cd, c)
ONE(Sin, cd, c) ONE(Cos, cd, c) ONE(Tan, cd, c) ONE(Sinh, cd, c) ONE(Cosh, cd, c) ONE(Tanh, cd, c)
ONE(Asin, cd, c) ONE(Acos, cd, c) ONE(Atan, cd, c) ONE(Asinh, cd, c) ONE(Acosh, cd, c) ONE(Atanh, cd, c)
#endif
