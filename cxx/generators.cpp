// instantiation unit: ranges, windows, waveforms
#include <dspbb/Filtering/Windowing.hpp>
#include <dspbb/Generators/Spaces.hpp>
#include <dspbb/Generators/Waveforms.hpp>
using namespace dspbb;
using T = double;
using C = std::complex<double>;
using V = SignalView<T>;
using VC = SignalView<C>;
using S = Signal<T>;
using SC = Signal<C>;
extern "C" {
#ifdef SPACES
void lin_into(T* o, size_t n, T a, T b, bool inc) { LinSpace(V(o, n), a, b, inc); }
void lin_into_c(C* o, size_t n, T a, T b, bool inc) { LinSpace(VC(o, n), a, b, inc); }
void lin_new(S* r, size_t n, T a, T b, bool inc) { new (r) S(LinSpace<T, TIME_DOMAIN>(a, b, n, inc)); }
void lin_new_c(SC* r, size_t n, T a, T b, bool inc) { new (r) SC(LinSpace<C, TIME_DOMAIN>(a, b, n, inc)); }
void log_into(T* o, size_t n, T a, T b, T base, bool inc) { LogSpace(V(o, n), a, b, base, inc); }
void log_new(S* r, size_t n, T a, T b, T base, bool inc) { new (r) S(LogSpace<T, TIME_DOMAIN>(a, b, n, base, inc)); }
#endif
#ifdef WINDOWS
#define W0(F, f) void into_##F(T* o, size_t n) { F##Window(V(o, n)); } void cinto_##F(C* o, size_t n) { F##Window(VC(o, n)); } void new_##F(S* r, size_t n) { new (r) S(F##Window<T>(n)); } \
	void fn_##F(T* o, size_t n) { V v(o, n); windows::f(v); }
#define W1(F, f, q) void into_##F(T* o, size_t n, T p) { F##Window(V(o, n), p); } void cinto_##F(C* o, size_t n, T p) { F##Window(VC(o, n), p); } void new_##F(S* r, size_t n, T p) { new (r) S(F##Window<T>(n, p)); } \
	void fn_##F(T* o, size_t n, T p) { V v(o, n); windows::f.q(p)(v); }
W0(Hamming, hamming) W0(FlatTop, flattop) W0(Rectangular, rectangular) W0(Triangular, triangular) W0(Blackman, blackman) W0(BlackmanHarris, blackmanHarris) W0(Lanczos, lanczos)
W1(Gaussian, gaussian, sigma) W1(Kaiser, kaiser, alpha)
T coherent(const T* a, size_t n) { return CoherentGain(SignalView<const T>(a, n)); }
T energy(const T* a, size_t n) { return EnergyGain(SignalView<const T>(a, n)); }
#endif
#ifdef WAVES
#define G0(F) void into_##F(T* o, size_t n, uint64_t rate, T f, T ph) { F##Wave(V(o, n), rate, f, ph); } void cinto_##F(C* o, size_t n, uint64_t rate, T f, T ph) { F##Wave(VC(o, n), rate, f, ph); } \
	void new_##F(S* r, size_t n, uint64_t rate, T f, T ph) { new (r) S(F##Wave<T, TIME_DOMAIN>(n, rate, f, ph)); } \
	void cinto_##F##C(C* o, size_t n, uint64_t rate, T f, T g, T ph) { F##Chirp(VC(o, n), rate, f, g, ph); } \
	void into_##F##C(T* o, size_t n, uint64_t rate, T f, T g, T ph) { F##Chirp(V(o, n), rate, f, g, ph); } void new_##F##C(S* r, size_t n, uint64_t rate, T f, T g, T ph) { new (r) S(F##Chirp<T, TIME_DOMAIN>(n, rate, f, g, ph)); }
#define G1(F) void into_##F(T* o, size_t n, uint64_t rate, T f, T ph, T q) { F##Wave(V(o, n), rate, f, ph, q); } void cinto_##F(C* o, size_t n, uint64_t rate, T f, T ph, T q) { F##Wave(VC(o, n), rate, f, ph, q); } \
	void new_##F(S* r, size_t n, uint64_t rate, T f, T ph, T q) { new (r) S(F##Wave<T, TIME_DOMAIN>(n, rate, f, ph, q)); } \
	void cinto_##F##C(C* o, size_t n, uint64_t rate, T f, T g, T ph, T q) { F##Chirp(VC(o, n), rate, f, g, ph, q); } \
	void into_##F##C(T* o, size_t n, uint64_t rate, T f, T g, T ph, T q) { F##Chirp(V(o, n), rate, f, g, ph, q); } void new_##F##C(S* r, size_t n, uint64_t rate, T f, T g, T ph, T q) { new (r) S(F##Chirp<T, TIME_DOMAIN>(n, rate, f, g, ph, q)); }
G0(Sine) G0(Square) G1(Sawtooth) G1(Pwm)
T saw(T phase, T tilt) { return impl::Sawtooth(phase, tilt); }
T pwm(T phase, T fill) { return impl::Pwm(phase, fill); }
#endif
}
