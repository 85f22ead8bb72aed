// instantiation unit: Fourier transform layout
#include <dspbb/Math/FFT.hpp>
using namespace dspbb;
#ifdef A_C
using T = std::complex<double>;
#else
using T = double;
#endif
using C = std::complex<double>;
using V = SpectrumView<T>;
using CV = SpectrumView<const T>;
using S = Spectrum<T>;
extern "C" {
#ifdef SHIFT
void shift_into(T* o, size_t no, const T* a, size_t na) { FftShift(V(o, no), CV(a, na)); }
void ishift_into(T* o, size_t no, const T* a, size_t na) { IfftShift(V(o, no), CV(a, na)); }
void shift_in_place(T* o, size_t no) { FftShift(V(o, no), CV(o, no)); }
void ishift_in_place(T* o, size_t no) { IfftShift(V(o, no), CV(o, no)); }
void shift_new(S* r, const S* a) { new (r) S(FftShift(*a)); }
void ishift_new(S* r, const S* a) { new (r) S(IfftShift(*a)); }
double bin2freq(size_t k, size_t n, uint64_t rate) { return FourierBin2Frequency(k, n, rate); }
size_t freq2bin(double f, size_t n, uint64_t rate) { return FourierFrequency2Bin(f, n, rate); }
size_t freq2bin2freq(size_t k, size_t n, uint64_t rate) { return FourierFrequency2Bin(FourierBin2Frequency(k, n, rate), n, rate); }
#else
void rfft_into(C* o, size_t no, const double* a, size_t na) { Fft(SpectrumView<C>(o, no), SignalView<const double>(a, na)); }
void rfft_full(Spectrum<C>* r, const double* a, size_t na) { new (r) Spectrum<C>(Fft(SignalView<const double>(a, na), FFT_FULL)); }
void rfft_half(Spectrum<C>* r, const double* a, size_t na) { new (r) Spectrum<C>(Fft(SignalView<const double>(a, na), FFT_HALF)); }
void cfft_into(C* o, size_t no, const C* a, size_t na) { Fft(SpectrumView<C>(o, no), SignalView<const C>(a, na)); }
void cfft_new(Spectrum<C>* r, const C* a, size_t na) { new (r) Spectrum<C>(Fft(SignalView<const C>(a, na))); }
void irfft_into(double* o, size_t no, const C* a, size_t na) { Ifft(SignalView<double>(o, no), SpectrumView<const C>(a, na)); }
void irfft_full(Signal<double>* r, const C* a, size_t na) { new (r) Signal<double>(Ifft(SpectrumView<const C>(a, na), FFT_FULL)); }
void irfft_half(Signal<double>* r, const C* a, size_t na, bool even) { new (r) Signal<double>(Ifft(SpectrumView<const C>(a, na), FFT_HALF, even)); }
void icfft_into(C* o, size_t no, const C* a, size_t na) { Ifft(SignalView<C>(o, no), SpectrumView<const C>(a, na)); }
void icfft_new(Signal<C>* r, const C* a, size_t na) { new (r) Signal<C>(Ifft(SpectrumView<const C>(a, na))); }
#endif
}
