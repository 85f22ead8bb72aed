// instantiation unit: tap transforms and window-method designs
#include <dspbb/Filtering/FIR.hpp>
#include <dspbb/Filtering/Resample.hpp>
using namespace dspbb;
using T = double;
using V = SignalView<T>;
using CV = SignalView<const T>;
extern "C" {
// a window function: fills the signal
void ext_window(T* o, size_t n);
}
struct Window {
	template <class S>
	void operator()(S&& s) const { ext_window(s.data(), s.size()); }
};
extern "C" {
void mirror(T* o, size_t no, T* a, size_t na) { fir::MirrorResponse(V(o, no), V(a, na)); }
void mirror_self(T* o, size_t no) { fir::MirrorResponse(V(o, no), V(o, no)); }
void complement(T* o, size_t no, T* a, size_t na) { fir::ComplementaryResponse(V(o, no), V(a, na)); }
void complement_self(T* o, size_t no) { fir::ComplementaryResponse(V(o, no), V(o, no)); }
void shift(T* o, size_t no, T* a, size_t na, T f) { fir::ShiftResponse(V(o, no), V(a, na), f); }
void shift_self(T* o, size_t no, T f) { fir::ShiftResponse(V(o, no), V(o, no), f); }
void hilbert_odd(T* o, size_t no, T* a, size_t na) { V out(o, no); fir::HalfbandToHilbertOdd(out, V(a, na)); }
void hilbert_self(T* o, size_t no) { V out(o, no); fir::HalfbandToHilbertOdd(out, out); }
void hilbert_even(T* o, size_t no, T* a, size_t na) { V out(o, no); fir::HalfbandToHilbertEven(out, V(a, na)); }
void lowpass_view(T* o, size_t no, T cutoff, const T* w, size_t nw) { fir::KernelWindowedLowpass(V(o, no), cutoff, CV(w, nw)); }
void lowpass_func(T* o, size_t no, T cutoff) { fir::KernelWindowedLowpass(V(o, no), cutoff, Window{}); }
void design_lowpass(T* o, size_t no, T cutoff, const T* w, size_t nw) { DesignFilter(V(o, no), Fir.Lowpass.Windowed.Cutoff(cutoff).Window(CV(w, nw))); }
void design_highpass(T* o, size_t no, T cutoff, const T* w, size_t nw) { DesignFilter(V(o, no), Fir.Highpass.Windowed.Cutoff(cutoff).Window(CV(w, nw))); }
void design_bandpass(T* o, size_t no, T lower, T upper, const T* w, size_t nw) { DesignFilter(V(o, no), Fir.Bandpass.Windowed.Band(lower, upper).Window(CV(w, nw))); }
void design_bandstop(T* o, size_t no, T lower, T upper, const T* w, size_t nw) { DesignFilter(V(o, no), Fir.Bandstop.Windowed.Band(lower, upper).Window(CV(w, nw))); }
}
