// instantiation unit: filter descriptions, one setter at a time, fields by name
#include <dspbb/Filtering/FIR.hpp>
#include <dspbb/Filtering/IIR.hpp>
using namespace dspbb;
using T = double;
struct Win {
	double id;
	template <class S>
	void operator()(S&&) const {}
};
struct Win2 {
	double id;
	template <class S>
	void operator()(S&&) const {}
};
struct Fun {
	double id;
	template <class X>
	X operator()(X x) const { return x; }
};
struct Fun2 {
	double id;
	template <class X>
	X operator()(X x) const { return x; }
};
template <class, class = void>
struct grid_of {
	template <class D>
	static void get(D&, size_t) {}
	template <class D>
	static size_t put(const D&) { return 0; }
};
template <class X>
struct grid_of<X, std::void_t<decltype(X::grid)>> {
	static void get(X& d, size_t g) { d.grid = g; }
	static size_t put(const X& d) { return d.grid; }
};
// the fields of a description in the order of the table in props/c23.py
#define SPLITW(d) d.cutoff, d.window.id
#define BANDW(d) d.lower, d.upper, d.window.id
#define WINDOW(d) d.window.id
#define ARBW(d) d.responseFunc.id, d.window.id
#define ARBLS(d) d.responseFunc.id, d.weightFunc.id
#define SPLITLS(d) d.cutoffBegin, d.cutoffEnd, d.weightLow, d.weightTransition, d.weightHigh
#define BANDLS(d) d.lowerBegin, d.lowerEnd, d.upperBegin, d.upperEnd, d.weightLow, d.weightTransition1, d.weightMid, d.weightTransition2, d.weightHigh
#define HILLS(d) d.transitionWidth, d.transitionWeight
#define SPLIT(d) d.cutoff
#define BAND(d) d.lower, d.upper
#define SPLIT1(d) d.cutoff, d.passbandRipple
#define BAND1(d) d.lower, d.upper, d.passbandRipple
#define SPLIT2(d) d.cutoff, d.stopbandRipple
#define BAND2(d) d.lower, d.upper, d.stopbandRipple
#define SPLIT3(d) d.cutoff, d.passbandRipple, d.stopbandRipple
#define BAND3(d) d.lower, d.upper, d.passbandRipple, d.stopbandRipple

template <class... X>
inline void load(const T* i, X&... x) { ((x = *i++), ...); }
template <class... X>
inline void store(T* o, const X&... x) { ((*o++ = x), ...); }

// name, description, fields, parameters, setter call
#define SETTER(NAME, DESC, FIELDS, CALL, ...)                      \
	extern "C" void NAME(T* o, size_t* g, const T* i, size_t gi, ##__VA_ARGS__) { \
		DESC d{};                                                  \
		load(i, FIELDS(d));                                        \
		grid_of<DESC>::get(d, gi);                                 \
		const auto r = d.CALL;                                     \
		store(o, FIELDS(r));                                       \
		*g = grid_of<std::decay_t<decltype(r)>>::put(r);           \
	}
// first setter of an empty description; also the defaults of the resulting description
#define FIRST(NAME, DESC, FIELDS, CALL, ...)                       \
	extern "C" void NAME(T* o, size_t* g, T* e, size_t* ge, ##__VA_ARGS__) { \
		const auto r = DESC.CALL;                                  \
		const std::decay_t<decltype(r)> d{};                       \
		store(o, FIELDS(r));                                       \
		*g = grid_of<std::decay_t<decltype(r)>>::put(r);           \
		store(e, FIELDS(d));                                       \
		*ge = grid_of<std::decay_t<decltype(r)>>::put(d);          \
	}
#define COMMA ,
namespace w = dspbb::impl::windowed;
namespace ls = dspbb::impl::least_squares;
namespace ii = dspbb::impl;
#define WINDOWED(N, D) \
	SETTER(N##_cutoff, w::D<T COMMA Win>, SPLITW, Cutoff(a), T a) \
	SETTER(N##_window, w::D<T COMMA Win>, SPLITW, Window(Win2{ a }), T a)
#define WINDOWED_BAND(N, D) \
	SETTER(N##_band, w::D<T COMMA Win>, BANDW, Band(a, b), T a, T b) \
	SETTER(N##_window, w::D<T COMMA Win>, BANDW, Window(Win2{ a }), T a)
WINDOWED(w_low, LowpassDesc)
WINDOWED(w_high, HighpassDesc)
WINDOWED_BAND(w_pass, BandpassDesc)
WINDOWED_BAND(w_stop, BandstopDesc)
SETTER(w_hilbert_window, w::HilbertDesc<Win>, WINDOW, Window(Win2{ a }), T a)
SETTER(w_arb_window, w::ArbitraryDesc<Fun COMMA Win>, ARBW, Window(Win2{ a }), T a)
SETTER(w_arb_response, w::ArbitraryDesc<Fun COMMA Win>, ARBW, Response(Fun2{ a }), T a)
#define LEAST(N, D, F) \
	SETTER(N##_cutoff, ls::D<T>, SPLITLS, Cutoff(a, b), T a, T b) \
	SETTER(N##_weight, ls::D<T>, SPLITLS, Weight(a, b, c), T a, T b, T c) \
	SETTER(N##_grid, ls::D<T>, SPLITLS, Grid(a), size_t a) \
	FIRST(N##_first_cutoff, F, SPLITLS, Cutoff(a, b), T a, T b) \
	FIRST(N##_first_weight, F, SPLITLS, Weight(a, b, c), T a, T b, T c)
#define LEAST_BAND(N, D, F) \
	SETTER(N##_band, ls::D<T>, BANDLS, Band(a, b, c, d2), T a, T b, T c, T d2) \
	SETTER(N##_weight, ls::D<T>, BANDLS, Weight(a, b, c, d2, e2), T a, T b, T c, T d2, T e2) \
	SETTER(N##_grid, ls::D<T>, BANDLS, Grid(a), size_t a) \
	FIRST(N##_first_band, F, BANDLS, Band(a, b, c, d2), T a, T b, T c, T d2) \
	FIRST(N##_first_weight, F, BANDLS, Weight(a, b, c, d2, e2), T a, T b, T c, T d2, T e2)
LEAST(ls_low, LowpassDesc, Fir.Lowpass.LeastSquares)
LEAST(ls_high, HighpassDesc, Fir.Highpass.LeastSquares)
LEAST_BAND(ls_pass, BandpassDesc, Fir.Bandpass.LeastSquares)
LEAST_BAND(ls_stop, BandstopDesc, Fir.Bandstop.LeastSquares)
SETTER(ls_hilbert_width, ls::HilbertDesc<T>, HILLS, TransitionWidth(a), T a)
SETTER(ls_hilbert_weight, ls::HilbertDesc<T>, HILLS, TransitionWeight(a), T a)
SETTER(ls_hilbert_grid, ls::HilbertDesc<T>, HILLS, Grid(a), size_t a)
FIRST(ls_hilbert_first_width, Fir.Hilbert.LeastSquares, HILLS, TransitionWidth(a), T a)
FIRST(ls_hilbert_first_weight, Fir.Hilbert.LeastSquares, HILLS, TransitionWeight(a), T a)
SETTER(ls_arb_response, ls::ArbitraryDesc<Fun COMMA Fun>, ARBLS, Response(Fun2{ a }), T a)
SETTER(ls_arb_weight, ls::ArbitraryDesc<Fun COMMA Fun>, ARBLS, Weight(Fun2{ a }), T a)
SETTER(ls_arb_grid, ls::ArbitraryDesc<Fun COMMA Fun>, ARBLS, Grid(a), size_t a)
#define CUT(N, D, F, FAC) \
	SETTER(N##_cutoff, ii::D<T>, F, Cutoff(a), T a) \
	FIRST(N##_first_cutoff, FAC, F, Cutoff(a), T a)
#define BND(N, D, F, FAC) \
	SETTER(N##_band, ii::D<T>, F, Band(a, b), T a, T b) \
	FIRST(N##_first_band, FAC, F, Band(a, b), T a, T b)
#define RIP(N, D, F, FAC, S, X) \
	SETTER(N##_##X, ii::D<T>, F, S(a), T a) \
	FIRST(N##_first_##X, FAC, F, S(a), T a)
CUT(bw_low, butterworth::LowpassDesc, SPLIT, Iir.Lowpass.Butterworth)
CUT(bw_high, butterworth::HighpassDesc, SPLIT, Iir.Highpass.Butterworth)
BND(bw_pass, butterworth::BandpassDesc, BAND, Iir.Bandpass.Butterworth)
BND(bw_stop, butterworth::BandstopDesc, BAND, Iir.Bandstop.Butterworth)
CUT(c1_low, chebyshev1::LowpassDesc, SPLIT1, Iir.Lowpass.Chebyshev1)
CUT(c1_high, chebyshev1::HighpassDesc, SPLIT1, Iir.Highpass.Chebyshev1)
BND(c1_pass, chebyshev1::BandpassDesc, BAND1, Iir.Bandpass.Chebyshev1)
BND(c1_stop, chebyshev1::BandstopDesc, BAND1, Iir.Bandstop.Chebyshev1)
RIP(c1_low, chebyshev1::LowpassDesc, SPLIT1, Iir.Lowpass.Chebyshev1, PassbandRipple, pass)
RIP(c1_high, chebyshev1::HighpassDesc, SPLIT1, Iir.Highpass.Chebyshev1, PassbandRipple, pass)
RIP(c1_pass, chebyshev1::BandpassDesc, BAND1, Iir.Bandpass.Chebyshev1, PassbandRipple, pass)
RIP(c1_stop, chebyshev1::BandstopDesc, BAND1, Iir.Bandstop.Chebyshev1, PassbandRipple, pass)
CUT(c2_low, chebyshev2::LowpassDesc, SPLIT2, Iir.Lowpass.Chebyshev2)
CUT(c2_high, chebyshev2::HighpassDesc, SPLIT2, Iir.Highpass.Chebyshev2)
BND(c2_pass, chebyshev2::BandpassDesc, BAND2, Iir.Bandpass.Chebyshev2)
BND(c2_stop, chebyshev2::BandstopDesc, BAND2, Iir.Bandstop.Chebyshev2)
RIP(c2_low, chebyshev2::LowpassDesc, SPLIT2, Iir.Lowpass.Chebyshev2, StopbandRipple, stop)
RIP(c2_high, chebyshev2::HighpassDesc, SPLIT2, Iir.Highpass.Chebyshev2, StopbandRipple, stop)
RIP(c2_pass, chebyshev2::BandpassDesc, BAND2, Iir.Bandpass.Chebyshev2, StopbandRipple, stop)
RIP(c2_stop, chebyshev2::BandstopDesc, BAND2, Iir.Bandstop.Chebyshev2, StopbandRipple, stop)
CUT(el_low, elliptic::LowpassDesc, SPLIT3, Iir.Lowpass.Elliptic)
CUT(el_high, elliptic::HighpassDesc, SPLIT3, Iir.Highpass.Elliptic)
BND(el_pass, elliptic::BandpassDesc, BAND3, Iir.Bandpass.Elliptic)
BND(el_stop, elliptic::BandstopDesc, BAND3, Iir.Bandstop.Elliptic)
RIP(el_low, elliptic::LowpassDesc, SPLIT3, Iir.Lowpass.Elliptic, PassbandRipple, pass)
RIP(el_high, elliptic::HighpassDesc, SPLIT3, Iir.Highpass.Elliptic, PassbandRipple, pass)
RIP(el_pass, elliptic::BandpassDesc, BAND3, Iir.Bandpass.Elliptic, PassbandRipple, pass)
RIP(el_stop, elliptic::BandstopDesc, BAND3, Iir.Bandstop.Elliptic, PassbandRipple, pass)
RIP(el_low, elliptic::LowpassDesc, SPLIT3, Iir.Lowpass.Elliptic, StopbandRipple, stop)
RIP(el_high, elliptic::HighpassDesc, SPLIT3, Iir.Highpass.Elliptic, StopbandRipple, stop)
RIP(el_pass, elliptic::BandpassDesc, BAND3, Iir.Bandpass.Elliptic, StopbandRipple, stop)
RIP(el_stop, elliptic::BandstopDesc, BAND3, Iir.Bandstop.Elliptic, StopbandRipple, stop)

extern "C" {
void normalized(T f) { ii::ThrowIfNotNormalized(f); }
void sorted2(T a, T b) { ii::ThrowIfNotSorted(a, b); }
void sorted4(T a, T b, T c, T d) { ii::ThrowIfNotSorted(a, b, c, d); }

}
