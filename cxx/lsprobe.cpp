// instantiation unit: what the least-squares designs hand to their kernel.
// An overload of the kernel for the view type used here, declared before the library's, evaluates the response and the weight it is given at one frequency.
#include <cstring>
#include <dspbb/Primitives/Signal.hpp>
#include <dspbb/Primitives/SignalView.hpp>
namespace dspbb::fir {
template <class Response, class Weight>
inline void probe(double* out, Response response, Weight weight, size_t grid) {
	const double f = out[0];
	out[1] = response(f);
	out[2] = weight(f);
	std::memcpy(out + 3, &grid, sizeof grid);
}
template <class Response, class Weight>
void KernelLeastSquares(BasicSignalView<double, TIME_DOMAIN>& out, Response response, Weight weight, size_t grid) { probe(out.data(), response, weight, grid); }
template <class Response, class Weight>
void KernelLeastSquares(BasicSignal<double, TIME_DOMAIN>& out, Response response, Weight weight, size_t grid) { probe(out.data(), response, weight, grid); }
} // namespace dspbb::fir
#include <dspbb/Filtering/FIR.hpp>
#include <dspbb/Filtering/Resample.hpp>
using namespace dspbb;
using T = double;
extern "C" {
T ext_response(T id, T f);
T ext_weight(T id, T f);
}
struct Fun {
	double id;
	T operator()(T x) const { return ext_response(id, x); }
};
struct Fun2 {
	double id;
	T operator()(T x) const { return ext_weight(id, x); }
};
template <class... X>
inline void load(const T* i, X&... x) { ((x = *i++), ...); }
#define SPLITLS(d) d.cutoffBegin, d.cutoffEnd, d.weightLow, d.weightTransition, d.weightHigh
#define BANDLS(d) d.lowerBegin, d.lowerEnd, d.upperBegin, d.upperEnd, d.weightLow, d.weightTransition1, d.weightMid, d.weightTransition2, d.weightHigh
namespace ls = dspbb::impl::least_squares;
#define DESIGN(N, D, F) \
	extern "C" void N(T* o, const T* i, size_t g) { \
		ls::D d{}; \
		load(i, F(d)); \
		d.grid = g; \
		SignalView<T> v(o, 4); \
		DesignFilter(v, d); \
	}
#define COMMA ,
#define ARBLS(d) d.responseFunc.id, d.weightFunc.id
#define HILLS(d) d.transitionWidth, d.transitionWeight
DESIGN(ls_low, LowpassDesc<T>, SPLITLS)
DESIGN(ls_high, HighpassDesc<T>, SPLITLS)
DESIGN(ls_pass, BandpassDesc<T>, BANDLS)
DESIGN(ls_stop, BandstopDesc<T>, BANDLS)
DESIGN(ls_arb, ArbitraryDesc<Fun COMMA Fun2>, ARBLS)
extern "C" void ls_hilbert(T* o, const T* i, size_t g) {
	ls::HilbertDesc<T> d{};
	load(i, HILLS(d));
	d.grid = g;
	BasicSignal<T, TIME_DOMAIN> v(5);
	v[0] = o[0];
	DesignFilter(v, d);
	std::memcpy(o + 1, v.data() + 1, 24);
}
