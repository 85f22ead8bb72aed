// instantiation unit: recursive filters
#include <dspbb/Filtering/IIR/Filter.hpp>
#include <dspbb/Primitives/Signal.hpp>
#include <dspbb/Primitives/SignalView.hpp>
#include <new>
using namespace dspbb;
using T = double;
using V = SignalView<T>;
using C = SignalView<const T>;
using S = Signal<T>;
using D1 = DirectFormI<T>;
using D2 = DirectFormII<T>;
using CF = CascadedForm<T>;
using Tf = DiscreteTransferFunction<T>;
using Cb = CascadedBiquad<T>;
extern "C" {
#define FORM(P, ST, SY) \
	void P##_filter(T* o, size_t n, const T* a, const SY* f, ST* s) { Filter(V(o, n), C(a, n), *f, *s); } \
	void P##_filter_in_place(T* o, size_t n, const SY* f, ST* s) { Filter(V(o, n), V(o, n), *f, *s); } \
	void P##_filter_sig(S* o, const S* a, const SY* f, ST* s) { Filter(*o, *a, *f, *s); } \
	void P##_filter_new(S* r, const S* a, const SY* f, ST* s) { new (r) S(Filter(*a, *f, *s)); } \
	double P##_feed(ST* s, const T* x, const SY* f) { return s->feed(*x, *f); } \
	void P##_make(ST* s, size_t n) { new (s) ST(n); } \
	void P##_default(ST* s) { new (s) ST(); } \
	void P##_setorder(ST* s, size_t n) { s->order(n); } \
	void P##_reset(ST* s) { s->reset(); } \
	size_t P##_order(const ST* s) { return s->order(); } \
	void P##_two(T* o, size_t n, const T* a, T* q, size_t m, const T* b, const SY* f, ST* s) { Filter(V(o, n), C(a, n), *f, *s); Filter(V(q, m), C(b, m), *f, *s); }
FORM(df1, D1, Tf)
FORM(df2, D2, Tf)
FORM(cas, CF, Cb)
}
