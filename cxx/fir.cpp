// instantiation unit: FIR filtering
#include <dspbb/Filtering/FIR/Filter.hpp>
using namespace dspbb;
using T = double;
using V = SignalView<T>;
using CV = SignalView<const T>;
using S = Signal<T>;
extern "C" {
void f_conv(T* o, size_t no, const T* a, size_t na, const T* h, size_t nh, T* s, size_t ns) { V st(s, ns); Filter(V(o, no), CV(a, na), CV(h, nh), st, FILTER_CONV); }
void f_ola(T* o, size_t no, const T* a, size_t na, const T* h, size_t nh, T* s, size_t ns, size_t chunk) { V st(s, ns); Filter(V(o, no), CV(a, na), CV(h, nh), st, FILTER_OLA, chunk); }
void f_conv_new(S* r, const T* a, size_t na, const T* h, size_t nh, T* s, size_t ns) { V st(s, ns); new (r) S(Filter(CV(a, na), CV(h, nh), st, FILTER_CONV)); }
void f_ola_new(S* r, const T* a, size_t na, const T* h, size_t nh, T* s, size_t ns, size_t chunk) { V st(s, ns); new (r) S(Filter(CV(a, na), CV(h, nh), st, FILTER_OLA, chunk)); }
void f_conv_sig(S* o, const S* a, const S* h, S* s) { Filter(*o, *a, *h, *s, FILTER_CONV); }
// a stream cut in two blocks
void f_two(T* o, T* p, const T* a, size_t na, const T* b, size_t nb, const T* h, size_t nh, T* s, size_t ns) {
	V st(s, ns);
	Filter(V(o, na), CV(a, na), CV(h, nh), st, FILTER_CONV);
	Filter(V(p, nb), CV(b, nb), CV(h, nh), st, FILTER_CONV);
}
void f_full_conv(T* o, size_t no, const T* a, size_t na, const T* h, size_t nh) { Filter(V(o, no), CV(a, na), CV(h, nh), CONV_FULL, FILTER_CONV); }
void f_full_ola(T* o, size_t no, const T* a, size_t na, const T* h, size_t nh, size_t chunk) { Filter(V(o, no), CV(a, na), CV(h, nh), CONV_FULL, FILTER_OLA, chunk); }
void f_central_conv(T* o, size_t no, const T* a, size_t na, const T* h, size_t nh) { Filter(V(o, no), CV(a, na), CV(h, nh), CONV_CENTRAL, FILTER_CONV); }
void f_central_ola(T* o, size_t no, const T* a, size_t na, const T* h, size_t nh, size_t chunk) { Filter(V(o, no), CV(a, na), CV(h, nh), CONV_CENTRAL, FILTER_OLA, chunk); }
void f_full_conv_new(S* r, const T* a, size_t na, const T* h, size_t nh) { new (r) S(Filter(CV(a, na), CV(h, nh), CONV_FULL, FILTER_CONV)); }
void f_full_ola_new(S* r, const T* a, size_t na, const T* h, size_t nh, size_t chunk) { new (r) S(Filter(CV(a, na), CV(h, nh), CONV_FULL, FILTER_OLA, chunk)); }
void f_central_conv_new(S* r, const T* a, size_t na, const T* h, size_t nh) { new (r) S(Filter(CV(a, na), CV(h, nh), CONV_CENTRAL, FILTER_CONV)); }
void f_central_ola_new(S* r, const T* a, size_t na, const T* h, size_t nh, size_t chunk) { new (r) S(Filter(CV(a, na), CV(h, nh), CONV_CENTRAL, FILTER_OLA, chunk)); }
void f_shift_state(T* s, size_t ns, const T* a, size_t na) { V st(s, ns); impl::ShiftFilterState(st, CV(a, na)); }
}
