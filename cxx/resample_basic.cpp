// instantiation unit: decimation, expansion, polyphase decomposition
#include <dspbb/Filtering/Resample.hpp>
using namespace dspbb;
#ifdef A_F
using T = float;
#else
using T = double;
#endif
using V = SignalView<T>;
using CV = SignalView<const T>;
using C = std::complex<double>;
extern "C" {
void decimate_into(T* o, size_t no, const T* a, size_t na, size_t rate) { Decimate(V(o, no), CV(a, na), rate); }
void decimate_new(Signal<T>* r, const T* a, size_t na, size_t rate) { new (r) Signal<T>(Decimate(CV(a, na), rate)); }
void decimate_into_c(C* o, size_t no, const C* a, size_t na, size_t rate) { Decimate(SignalView<C>(o, no), SignalView<const C>(a, na), rate); }
void expand_into(T* o, size_t no, const T* a, size_t na, size_t rate) { Expand(V(o, no), CV(a, na), rate); }
void expand_new(Signal<T>* r, const T* a, size_t na, size_t rate) { new (r) Signal<T>(Expand(CV(a, na), rate)); }
void decompose_into(T* o, size_t no, const T* a, size_t na, size_t n) { PolyphaseDecompose(V(o, no), CV(a, na), n); }
void decompose_new(PolyphaseFilter<T, eSignalDomain::TIME>* r, const T* a, size_t na, size_t n) { new (r) PolyphaseFilter<T, eSignalDomain::TIME>(PolyphaseDecompose(CV(a, na), n)); }
void phase(V* r, T* o, size_t no, size_t n, size_t i) { PolyphaseView<T, eSignalDomain::TIME> p{ V(o, no), n }; new (r) V(p[i]); }
void cphase(CV* r, T* o, size_t no, size_t n, size_t i) { const PolyphaseView<T, eSignalDomain::TIME> p{ V(o, no), n }; new (r) CV(p[i]); }
size_t per_phase(T* o, size_t no, size_t n) { return PolyphaseView<T, eSignalDomain::TIME>{ V(o, no), n }.size_per_phase(); }
size_t original(T* o, size_t no, size_t n) { return PolyphaseView<T, eSignalDomain::TIME>{ V(o, no), n }.size_original(); }
size_t phases(T* o, size_t no, size_t n) { return PolyphaseView<T, eSignalDomain::TIME>{ V(o, no), n }.num_phases(); }
void normalize(T* o, size_t no, size_t n) { PolyphaseView<T, eSignalDomain::TIME> p{ V(o, no), n }; PolyphaseNormalize(p); }
}
