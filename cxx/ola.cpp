// instantiation unit: overlap-add
#include <dspbb/Math/OverlapAdd.hpp>
#include <dspbb/Primitives/Signal.hpp>
#include <dspbb/Primitives/SignalView.hpp>
using namespace dspbb;
#ifdef A_C
using U = std::complex<double>;
#else
using U = double;
#endif
#ifdef B_C
using W = std::complex<double>;
#else
using W = double;
#endif
using R = multiplies_result_t<U, W>;
using V = SignalView<R>;
using CU = SignalView<const U>;
using CW = SignalView<const W>;
using S = Signal<R>;
extern "C" {
#ifdef API
void o_full(R* o, size_t no, const U* u, size_t nu, const W* v, size_t nv, size_t chunk, bool clear) { OverlapAdd(V(o, no), CU(u, nu), CW(v, nv), CONV_FULL, chunk, clear); }
void o_central(R* o, size_t no, const U* u, size_t nu, const W* v, size_t nv, size_t chunk, bool clear) { OverlapAdd(V(o, no), CU(u, nu), CW(v, nv), CONV_CENTRAL, chunk, clear); }
void o_range_new(S* r, const U* u, size_t nu, const W* v, size_t nv, size_t off, size_t len, size_t chunk) { new (r) S(OverlapAdd(CU(u, nu), CW(v, nv), off, len, chunk)); }
void o_full_new(S* r, const U* u, size_t nu, const W* v, size_t nv, size_t chunk) { new (r) S(OverlapAdd(CU(u, nu), CW(v, nv), CONV_FULL, chunk)); }
void o_central_new(S* r, const U* u, size_t nu, const W* v, size_t nv, size_t chunk) { new (r) S(OverlapAdd(CU(u, nu), CW(v, nv), CONV_CENTRAL, chunk)); }
#elif defined(SIZES)
size_t next_pow2(size_t n) { return impl::ola::NextPowerOfTwo(n); }
size_t practical(size_t n, size_t m) { return impl::ola::OptimalPracticalSize(n, m); }
double theoretical(double m) { return impl::ola::OptimalTheoreticalSize(m); }
#else
void o_range(R* o, size_t no, const U* u, size_t nu, const W* v, size_t nv, size_t off, size_t chunk, bool clear) { OverlapAdd(V(o, no), CU(u, nu), CW(v, nv), off, chunk, clear); }
#endif
}
