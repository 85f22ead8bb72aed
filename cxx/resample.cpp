// instantiation unit: interpolation and rational resampling through a polyphase filter
#include <dspbb/Filtering/Resample.hpp>
#include <new>
using namespace dspbb;
using V = SignalView<double>;
using CV = SignalView<const double>;
using PV = PolyphaseView<double, eSignalDomain::TIME>;
using Q = Rational<int64_t>;
extern "C" {
void interp_into(InterpolSuspensionPoint* r, double* o, size_t no, const double* a, size_t na, double* f, size_t nf, size_t n, size_t first) {
	const PV p{ V(f, nf), n };
	*r = Interpolate(V(o, no), CV(a, na), p, first);
}
void interp_new(Signal<double>* r, const double* a, size_t na, double* f, size_t nf, size_t n, size_t first, size_t length) {
	const PV p{ V(f, nf), n };
	new (r) Signal<double>(Interpolate(CV(a, na), p, first, length));
}
void resample_into(ResampleSuspensionPoint* r, double* o, size_t no, const double* a, size_t na, double* f, size_t nf, size_t n, const Q* rate, const Q* start) {
	const PV p{ V(f, nf), n };
	*r = Resample(V(o, no), CV(a, na), p, *rate, *start);
}
void resample_new(Signal<double>* r, const double* a, size_t na, double* f, size_t nf, size_t n, const Q* rate, const Q* start, size_t length) {
	const PV p{ V(f, nf), n };
	new (r) Signal<double>(Resample(CV(a, na), p, *rate, *start, length));
}
double dot_sample(const double* a, size_t na, const double* f, size_t nf, size_t q) { return impl::DotProductSample(CV(a, na), CV(f, nf), q); }
size_t ilen_full(size_t na, size_t nf, size_t n) { return InterpolLength(na, nf, n, CONV_FULL); }
size_t ilen_central(size_t na, size_t nf, size_t n) { return InterpolLength(na, nf, n, CONV_CENTRAL); }
void rlen_full(Q* r, size_t na, size_t nf, size_t n, const Q* rate) { *r = ResampleLength(na, nf, n, *rate, CONV_FULL); }
void rlen_central(Q* r, size_t na, size_t nf, size_t n, const Q* rate) { *r = ResampleLength(na, nf, n, *rate, CONV_CENTRAL); }
void rdelay(Q* r, size_t nf, size_t n, const Q* rate) { *r = ResampleDelay(nf, n, *rate); }
double icutoff(size_t n) { return InterpolFilterCutoff(n); }
double rcutoff(const Q* rate, size_t n) { return ResampleFilterCutoff(*rate, n); }
void isuspend(InterpolSuspensionPoint* r, size_t next, size_t nf, size_t n) { *r = impl::FindInterpolSuspensionPoint(next, nf, n); }
void rsuspend(ResampleSuspensionPoint* r, const Q* next, size_t nf, size_t n, const Q* rate) { *r = impl::FindResampleSuspensionPoint(*next, nf, n, *rate); }
}
