// instantiation unit: filter measurement
#include <dspbb/Filtering/MeasureFilter.hpp>
#include <new>
using namespace dspbb;
using T = double;
using View = SpectrumView<const T>;
using Bands = std::vector<impl::Band>;
using Params = std::vector<impl::BandParameters<T>>;
extern "C" {
const T* extremum_max(const T* f, const T* l) { return impl::FindFirstExtremum(f, l, impl::kernelSize, std::less<T>{}); }
const T* extremum_min(const T* f, const T* l) { return impl::FindFirstExtremum(f, l, impl::kernelSize, std::greater<T>{}); }
using Rev = std::reverse_iterator<const T*>;
const T* extremum_rmax(const T* f, const T* l) { return impl::FindFirstExtremum(Rev(l), Rev(f), impl::kernelSize, std::less<T>{}).base(); }
const T* extremum_rmin(const T* f, const T* l) { return impl::FindFirstExtremum(Rev(l), Rev(f), impl::kernelSize, std::greater<T>{}).base(); }
using Edges = std::pair<std::optional<T>, std::optional<T>>;
void edges_ripple(Edges* r, const T* f, const T* l, bool left, bool right, bool pass) { new (r) Edges(impl::FindBandEdgesRipple<T>(View{ f, l }, left, right, pass)); }
void edges_fit(Edges* r, const T* f, const T* l, bool left, bool right, bool pass, T threshold) { new (r) Edges(impl::FindBandEdgesFit<T>(View{ f, l }, left, right, pass, threshold)); }
T fit_band(const T* f, const T* l, bool pass, bool left, T threshold) { return impl::FitBand<T>(View{ f, l }, pass, left, threshold); }
void ripple(std::optional<T>* r, const T* f, const T* l, bool pass) { *r = impl::MeasureBandRipple<T>(View{ f, l }, pass); }
void bands(Bands* r, const T* f, const T* l, T threshold) { new (r) Bands(impl::ExtractFilterBands<T>(View{ f, l }, threshold)); }
void parametrize(Params* r, const T* f, const T* l, const Bands* b, T threshold) { new (r) Params(impl::ParametrizeFilterBands<T>(View{ f, l }, *b, threshold)); }
void extract(FilterParameters<T>* r, const Bands* b, const Params* p) { new (r) FilterParameters<T>(impl::ExtractFilterParameters<T>(*b, *p)); }
void lowpass(LowpassParameters<T>* r, const T* f, const T* l) { *r = MeasureLowpassFilter<T>(View{ f, l }); }
void highpass(HighpassParameters<T>* r, const T* f, const T* l) { *r = MeasureHighpassFilter<T>(View{ f, l }); }
void bandpass(BandpassParameters<T>* r, const T* f, const T* l) { *r = MeasureBandpassFilter<T>(View{ f, l }); }
void bandstop(BandstopParameters<T>* r, const T* f, const T* l) { *r = MeasureBandstopFilter<T>(View{ f, l }); }
void any(FilterParameters<T>* r, const T* f, const T* l) { new (r) FilterParameters<T>(MeasureFilter<T>(View{ f, l })); }
void response_i(std::pair<Spectrum<T>, Spectrum<T>>* r, const T* f, const T* l, size_t n) { new (r) std::pair<Spectrum<T>, Spectrum<T>>(FrequencyResponse(BasicSignalView<const T, TIME_DOMAIN>{ f, l }, n)); }
void response_z(std::pair<Spectrum<T>, Spectrum<T>>* r, const DiscreteZeroPoleGain<T>* s, size_t n) { new (r) std::pair<Spectrum<T>, Spectrum<T>>(FrequencyResponse(*s, n)); }
void response_t(std::pair<Spectrum<T>, Spectrum<T>>* r, const DiscreteTransferFunction<T>* s, size_t n) { new (r) std::pair<Spectrum<T>, Spectrum<T>>(FrequencyResponse(*s, n)); }
void response_c(std::pair<Spectrum<T>, Spectrum<T>>* r, const CascadedBiquad<T>* s, size_t n) { new (r) std::pair<Spectrum<T>, Spectrum<T>>(FrequencyResponse(*s, n)); }
}
