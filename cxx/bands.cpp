// instantiation unit: bilinear and band transforms
#include <dspbb/LTISystems/DiscretizationTransforms.hpp>
#include <dspbb/Filtering/IIR/BandTransforms.hpp>
#include <new>
using namespace dspbb;
using T = double;
using Zpk = DiscreteZeroPoleGain<T>;
using CZpk = ContinuousZeroPoleGain<T>;
extern "C" {
void bilinear(Zpk* r, const CZpk* s, double rate) { new (r) Zpk(BilinearTransform(*s, rate)); }
void bilinear_warp(Zpk* r, const CZpk* s, double rate, double w) { new (r) Zpk(BilinearTransform(*s, rate, std::optional<double>(w))); }
void mapz1(Zpk* r, const Zpk* s, double sg, double a0, double a1) { new (r) Zpk(impl::MapZDomain(*s, sg, a0, a1)); }
void mapz2(Zpk* r, const Zpk* s, double sg, double a0, double a1, double a2) { new (r) Zpk(impl::MapZDomain(*s, sg, a0, a1, a2)); }
void lowpass(Zpk* r, const Zpk* s, double to) { new (r) Zpk(Halfband2Lowpass(*s, to)); }
void highpass(Zpk* r, const Zpk* s, double to) { new (r) Zpk(Halfband2Highpass(*s, to)); }
void bandpass(Zpk* r, const Zpk* s, double a, double b) { new (r) Zpk(Halfband2Bandpass(*s, a, b)); }
void bandstop(Zpk* r, const Zpk* s, double a, double b) { new (r) Zpk(Halfband2Bandstop(*s, a, b)); }
void lowpass_f(Zpk* r, const Zpk* s, float to) { new (r) Zpk(Halfband2Lowpass(*s, to)); }
void highpass_f(Zpk* r, const Zpk* s, float to) { new (r) Zpk(Halfband2Highpass(*s, to)); }
void bandpass_f(Zpk* r, const Zpk* s, float a, float b) { new (r) Zpk(Halfband2Bandpass(*s, a, b)); }
void bandstop_f(Zpk* r, const Zpk* s, float a, float b) { new (r) Zpk(Halfband2Bandstop(*s, a, b)); }
}
