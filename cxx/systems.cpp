// instantiation unit: system representations
#include <dspbb/LTISystems/Systems.hpp>
#include <new>
using namespace dspbb;
using T = double;
using Z = std::complex<T>;
using P = Polynomial<T>;
using F = FactoredPolynomial<T>;
using Zpk = DiscreteZeroPoleGain<T>;
using Tf = DiscreteTransferFunction<T>;
using CZpk = ContinuousZeroPoleGain<T>;
using CTf = ContinuousTransferFunction<T>;
using Cb = CascadedBiquad<T>;
extern "C" {
double zpk_eval(const Zpk* s, const T* x) { return (*s)(*x); }
void zpk_evalc(Z* r, const Zpk* s, const Z* x) { *r = (*s)(*x); }
size_t zpk_order(const Zpk* s) { return s->order(); }
void zpk_copy(Zpk* r, const Zpk* s) { new (r) Zpk(*s); }
void zpk_move(Zpk* r, Zpk* s) { new (r) Zpk(std::move(*s)); }
void zpk_assign(Zpk* r, const Zpk* s) { *r = *s; }
void zpk_massign(Zpk* r, Zpk* s) { *r = std::move(*s); }
double czpk_eval(const CZpk* s, const T* x) { return (*s)(*x); }
double tf_eval(const Tf* s, const T* x) { return (*s)(*x); }
void tf_evalc(Z* r, const Tf* s, const Z* x) { *r = (*s)(*x); }
size_t tf_order(const Tf* s) { return s->order(); }
void tf_make(Tf* r, const Zpk* s) { new (r) Tf(*s); }
void ctf_make(CTf* r, const CZpk* s) { new (r) CTf(*s); }
void tf_copy(Tf* r, const Tf* s) { new (r) Tf(*s); }
void tf_move(Tf* r, Tf* s) { new (r) Tf(std::move(*s)); }
void tf_assign(Tf* r, const Tf* s) { *r = *s; }
void tf_massign(Tf* r, Tf* s) { *r = std::move(*s); }
void tf_polys(Tf* r, const P* a, const P* b) { new (r) Tf(*a, *b); }
double cb_eval(const Cb* s, const T* x) { return (*s)(*x); }
void cb_evalc(Z* r, const Cb* s, const Z* x) { *r = (*s)(*x); }
size_t cb_order(const Cb* s) { return s->order(); }
void cb_make(Cb* r, const Zpk* s) { new (r) Cb(*s); }
void cb_copy(Cb* r, const Cb* s) { new (r) Cb(*s); }
void cb_move(Cb* r, Cb* s) { new (r) Cb(std::move(*s)); }
void cb_assign(Cb* r, const Cb* s) { *r = *s; }
}
