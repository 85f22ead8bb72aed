// instantiation unit: the public convolution functions
#include <dspbb/Math/Convolution.hpp>
using namespace dspbb;
extern "C" {
size_t len_full(size_t a, size_t b) { return ConvolutionLength(a, b, CONV_FULL); }
size_t len_central(size_t a, size_t b) { return ConvolutionLength(a, b, CONV_CENTRAL); }
void conv_into(double* o, size_t no, const double* a, size_t na, const double* b, size_t nb, size_t off) {
	Convolution(SignalView<double>(o, no), SignalView<const double>(a, na), SignalView<const double>(b, nb), off, true);
}
void conv_into_acc(double* o, size_t no, const double* a, size_t na, const double* b, size_t nb, size_t off) {
	Convolution(SignalView<double>(o, no), SignalView<const double>(a, na), SignalView<const double>(b, nb), off, false);
}
void conv_full(double* o, size_t no, const double* a, size_t na, const double* b, size_t nb, bool clear) {
	Convolution(SignalView<double>(o, no), SignalView<const double>(a, na), SignalView<const double>(b, nb), CONV_FULL, clear);
}
void conv_central(double* o, size_t no, const double* a, size_t na, const double* b, size_t nb, bool clear) {
	Convolution(SignalView<double>(o, no), SignalView<const double>(a, na), SignalView<const double>(b, nb), CONV_CENTRAL, clear);
}
void conv_new(Signal<double>* r, const double* a, size_t na, const double* b, size_t nb, size_t off, size_t len) {
	new (r) Signal<double>(Convolution(SignalView<const double>(a, na), SignalView<const double>(b, nb), off, len));
}
void conv_new_full(Signal<double>* r, const double* a, size_t na, const double* b, size_t nb) {
	new (r) Signal<double>(Convolution(SignalView<const double>(a, na), SignalView<const double>(b, nb), CONV_FULL));
}
void conv_new_central(Signal<double>* r, const double* a, size_t na, const double* b, size_t nb) {
	new (r) Signal<double>(Convolution(SignalView<const double>(a, na), SignalView<const double>(b, nb), CONV_CENTRAL));
}
}
