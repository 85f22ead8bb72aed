// instantiation unit: the convolution kernels (the real templates from /repo/include)
#include <dspbb/Kernels/Convolution.hpp>
using namespace dspbb;
#define KERNEL(T, sfx) \
	extern "C" void slide_##sfx(T* o, size_t no, const T* a, size_t na, const T* b, size_t nb, ptrdiff_t n) { kernels::ConvolutionSlide(a, a + na, b, b + nb, o, o + no, n, false); } \
	extern "C" void slide_acc_##sfx(T* o, size_t no, const T* a, size_t na, const T* b, size_t nb, ptrdiff_t n) { kernels::ConvolutionSlide(a, a + na, b, b + nb, o, o + no, n, true); } \
	extern "C" void reduce_##sfx(T* o, size_t no, const T* a, size_t na, const T* b, size_t nb, ptrdiff_t n) { kernels::ConvolutionReduceVec(a, a + na, b, b + nb, o, o + no, n, false); } \
	extern "C" void reduce_acc_##sfx(T* o, size_t no, const T* a, size_t na, const T* b, size_t nb, ptrdiff_t n) { kernels::ConvolutionReduceVec(a, a + na, b, b + nb, o, o + no, n, true); }
KERNEL(double, d)
KERNEL(float, f)
