// instantiation unit: statistics and dot product
#include <complex>
#include <dspbb/Math/DotProduct.hpp>
#include <dspbb/Math/Statistics.hpp>
#include <dspbb/Primitives/Signal.hpp>
#include <dspbb/Primitives/SignalView.hpp>
using namespace dspbb;
using cd = std::complex<double>;
#define ONE(F, T, S) extern "C" T F##_##S(const T* a, size_t n) { return F(SignalView<const T>(a, n)); }
#define WITHMEAN(F, T, S) extern "C" T F##_mean_##S(const T* a, size_t n, T mean) { return F(SignalView<const T>(a, n), mean); }
#define TWO(F, T, S) extern "C" T F##_##S(const T* a, const T* b, size_t n) { return F(SignalView<const T>(a, n), SignalView<const T>(b, n)); }
#define ALL(T, S) \
	ONE(Sum, T, S) ONE(SumSquare, T, S) ONE(Mean, T, S) ONE(MeanSquare, T, S) ONE(RootMeanSquare, T, S) ONE(Norm, T, S) ONE(Min, T, S) ONE(Max, T, S) \
	ONE(Variance, T, S) ONE(StandardDeviation, T, S) ONE(Skewness, T, S) ONE(Kurtosis, T, S) \
	ONE(CorrectedVariance, T, S) ONE(CorrectedStandardDeviation, T, S) ONE(CorrectedSkewness, T, S) ONE(CorrectedKurtosis, T, S) \
	WITHMEAN(Variance, T, S) WITHMEAN(StandardDeviation, T, S) WITHMEAN(Skewness, T, S) WITHMEAN(Kurtosis, T, S) \
	TWO(Covariance, T, S) TWO(CorrectedCovariance, T, S) TWO(Correlation, T, S) TWO(DotProduct, T, S) \
	extern "C" T Covariance_mean_##S(const T* a, const T* b, size_t n, T am, T bm) { return Covariance(SignalView<const T>(a, n), SignalView<const T>(b, n), am, bm); } \
	extern "C" T CentralMoment_##S(const T* a, size_t n, size_t k) { return CentralMoment(SignalView<const T>(a, n), k); } \
	extern "C" T CentralMoment_mean_##S(const T* a, size_t n, size_t k, T mean) { return CentralMoment(SignalView<const T>(a, n), k, mean); } \
	extern "C" T StandardizedMoment_##S(const T* a, size_t n, size_t k) { return StandardizedMoment(SignalView<const T>(a, n), k); } \
	extern "C" T StandardizedMoment_mean_##S(const T* a, size_t n, size_t k, T mean) { return StandardizedMoment(SignalView<const T>(a, n), k, mean); }
#ifdef A_F
ALL(float, f)
#else
ALL(double, d)
extern "C" void Sum_c(cd* r, const cd* a, size_t n) { *r = Sum(SignalView<const cd>(a, n)); }
extern "C" void Mean_c(cd* r, const cd* a, size_t n) { *r = Mean(SignalView<const cd>(a, n)); }
extern "C" void DotProduct_c(cd* r, const cd* a, const cd* b, size_t n) { *r = DotProduct(SignalView<const cd>(a, n), SignalView<const cd>(b, n)); }
extern "C" void DotProduct_dc(cd* r, const double* a, const cd* b, size_t n) { *r = DotProduct(SignalView<const double>(a, n), SignalView<const cd>(b, n)); }
extern "C" void DotProduct_cd(cd* r, const cd* a, const double* b, size_t n) { *r = DotProduct(SignalView<const cd>(a, n), SignalView<const double>(b, n)); }
#endif
