// C03: sums, means, norms, extrema against direct loops (integer-valued data: exact).
#include "replay.hpp"
#include <dspbb/Math/Statistics.hpp>
#include <dspbb/Primitives/Signal.hpp>
#include <dspbb/Primitives/SignalView.hpp>
using namespace dspbb;
using namespace rp;

template <class T>
void reals(const char* tn, size_t n, size_t off, int kind) {
	const std::string key = cat("real.", tn);
	std::vector<T> buf(n + off + 5);
	fillSmall(buf, kind == 1 ? 1000 : 9);
	if (kind == 2) { for (auto& x : buf) { x = T(-irand(1, 50)); } }
	if (kind == 3) { for (auto& x : buf) { x = T(irand(1, 50)); } }
	// what lies outside the signal must not matter
	for (size_t i = 0; i < buf.size(); ++i) { if (i < off || i >= off + n) { buf[i] = irand(0, 1) ? T(100000) : T(-100000); } }
	const T* p = buf.data() + off;
	begin(key, "n=", n, " offset ", off, " a=", vec(std::vector<T>(p, p + n)));
	long double s = 0, q = 0;
	T mn = n ? p[0] : T(0), mx = mn;
	for (size_t i = 0; i < n; ++i) { s += p[i]; q += (long double)p[i] * p[i]; mn = p[i] < mn ? p[i] : mn; mx = mx < p[i] ? p[i] : mx; }
	const double rel = std::is_same_v<T, float> ? 3e-6 : 1e-13;
	auto go = [&](const auto& v, const char* form) {
		const std::string k = key + "." + form + ".";
		check(Sum(v) == T(s), k + "Sum", Sum(v), " expected ", T(s));
		check(close(SumSquare(v), T(q), kind == 1 ? rel : 0), k + "SumSquare", SumSquare(v), " expected ", T(q));
		check(close(Norm(v), std::sqrt(T(q)), rel), k + "Norm", Norm(v), " expected ", std::sqrt(T(q)));
		check(close(Mean(v), n ? s / n : 0, rel), k + "Mean", Mean(v), " expected ", n ? s / n : 0);
		check(close(MeanSquare(v), n ? q / n : 0, rel), k + "MeanSquare", MeanSquare(v), " expected ", n ? q / n : 0);
		check(close(RootMeanSquare(v), n ? std::sqrt(q / n) : 0, rel), k + "RootMeanSquare", RootMeanSquare(v));
		if (n) {
			check(Min(v) == mn, k + "Min", Min(v), " expected ", mn);
			check(Max(v) == mx, k + "Max", Max(v), " expected ", mx);
		}
	};
	go(SignalView<const T>(p, n), "view");
	go(Signal<T>(p, p + n), "signal");
	go(Spectrum<T>(p, p + n), "spectrum");
}

template <class T>
void cplx(const char* tn, size_t n, size_t off) {
	const std::string key = cat("complex.", tn);
	std::vector<T> buf(n + off + 3);
	fillSmall(buf, 9);
	const T* p = buf.data() + off;
	begin(key, "n=", n, " offset ", off, " a=", vec(std::vector<T>(p, p + n)));
	T s(0);
	for (size_t i = 0; i < n; ++i) { s += p[i]; }
	auto go = [&](const auto& v, const char* form) {
		check(Sum(v) == s, key + "." + form + ".Sum", Sum(v), " expected ", s);
		check(close(Mean(v), n ? s / typename T::value_type(n) : T(0), 1e-5), key + "." + form + ".Mean", Mean(v));
	};
	go(SignalView<const T>(p, n), "view");
	go(Signal<T>(p, p + n), "signal");
}

// one element away from zero at every position: counted exactly once
template <class T>
void impulses(const char* tn, size_t n) {
	for (size_t i = 0; i < n; ++i) {
		begin(cat("impulse.", tn), "n=", n, " element ", i, " = 3");
		Signal<T> v(n, T(0));
		v[i] = T(3);
		check(Sum(v) == T(3), cat("impulse.", tn, ".Sum"), Sum(v));
		check(SumSquare(v) == T(9), cat("impulse.", tn, ".SumSquare"), SumSquare(v));
		check(Max(v) == T(3), cat("impulse.", tn, ".Max"), Max(v));
		v[i] = T(-3);
		check(Min(v) == T(-3), cat("impulse.", tn, ".Min"), Min(v));
		if (n > 1) { check(Max(v) == T(0), cat("impulse.", tn, ".Max0"), Max(v)); }
	}
}

int main(int argc, char** argv) {
	init(argc, argv);
	for (size_t n : sizes(thorough ? 300 : 90, { 127, 128, 129, 255, 257, 500, 1000, 1023, 1025 })) {
		for (int kind = 0; kind < 4; ++kind) {
			reals<float>("float", n, irand(0, 5), kind);
			reals<double>("double", n, irand(0, 5), kind);
		}
		cplx<std::complex<float>>("cfloat", n, irand(0, 3));
		cplx<std::complex<double>>("cdouble", n, irand(0, 3));
	}
	for (size_t n = 1; n <= (thorough ? 140u : 70u); ++n) { impulses<float>("float", n); impulses<double>("double", n); }
	return finish();
}
