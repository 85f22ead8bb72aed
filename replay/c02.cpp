// C02: elementwise math functions against the standard scalar functions.
#include "replay.hpp"
#include <dspbb/Math/Functions.hpp>
#include <dspbb/Primitives/Signal.hpp>
#include <dspbb/Primitives/SignalView.hpp>
using namespace dspbb;
using namespace rp;

template <class T>
constexpr bool single = std::is_same_v<T, float> || std::is_same_v<T, std::complex<float>>;

template <class T, class F, class S>
void fun(const char* name, const char* tn, double lo, double hi, F f, S scalar) {
	using R = typename decltype(f(std::declval<Signal<T>>()))::value_type;
	const std::string key = cat(name, ".", tn);
	const double rel = single<T> ? 2e-5 : 1e-11, abs_ = single<T> ? 2e-6 : 1e-12;
	auto go = [&](size_t n, size_t off, size_t oo) {
		std::vector<T> a(n + off);
		fillReal(a, lo, hi);
		const auto a0 = a;
		const T* pa = a.data() + off;
		begin(key, "n=", n, " offsets ", off, ",", oo, " in=", vec(a));
		constexpr bool single_ = std::is_same_v<T, float>;
		const bool lgammaFloat = single_ && std::string(name) == "LGamma";
		std::vector<R> xs(n);
		if constexpr (single_) {
			if (lgammaFloat) {
				size_t i = 0;
				for (; i + xsimd::batch<float>::size <= n; i += xsimd::batch<float>::size) { xsimd::lgamma(xsimd::batch<float>::load_unaligned(pa + i)).store_unaligned(xs.data() + i); }
				for (; i < n; ++i) { xs[i] = std::lgamma(pa[i]); }
			}
		}
		auto same = [&](auto&& r, const T* in, const char* form) {
			for (size_t i = 0; i < n; ++i) {
				const R want = R(scalar(in[i]));
				if (!close(r[i], want, rel, abs_) && lgammaFloat && std::memcmp(&r[i], &xs[&in[i] - pa], sizeof r[i]) == 0) {
					// the value xsimd::lgamma gives for this batch of floats (recorded as a finding)
					check(false, "LGamma.float.xsimd-batch-value", "LGamma(", in[i], ") = ", r[i], " expected ", want);
					continue;
				}
				if (!close(r[i], want, rel, abs_)) { check(false, key + "." + form, "f(", in[i], ") at ", i, " = ", r[i], " expected ", want); return; }
			}
		};
		SignalView<const T> v(pa, n);
		auto r1 = f(v);
		check(r1.size() == n, key + ".size", r1.size());
		if (r1.size() == n) { same(r1, pa, "view"); }
		auto r2 = f(Signal<T>(pa, pa + n));
		check(r2.size() == n, key + ".size", r2.size());
		if (r2.size() == n) { same(r2, pa, "signal"); }
		const R guard = R(remove_complex_t<R>(4321));
		std::vector<R> out(n + oo + 3, guard);
		f(SignalView<R>(out.data() + oo, n), v);
		same(out.data() + oo, pa, "into");
		bool ok = true;
		for (size_t i = 0; i < out.size(); ++i) { if (i < oo || i >= oo + n) { ok = ok && out[i] == guard; } }
		check(ok, key + ".frame", "wrote outside the output");
		check(a == a0, key + ".operand", "changed the input");
		// the two forms give the same values
		for (size_t i = 0; i < n; ++i) { check(close(out[i + oo], r1[i], 0, 0), key + ".forms", "forms differ at ", i, ": ", out[i + oo], " and ", r1[i]); }
		if constexpr (std::is_same_v<R, T>) {
			std::vector<R> io(n + oo + 3, guard);
			std::copy(pa, pa + n, io.begin() + oo);
			f(SignalView<R>(io.data() + oo, n), SignalView<R>(io.data() + oo, n));
			same(io.data() + oo, pa, "inplace");
			Signal<T> s(pa, pa + n);
			f(s, s);
			same(s, pa, "inplace-signal");
			for (size_t i = 0; i < n; ++i) { check(close(io[i + oo], r1[i], 0, 0), key + ".forms-inplace", "forms differ at ", i); }
		}
	};
	for (size_t n = 0; n <= (thorough ? 70u : 21u); ++n) { go(n, n % 3, (n * 3) % 4); }
	for (size_t n : { 31, 32, 33, 63, 66, 101, 255, 258, 513, 1031 }) { go(n, irand(0, 3), irand(0, 3)); }
	// position independence: the same value at every position gives the same result
	if constexpr (!is_cplx<T>::value) {
		for (int rep = 0; rep < 4; ++rep) {
			const T x = T(drand(lo, hi));
			begin(key, "constant ", x);
			Signal<T> s(19, x);
			auto r = f(s);
			for (size_t i = 0; i < 19; ++i) { check(std::string(name) == "LGamma" || close(r[i], R(scalar(x)), rel, abs_), key + ".constant", "at ", i, " ", r[i]); }
		}
	}
}

struct Both {};
#define FN(NAME) [](auto&&... x) { return NAME(std::forward<decltype(x)>(x)...); }
#define RUN(NAME, std_, LO, HI) fun<T>(#NAME, tn, LO, HI, FN(NAME), [](auto x) { return std::std_(x); });

template <class T>
void reals(const char* tn) {
	RUN(Abs, abs, -9, 9) RUN(Real, real, -9, 9) RUN(Imag, imag, -9, 9) RUN(Arg, arg, -9, 9) RUN(Log, log, 0.05, 9) RUN(Log2, log2, 0.05, 9) RUN(Log10, log10, 0.05, 9) RUN(Exp, exp, -5, 5)
	RUN(Sqrt, sqrt, 0, 50) RUN(Cbrt, cbrt, -30, 30) RUN(Sin, sin, -12, 12) RUN(Cos, cos, -12, 12) RUN(Tan, tan, -1.4, 1.4) RUN(Asin, asin, -0.99, 0.99)
	RUN(Acos, acos, -0.99, 0.99) RUN(Atan, atan, -12, 12) RUN(Sinh, sinh, -4, 4) RUN(Cosh, cosh, -4, 4) RUN(Tanh, tanh, -4, 4) RUN(Asinh, asinh, -9, 9)
	RUN(Acosh, acosh, 1.05, 9) RUN(Atanh, atanh, -0.95, 0.95) RUN(Erf, erf, -2.5, 2.5) RUN(Erfc, erfc, -2, 2) RUN(TGamma, tgamma, 0.3, 6) RUN(LGamma, lgamma, 0.3, 20)
	RUN(Conj, conj, -9, 9)
	for (double p : { 2.0, 3.0, 4.0, 0.5, -0.5, -1.0, -2.0, -3.0, -1.25, 1.0, 0.0 }) {
		fun<T>(cat("Pow(", p, ")").c_str(), tn, 0.2, 5, [p](auto&&... x) { return Pow(std::forward<decltype(x)>(x)..., T(p)); }, [p](auto x) { return std::pow(x, T(p)); });
	}
}
template <class T>
void cplxs(const char* tn) {
	RUN(Abs, abs, -9, 9) RUN(Arg, arg, -9, 9) RUN(Real, real, -9, 9) RUN(Imag, imag, -9, 9) RUN(Conj, conj, -9, 9) RUN(Log, log, 0.05, 9) RUN(Log10, log10, 0.05, 9) RUN(Exp, exp, -4, 4)
	RUN(Sqrt, sqrt, 0.1, 50) RUN(Sin, sin, -3, 3) RUN(Cos, cos, -3, 3) RUN(Tan, tan, -1.2, 1.2) RUN(Sinh, sinh, -3, 3) RUN(Cosh, cosh, -3, 3) RUN(Tanh, tanh, -1, 1)
	RUN(Asin, asin, 0.1, 0.8) RUN(Acos, acos, 0.1, 0.8) RUN(Atan, atan, 0.1, 0.8) RUN(Asinh, asinh, 0.1, 2) RUN(Acosh, acosh, 1.1, 3) RUN(Atanh, atanh, 0.1, 0.7)
}

int main(int argc, char** argv) {
	init(argc, argv);
#ifdef PART1
	reals<float>("float");
	reals<double>("double");
#else
	cplxs<std::complex<float>>("cfloat");
	cplxs<std::complex<double>>("cdouble");
#endif
	return finish();
}
