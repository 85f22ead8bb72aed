// C18: ranges and windows against their formulas.
#include "replay.hpp"
#include <dspbb/Filtering/Windowing.hpp>
#include <dspbb/Generators/Spaces.hpp>
#include <functional>
using namespace dspbb;
using namespace rp;
using L = long double;
static const L PI = 3.14159265358979323846264338327950288L;

static L I0(L x) { L s = 1, t = 1; for (int k = 1; k < 400 && t > s * 1e-20L; ++k) { t *= (x / 2 / k) * (x / 2 / k); s += t; } return s; }
static L cheb(size_t n, L x) { if (x > 1) { return coshl(n * acoshl(x)); } if (x < -1) { return (n % 2 ? -1 : 1) * coshl(n * acoshl(-x)); } return cosl(n * acosl(x)); }

struct Win { std::string name; std::function<L(size_t, size_t)> f; };

template <class T, class Into, class New, class Fn>
void one(const char* tn, const Win& w, Into into, New make, Fn fn, double tol, size_t maxN = 5000) {
	using C = std::complex<T>;
	for (size_t n : sizes(thorough ? 300 : 50, {513})) {
		if (n < 2 || n > maxN) { continue; }
		const std::string k = cat(w.name, ".", tn);
		begin(k, "n=", n);
		Signal<T> big(n + 8, T(77));
		SignalView<T> o(big.data() + 4, n);
		for (auto& x : o) { x = T(irand(-5, 5)); }
		into(o);
		const auto r = make(T(0), n);
		const auto rc = make(C(0), n);
		Signal<C> oc(n, C(3, 4));
		into(oc);
		Signal<T> of(n, T(-9));
		fn(of);
		check(r.size() == n && rc.size() == n, k + ".size", r.size());
		for (size_t i = 0; i < 4; ++i) { check(big[i] == T(77) && big[n + 4 + i] == T(77), k + ".frame", "writes outside the output"); }
		for (size_t i = 0; i < n && r.size() == n && rc.size() == n; ++i) {
			const double e = double(w.f(i, n));
			check(std::abs(double(o[i]) - e) < tol, k + ".value", "sample ", i, " is ", o[i], " instead of ", e);
			check(std::abs(double(r[i]) - e) < tol && o[i] == r[i], k + ".returned", "sample ", i, " is ", r[i], " instead of ", e);
			check(std::abs(double(of[i]) - e) < tol, k + ".functor", "sample ", i, " is ", of[i], " instead of ", e);
			check(std::abs(oc[i].real() - e) < tol && std::abs(double(oc[i].imag())) < tol, k + ".complex", "sample ", i, " is ", oc[i]);
			check(std::abs(rc[i].real() - e) < tol && std::abs(double(rc[i].imag())) < tol, k + ".complex-returned", "sample ", i, " is ", rc[i]);
			check(std::abs(double(o[i] - o[n - 1 - i])) < tol, k + ".symmetry", "sample ", i);
		}
	}
}

static std::function<L(size_t, size_t)> cosum(std::vector<L> c) {
	return [c](size_t i, size_t n) { L s = 0; for (size_t k = 0; k < c.size(); ++k) { s += c[k] * cosl(2 * PI * k * i / (n - 1)); } return s; };
}

#define W0(F, f, formula) one<T>(tn, Win{ #F, formula }, [](auto&& o) { F##Window(o); }, [](auto t, size_t n) { return F##Window<decltype(t)>(n); }, [](auto& o) { windows::f(o); }, tol)

template <class T>
void windowsOf(const char* tn, double tol) {
	W0(Hamming, hamming, cosum({ 0.54L, -0.46L }));
	W0(Blackman, blackman, cosum({ 0.42L, -0.5L, 0.08L }));
	W0(BlackmanHarris, blackmanHarris, cosum({ 0.35875L, -0.48829L, 0.14128L, -0.01168L }));
	W0(FlatTop, flattop, cosum({ 0.21557895L, -0.41663158L, 0.277263158L, -0.083578947L, 0.006947368L }));
	W0(Rectangular, rectangular, [](size_t, size_t) { return L(1); });
	W0(Triangular, triangular, [](size_t i, size_t n) { return 1 - fabsl(2.0L * i / (n - 1) - 1); });
	W0(Lanczos, lanczos, [](size_t i, size_t n) { const L x = PI * (2.0L * i / (n - 1) - 1); return fabsl(x) < 1e-12L ? 1 : sinl(x) / x; });
}

template <class T, class F>
void param(const char* tn, const std::string& name, double v, F formula, double tol, size_t maxN = 5000) {
	using C = std::complex<T>;
	const T p = T(v);
	const Win w{ cat(name, "(", v, ")"), formula };
	if (name == "Gaussian") {
		for (size_t n : sizes(thorough ? 300 : 50, {257})) {
			if (n < 2) { continue; }
			const std::string k = cat(w.name, ".", tn);
			begin(k, "n=", n);
			Signal<T> o(n), f(n); Signal<C> oc(n);
			GaussianWindow(o, p); windows::gaussian.sigma(p)(f); GaussianWindow(oc, p);
			const auto r = GaussianWindow<T>(n, p);
			for (size_t i = 0; i < n; ++i) {
				const double e = double(w.f(i, n));
				check(std::abs(o[i] - e) < tol && std::abs(f[i] - e) < tol && std::abs(r[i] - e) < tol && std::abs(oc[i] - C(T(e))) < tol, k + ".value", "sample ", i, " is ", o[i], " instead of ", e);
				check(std::abs(o[i] - o[n - 1 - i]) < tol, k + ".symmetry", "sample ", i);
			}
		}
	}
	else if (name == "Kaiser") {
		for (size_t n : sizes(thorough ? 300 : 50, {257})) {
			if (n < 2) { continue; }
			const std::string k = cat(w.name, ".", tn);
			begin(k, "n=", n);
			Signal<T> o(n), f(n); Signal<C> oc(n);
			KaiserWindow(o, p); windows::kaiser.alpha(p)(f); KaiserWindow(oc, p);
			const auto r = KaiserWindow<T>(n, p);
			for (size_t i = 0; i < n; ++i) {
				const double e = double(w.f(i, n));
				check(std::abs(o[i] - e) < tol && std::abs(f[i] - e) < tol && std::abs(r[i] - e) < tol && std::abs(oc[i] - C(T(e))) < tol, k + ".value", "sample ", i, " is ", o[i], " instead of ", e);
				check(std::abs(o[i] - o[n - 1 - i]) < tol, k + ".symmetry", "sample ", i);
			}
		}
	}
	else {
		for (size_t n = 2; n <= maxN; ++n) {
			const std::string k = cat(w.name, ".", tn);
			begin(k, "n=", n);
			Signal<T> o(n), f(n); Signal<C> oc(n);
			DolphChebyshevWindow(o, p); windows::dolphChebyshev.attenuation(p)(f); DolphChebyshevWindow(oc, p);
			const auto r = DolphChebyshevWindow<T>(n, p);
			std::vector<L> e(n);
			L mx = 0;
			for (size_t i = 0; i < n; ++i) { e[i] = w.f(i, n); mx = std::max(mx, fabsl(e[i])); }
			for (size_t i = 0; i < n; ++i) {
				const double x = double(e[i] / mx);
				check(std::abs(o[i] - x) < tol && std::abs(f[i] - x) < tol && std::abs(r[i] - x) < tol && std::abs(oc[i] - C(T(x))) < tol, k + ".value", "sample ", i, " is ", o[i], " instead of ", x);
				check(std::abs(o[i] - o[n - 1 - i]) < tol, k + ".symmetry", "sample ", i);
			}
		}
	}
}

template <class T>
void params(const char* tn, double tol) {
	for (double s : { 0.1, 0.3, 0.5, 1.0, 2.5 }) {
		param<T>(tn, "Gaussian", s, [s](size_t i, size_t n) { const L M = (n - 1) / 2.0L, x = (i - M) / (s * M); return expl(-0.5L * x * x); }, tol);
		param<T>(tn, "Kaiser", s * 3, [s](size_t i, size_t n) { const L x = 2.0L * i / (n - 1) - 1; return I0(PI * 3 * s * sqrtl(std::max(0.0L, 1 - x * x))) / I0(PI * 3 * s); }, tol);
	}
	for (double a : { 0.1, 0.01, 0.001 }) {
		param<T>(tn, "DolphChebyshev", a, [a](size_t i, size_t n) {
			const size_t M = n - 1;
			const L beta = coshl(acoshl(1 / L(a)) / M);
			L s = 0;
			for (size_t k = 0; k < n; ++k) { s += cheb(M, beta * cosl(PI * k / n)) * cosl(2 * PI * k * (i - M / 2.0L) / n); }
			return s; }, tol * 20, thorough ? 60 : 25);
	}
}

template <class T>
void spaces(const char* tn, double tol) {
	using C = std::complex<T>;
	for (size_t n : sizes(thorough ? 300 : 50, {513})) {
		for (int inc = 0; inc < 2; ++inc) {
			for (auto [a, b] : { std::pair<double, double>{ 0, 1 }, { -3, 5.5 }, { 4, -2.25 }, { 1.5, 1.5 }, { 0, double(n) } }) {
				const std::string k = cat("linspace.", tn);
				begin(k, "n=", n, " inclusive ", inc, " from ", a, " to ", b);
				Signal<T> big(n + 4, T(55));
				SignalView<T> o(big.data() + 2, n);
				LinSpace(o, T(a), T(b), bool(inc));
				const auto r = LinSpace<T, TIME_DOMAIN>(T(a), T(b), n, bool(inc));
				const auto rc = LinSpace<C, FREQUENCY_DOMAIN>(T(a), T(b), n, bool(inc));
				Signal<C> oc(n, C(3, 3));
				LinSpace(oc, T(a), T(b), bool(inc));
				check(big[0] == T(55) && big[1] == T(55) && big[n + 2] == T(55) && big[n + 3] == T(55), k + ".frame");
				check(r.size() == n && rc.size() == n, k + ".size");
				const L d = std::max<L>(1, L(n) - inc);
				for (size_t i = 0; i < n && r.size() == n && rc.size() == n; ++i) {
					const double e = double(a + (L(b) - a) * i / d);
					const double t = tol * (1 + std::abs(a) + std::abs(b));
					check(std::abs(o[i] - e) < t && std::abs(r[i] - e) < t, k + ".value", "sample ", i, " is ", o[i], " instead of ", e);
					check(std::abs(oc[i] - C(T(e))) < t && std::abs(rc[i] - C(T(e))) < t, k + ".complex", "sample ", i, " is ", oc[i], " instead of ", e);
				}
				if (std::abs(a) > 6 || std::abs(b) > 6) { continue; }
				for (double base : { 10.0, 2.0, 2.718281828 }) {
					const std::string kl = cat("logspace.", tn);
					begin(kl, "n=", n, " inclusive ", inc, " from ", a, " to ", b, " base ", base);
					Signal<T> lo(n, T(9));
					LogSpace(lo, T(a), T(b), T(base), bool(inc));
					const auto lr = LogSpace<T, TIME_DOMAIN>(T(a), T(b), n, T(base), bool(inc));
					check(lr.size() == n, kl + ".size");
					for (size_t i = 0; i < n && lr.size() == n; ++i) {
						const double e = double(powl(base, a + (L(b) - a) * i / d));
						check(std::abs(lo[i] - e) < 100 * tol * e && std::abs(lr[i] - e) < 100 * tol * e, kl + ".value", "sample ", i, " is ", lo[i], " instead of ", e);
					}
				}
			}
		}
	}
}

int main(int argc, char** argv) {
	init(argc, argv);
#ifdef PART1
	windowsOf<double>("double", 1e-11);
	spaces<double>("double", 1e-12);
#elif defined(PART2)
	windowsOf<float>("float", 1e-4);
	spaces<float>("float", 1e-5);
#else
	params<double>("double", 1e-10);
	params<float>("float", 3e-4);
#endif
	return finish();
}
