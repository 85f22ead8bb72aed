// C17: FIR design formulas.
#include "replay.hpp"
#include <dspbb/Filtering/FIR.hpp>
#include <dspbb/Filtering/Resample.hpp>
#include <dspbb/Filtering/Windowing.hpp>
using namespace dspbb;
using namespace rp;
struct Decay;
using L = long double;
static const L pi = 3.14159265358979323846264338327950288L;

// windowed sinc over its sum
template <class W>
std::vector<L> lowpass(const W& w, L c) {
	const size_t n = w.size();
	std::vector<L> r(n);
	L s = 0;
	for (size_t j = 0; j < n; ++j) {
		const L x = (L(j) - L(n / 2)) * c * pi;
		r[j] = L(w[j]) * (j == n / 2 ? 1 : std::sin(x) / x);
		s += r[j];
	}
	for (auto& x : r) { x /= s; }
	return r;
}
std::vector<L> complement(std::vector<L> a) {
	for (auto& x : a) { x = -x; }
	a[a.size() / 2] += 1;
	return a;
}
std::vector<L> shift(std::vector<L> a, L f) {
	for (size_t j = 0; j < a.size(); ++j) { a[j] *= 2 * std::cos((L(j) - L(a.size() / 2)) * f * pi); }
	return a;
}
std::vector<L> hilbert(const std::vector<L>& a, size_t step) {
	std::vector<L> r;
	for (size_t j = 0; j < a.size(); j += step) {
		const ptrdiff_t d = ptrdiff_t(j) - ptrdiff_t(a.size() / 2);
		const ptrdiff_t m = ((d % 4) + 4) % 4;
		r.push_back(a[j] * (m == 1 ? 2 : m == 3 ? -2 : 0));
	}
	return r;
}

template <class T, class S>
void compare(const std::string& k, const S& o, const std::vector<L>& e) {
	const L tol = std::is_same<T, float>::value ? 4e-5L : 1e-12L;
	if (!check(o.size() == e.size(), k + ".size", o.size())) { return; }
	L mag = 0;
	for (L x : e) { mag = std::max(mag, std::abs(x)); }
	for (size_t j = 0; j < e.size(); ++j) {
		check(std::abs(L(o[j]) - e[j]) <= tol * (1 + mag) && std::isfinite(o[j]), k, "tap ", j, " of ", e.size(), ": ", o[j], " instead of ", e[j]);
	}
}

template <class T>
using Sig = BasicSignal<T, TIME_DOMAIN>;

template <class T, class W>
void designs(const char* tn, const char* wn, const W& windowFunc, bool large) {
	constexpr bool symmetric = !std::is_same<W, Decay>::value;
	const std::string t = cat(tn, ".", wn);
	std::vector<size_t> ns;
	for (size_t n = 3; n <= (thorough ? 65 : 33); n += 2) { ns.push_back(n); }
	if (large) { ns.insert(ns.end(), { 95, 127, 255 }); }
	for (size_t n : ns) {
		Sig<T> w(n);
		windowFunc(w);
		const auto low = [&](T c) { return lowpass(w, L(c)); };
		const auto name = [&](const char* d) { return cat("design-", d, ".", t); };
		for (T c : { T(0.01), T(0.1), T(0.3), T(0.5), T(0.75), T(0.97) }) {
			Sig<T> o(n), v(n);
			const auto e = low(c);
			begin(name("lowpass"), "taps ", n, " cutoff ", c);
			DesignFilter(o, Fir.Lowpass.Windowed.Cutoff(c).Window(windowFunc));
			DesignFilter(AsView(v), Fir.Lowpass.Windowed.Cutoff(c).Window(w));
			compare<T>(name("lowpass"), o, e);
			compare<T>(name("lowpass") + ".window-signal", v, e);
			compare<T>(name("lowpass") + ".new", DesignFilter<T, TIME_DOMAIN>(n, Fir.Lowpass.Windowed.Cutoff(c).Window(windowFunc)), e);
			L s = 0, d = 0;
			for (size_t j = 0; j < n; ++j) { s += o[j]; d = std::max(d, std::abs(L(o[j]) - L(o[n - 1 - j]))); }
			const L tol = std::is_same<T, float>::value ? 1e-5L : 1e-13L;
			check(std::abs(s - 1) < tol * n, name("lowpass") + ".sum", s);
			check(!symmetric || d < tol, name("lowpass") + ".symmetric", d);
			begin(name("highpass"), "taps ", n, " cutoff ", c);
			DesignFilter(o, Fir.Highpass.Windowed.Cutoff(c).Window(windowFunc));
			DesignFilter(AsView(v), Fir.Highpass.Windowed.Cutoff(c).Window(w));
			compare<T>(name("highpass"), o, complement(e));
			compare<T>(name("highpass") + ".window-signal", v, complement(e));
		}
		for (auto b : { std::pair<T, T>{ T(0.2), T(0.3) }, { T(0.1), T(0.9) }, { T(0.4), T(0.45) }, { T(0.05), T(0.5) }, { T(0.6), T(1) } }) {
			Sig<T> o(n), v(n);
			const auto e = shift(lowpass(w, (L(b.second) - L(b.first)) / 2), (L(b.second) + L(b.first)) / 2);
			begin(name("bandpass"), "taps ", n, " band ", b.first, "..", b.second);
			DesignFilter(o, Fir.Bandpass.Windowed.Band(b.first, b.second).Window(windowFunc));
			DesignFilter(AsView(v), Fir.Bandpass.Windowed.Band(b.first, b.second).Window(w));
			compare<T>(name("bandpass"), o, e);
			compare<T>(name("bandpass") + ".window-signal", v, e);
			begin(name("bandstop"), "taps ", n, " band ", b.first, "..", b.second);
			DesignFilter(o, Fir.Bandstop.Windowed.Band(b.first, b.second).Window(windowFunc));
			DesignFilter(AsView(v), Fir.Bandstop.Windowed.Band(b.first, b.second).Window(w));
			compare<T>(name("bandstop"), o, complement(e));
			compare<T>(name("bandstop") + ".window-signal", v, complement(e));
		}
		{
			begin(name("hilbert-odd"), "taps ", n);
			Sig<T> o(n);
			DesignFilter(o, Fir.Hilbert.Windowed.Window(windowFunc));
			const auto e = hilbert(low(T(0.5)), 1);
			compare<T>(name("hilbert-odd"), o, e);
			for (size_t j = 0; j < n; ++j) { check(!symmetric || std::abs(o[j] + o[n - 1 - j]) < T(1e-5), name("hilbert-odd") + ".antisymmetric", j); }
			begin(name("hilbert-even"), "taps ", n + 1);
			Sig<T> q(n + 1), w2(2 * n + 1);
			windowFunc(w2);
			DesignFilter(q, Fir.Hilbert.Windowed.Window(windowFunc));
			compare<T>(name("hilbert-even"), q, hilbert(lowpass(w2, 0.5L), 2));
			for (size_t j = 0; j <= n; ++j) { check(!symmetric || std::abs(q[j] + q[n - j]) < T(1e-5), name("hilbert-even") + ".antisymmetric", j); }
		}
		{
			// the response on the grid of the inverse transform, then the window
			begin(name("arbitrary"), "taps ", n);
			const auto response = [](auto f) { return f < decltype(f)(0.4) ? decltype(f)(1) + f : decltype(f)(0.25); };
			Sig<T> o(n), v(n);
			DesignFilter(o, Fir.Arbitrary.Windowed.Response(response).Window(windowFunc));
			DesignFilter(v, Fir.Arbitrary.Windowed.Response(response).Window(w));
			std::vector<L> e(n);
			const size_t h = n / 2;
			std::vector<L> g(h + 1);
			for (size_t m = 0; m <= h; ++m) { g[m] = response(T(L(m) / h)); }
			for (size_t j = 0; j < n; ++j) {
				L s = g[0];
				for (size_t m = 1; m <= h; ++m) { s += 2 * g[m] * std::cos(2 * pi * m * (L(j) - L(h)) / n); }
				e[j] = s / n * L(w[j]);
			}
			compare<T>(name("arbitrary"), o, e);
			compare<T>(name("arbitrary") + ".window-signal", v, e);
		}
	}
}

template <class T, class S>
std::vector<L> exact(const S& a) { return std::vector<L>(a.begin(), a.end()); }

template <class T>
void transforms(const char* tn) {
	const auto name = [&](const char* d) { return cat(d, ".", tn); };
	std::vector<size_t> ns;
	for (size_t n = 1; n <= (thorough ? 140 : 71); ++n) { ns.push_back(n); }
	ns.insert(ns.end(), { 127, 129, 193 });
	for (size_t n : ns) {
		Sig<T> a(n), o(n), s;
		fillSmall(a, 50);
		const auto x = exact<T>(a);
		{
			begin(name("mirror"), "taps ", n);
			auto e = x;
			for (size_t j = 1; j < n; j += 2) { e[j] = -e[j]; }
			fir::MirrorResponse(o, a);
			compare<T>(name("mirror"), o, e);
			s = a; fir::MirrorResponse(s, s);
			compare<T>(name("mirror") + ".in-place", s, e);
			fir::MirrorResponse(AsView(o), AsView(a));
			compare<T>(name("mirror") + ".view", o, e);
		}
		if (n % 2) for (T f : { T(0), T(0.25), T(0.5), T(0.7), T(1) }) {
			begin(name("shift"), "taps ", n, " frequency ", f);
			const auto e = shift(x, f);
			fir::ShiftResponse(o, a, f);
			compare<T>(name("shift"), o, e);
			s = a; fir::ShiftResponse(s, s, f); compare<T>(name("shift") + ".in-place", s, e);
		}
		if (n % 2) {
			begin(name("complement"), "taps ", n);
			fir::ComplementaryResponse(o, a);
			compare<T>(name("complement"), o, complement(x));
			s = a; fir::ComplementaryResponse(s, s);
			compare<T>(name("complement") + ".in-place", s, complement(x));
			fir::ComplementaryResponse(s, s);
			compare<T>(name("complement") + ".twice", s, x);
			begin(name("hilbert-odd"), "taps ", n);
			fir::HalfbandToHilbertOdd(o, a);
			compare<T>(name("hilbert-odd"), o, hilbert(x, 1));
			s = a; fir::HalfbandToHilbertOdd(s, s);
			compare<T>(name("hilbert-odd") + ".in-place", s, hilbert(x, 1));
			if ((n / 2) % 2) {
				begin(name("hilbert-even"), "half-band taps ", n);
				Sig<T> q(n / 2 + 1);
				fir::HalfbandToHilbertEven(q, a);
				compare<T>(name("hilbert-even"), q, hilbert(x, 2));
			}
		}
	}
}

// not symmetric
struct Decay {
	template <class S>
	void operator()(S&& s) const { for (size_t i = 0; i < s.size(); ++i) { s[i] = remove_complex_t<std::decay_t<decltype(s[i])>>(std::exp(-0.2 * double(i % 17))); } }
};

int main(int argc, char** argv) {
	init(argc, argv);
#ifdef PART1
	transforms<double>("double");
	transforms<float>("float");
	designs<double>("double", "hamming", windows::hamming, true);
#else
	designs<double>("double", "rectangular", windows::rectangular, false);
	designs<double>("double", "decay", Decay{}, false);
	designs<float>("float", "blackman", windows::blackman, true);
#endif
	return finish();
}
