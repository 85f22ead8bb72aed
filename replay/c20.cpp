// C20: transforms against the defining sum, shifts and bins against index arithmetic.
#include "replay.hpp"
#include <dspbb/Math/FFT.hpp>
using namespace dspbb;
using namespace rp;

template <class T>
std::vector<std::complex<double>> dft(const std::vector<T>& x, double sign, size_t n) {
	std::vector<std::complex<double>> r(n);
	std::vector<double> c(n), d(n);
	for (size_t m = 0; m < n; ++m) {
		const long double a = sign * 2 * 3.14159265358979323846264338327950288L * static_cast<long double>(m) / static_cast<long double>(n);
		c[m] = double(std::cos(a)); d[m] = double(std::sin(a));
	}
	std::vector<double> u(n), v(n);
	for (size_t i = 0; i < n; ++i) { const std::complex<double> z = x[i]; u[i] = z.real(); v[i] = z.imag(); }
	for (size_t k = 0; k < n; ++k) {
		double re = 0, im = 0;
		for (size_t i = 0, m = 0; i < n; ++i) {
			re += u[i] * c[m] - v[i] * d[m]; im += u[i] * d[m] + v[i] * c[m];
			m += k; if (m >= n) { m -= n; }
		}
		r[k] = { re, im };
	}
	return r;
}

template <class V, class W>
void compare(const V& v, const W& w, size_t n, double tol, const std::string& k) {
	if (!check(v.size() == n, k + ".size", v.size(), " instead of ", n)) { return; }
	for (size_t i = 0; i < n; ++i) {
		if (!check(std::abs(std::complex<double>(v[i]) - std::complex<double>(w[i])) <= tol, k, "bin ", i, " of ", n, ": ", v[i], " instead of ", w[i])) { return; }
	}
}

template <class T>
void transforms(const char* tn) {
	using C = std::complex<T>;
	for (size_t n : sizes(thorough ? 80 : 34, { 64, 97, 128, 231, 256, 509, 512 })) {
		if (n == 0) { continue; }
		const double tol = (sizeof(T) == 4 ? 4e-5 : 1e-12) * double(n);
		const std::string k = cat("fft.", tn);
		begin(k, "n=", n);
		std::vector<T> x(n); std::vector<C> z(n);
		for (auto& e : x) { e = T(drand(-1, 1)); }
		for (auto& e : z) { e = C(T(drand(-1, 1)), T(drand(-1, 1))); }
		const Signal<T> sx(x.begin(), x.end());
		const Signal<C> sz(z.begin(), z.end());
		const auto X = dft(x, -1, n), Z = dft(z, -1, n);
		const size_t h = n / 2 + 1;
		const auto full = Fft(sx, FFT_FULL);
		const auto half = Fft(sx, FFT_HALF);
		compare(full, X, n, tol, k + ".real-full"); compare(half, X, h, tol, k + ".real-half"); compare(Fft(AsView(sx), FFT_FULL), X, n, tol, k + ".view-full");
		if (full.size() == n && half.size() == h) { for (size_t i = 0; i < h; ++i) { check(full[i] == half[i], k + ".full-half", "bin ", i); } for (size_t i = 1; i < n; ++i) { check(full[n - i] == std::conj(full[i]) || 2 * i == n, k + ".mirror", "bin ", i); } }
		{ Spectrum<C> o(n), oh(h); Fft(o, sx); Fft(AsView(oh), sx); compare(o, X, n, tol, k + ".into-full"); compare(oh, X, h, tol, k + ".into-half"); }
		{ Spectrum<C> o(n + 2, C(T(7), T(9))); Fft(AsView(o).subsignal(1, n), sx); check(o[0] == C(T(7), T(9)) && o[n + 1] == C(T(7), T(9)), k + ".frame", "n=", n); compare(AsView(o).subsignal(1, n), X, n, tol, k + ".into-view"); }
		compare(Fft(sz), Z, n, tol, k + ".complex");
		{ Spectrum<C> o(n); Fft(o, sz); compare(o, Z, n, tol, k + ".complex-into"); }
		compare(Ifft(full, FFT_FULL), x, n, tol, k + ".inverse-full");
		if (n > 1) { compare(Ifft(half, FFT_HALF, n % 2 == 0), x, n, tol, k + ".inverse-half"); }
		{ Signal<T> o(n); Ifft(o, full); compare(o, x, n, tol, k + ".inverse-into-full"); o = Signal<T>(n); Ifft(o, half); compare(o, x, n, tol, k + ".inverse-into-half"); }
		const Spectrum<C> fz(z.begin(), z.end());
		auto Y = dft(z, 1, n);
		for (auto& e : Y) { e /= double(n); }
		compare(Ifft(fz), Y, n, tol, k + ".inverse-complex"); compare(Ifft(Fft(sz)), z, n, tol, k + ".round-trip");
		{ Signal<C> o(n); Ifft(o, fz); compare(o, Y, n, tol, k + ".inverse-complex-into"); }
	}
}

template <class T, eSignalDomain D>
void shifts(const char* tn) {
	for (size_t n : sizes(thorough ? 60 : 30, { 64, 65, 127, 1000 })) {
		const std::string k = cat("shift.", tn);
		begin(k, "n=", n);
		BasicSignal<T, D> s(n), a(n), b(n);
		for (size_t i = 0; i < n; ++i) { s[i] = T(int(i) + 1); }
		for (size_t i = 0; i < n; ++i) { a[(i + n / 2) % n] = s[i]; b[i] = s[(i + n / 2) % n]; }
		auto eq = [&](const auto& v, const auto& w, const std::string& what) { if (!check(v.size() == n, k + what, v.size(), " instead of ", n)) { return; } for (size_t i = 0; i < n; ++i) { if (!check(v[i] == w[i], k + what, "element ", i, " of ", n, ": ", v[i], " instead of ", w[i])) { return; } } };
		eq(FftShift(s), a, ".fftshift"); eq(IfftShift(s), b, ".ifftshift"); eq(IfftShift(FftShift(s)), s, ".inverse"); eq(FftShift(IfftShift(s)), s, ".inverse");
		BasicSignal<T, D> o(n); FftShift(o, s); eq(o, a, ".fftshift-into"); IfftShift(AsView(o), AsView(s)); eq(o, b, ".ifftshift-into");
		o = s; FftShift(o, o); eq(o, a, ".fftshift-in-place"); o = s; IfftShift(o, o); eq(o, b, ".ifftshift-in-place"); o = s; FftShift(AsView(o), AsConstView(o)); eq(o, a, ".fftshift-in-place-view");
	}
}

int main(int argc, char** argv) {
	init(argc, argv);
#ifdef PART1
	transforms<double>("double");
#elif defined(PART2)
	transforms<float>("float");
#else
	shifts<double, FREQUENCY_DOMAIN>("double"); shifts<float, TIME_DOMAIN>("float");
	shifts<std::complex<float>, FREQUENCY_DOMAIN>("cfloat"); shifts<std::complex<double>, FREQUENCY_DOMAIN>("cdouble");
	for (size_t n = 1; n <= (thorough ? 300u : 70u); ++n) {
		for (uint64_t rate : { 1, 2, 8000, 44100, 48000, 96000 }) {
			for (size_t b = 0; b <= n; ++b) {
				begin("bins", "bin ", b, " of ", n, " rate ", rate);
				const double f = FourierBin2Frequency(b, n, rate);
				check(std::abs(f - double(b) * double(rate) / double(n)) <= 1e-12 * double(rate), "bins.frequency", f);
				check(FourierFrequency2Bin(f, n, rate) == b, "bins.inverse", FourierFrequency2Bin(f, n, rate));
				for (double d : { -0.49, -0.2, 0.2, 0.49 }) { if (b + d >= 0) { check(FourierFrequency2Bin((double(b) + d) / double(n) * double(rate), n, rate) == b, "bins.nearest", "offset ", d); } }
			}
		}
	}
#endif
	finish();
}
