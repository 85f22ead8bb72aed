// C19: waveform generators against their formulas.
#include "replay.hpp"
#include <dspbb/Generators/Waveforms.hpp>
#include <functional>
using namespace dspbb;
using namespace rp;
using L = long double;
static const L PI = 3.14159265358979323846264338327950288L;

struct Shape {
	const char* name;
	std::function<L(L, L)> f; // periods, parameter
	bool param, jumps;
	double lo;
};

static L frac(L x) { return x - floorl(x); }

template <class T, eSignalDomain D, class F>
void compare(const std::string& k, const BasicSignal<T, D>& x, size_t n, F phase, const Shape& s, double par, double tol) {
	check(x.size() == n, k + ".size", x.size());
	for (size_t i = 0; i < n && i < x.size(); ++i) {
		const L p = phase(i);
		const double e = double(s.f(p, par));
		const double v = double(std::real(x[i]));
		check(std::abs(double(std::imag(x[i]))) == 0, k + ".imaginary", "sample ", i);
		check(v >= s.lo - 1e-6 && v <= 1 + 1e-6, k + ".range", "sample ", i, " is ", v);
		if (s.jumps) { // within rounding of a jump either value is right
			const L q = frac(p), near = 1e-9L * (1 + fabsl(p));
			const L at = par;
			if (q < near || q > 1 - near || fabsl(q - at) < near) { continue; }
		}
		const double steep = s.param && s.lo < 0 ? 1 / std::max(1e-3, std::min(par > 0 ? par : 1.0, par < 1 ? 1 - par : 1.0)) : 1;
		check(std::abs(v - e) < tol * (10 + std::abs(double(p))) * steep, k + ".value", "sample ", i, " is ", v, " instead of ", e);
	}
}

template <class T>
void waves(const char* tn, double tol) {
	const Shape sine{ "sine", [](L p, L) { return sinl(2 * PI * p); }, false, false, -1 };
	const Shape square{ "square", [](L p, L) { return frac(p) < 0.5L ? 1.0L : -1.0L; }, false, true, -1 };
	const Shape saw{ "sawtooth", [](L p, L t) { const L u = frac(p); return u > t ? 1 - 2 * (u - t) / (1 - t) : (t > 0 ? 2 * u / t - 1 : 1.0L); }, true, true, -1 };
	const Shape pwm{ "pwm", [](L p, L q) { return frac(p) < q || q >= 1 ? 1.0L : 0.0L; }, true, true, 0 };
	std::vector<size_t> ns{ 0, 1, 2, 3, 5, 8, 17, 64, 100 };
	if (thorough) { ns.push_back(1000); }
	for (size_t n : ns) {
		for (uint64_t rate : { uint64_t(1), uint64_t(16), uint64_t(1000), uint64_t(44100) }) {
			for (double f : { 1.0, 3.7, 440.0, -2.25, 0.0, rate * 0.45 }) {
				for (double ph : { 0.0, 0.4, -0.4, -3.0, 7.5, -20.0, 1.570796 }) {
					const auto at = [&](size_t i) { return L(i) / rate * f + L(ph) / (2 * PI); };
					const double g = ph < -1 ? 0.2 * f : 1.7 * f + 3;
					const L len = L(n) / rate;
					const auto chirp = [&](size_t i) { const L t = L(i) / rate; return t * f + t * t / 2 * (g - f) / len + L(ph) / (2 * PI); };
					const auto key = [&](const Shape& s, const char* what) { const std::string k = cat(s.name, what, ".", tn); begin(k, "n=", n, " rate ", rate, " frequency ", f, " phase ", ph); return k; };
					{
						auto k = key(sine, "");
						compare(k, SineWave<T, TIME_DOMAIN>(n, rate, f, ph), n, at, sine, 0, tol);
						Signal<T> o(n, T(5)); SineWave(o, rate, f, ph); compare(k, o, n, at, sine, 0, tol);
						k = key(sine, "-chirp");
						compare(k, SineChirp<T, TIME_DOMAIN>(n, rate, f, g, ph), n, chirp, sine, 0, tol);
						Signal<T> q(n, T(5)); SineChirp(q, rate, f, g, ph); compare(k, q, n, chirp, sine, 0, tol);
					}
					{
						auto k = key(square, "");
						compare(k, SquareWave<T, TIME_DOMAIN>(n, rate, f, ph), n, at, square, 0.5, tol);
						Signal<T> o(n, T(5)); SquareWave(o, rate, f, ph); compare(k, o, n, at, square, 0.5, tol);
						k = key(square, "-chirp");
						compare(k, SquareChirp<T, TIME_DOMAIN>(n, rate, f, g, ph), n, chirp, square, 0.5, tol);
						Signal<T> q(n, T(5)); SquareChirp(q, rate, f, g, ph); compare(k, q, n, chirp, square, 0.5, tol);
					}
					for (double par : { 0.0, 0.2, 0.5, 0.9, 0.9995, 1.0 }) {
						auto k = key(saw, "");
						compare(k, SawtoothWave<T, TIME_DOMAIN>(n, rate, f, ph, par), n, at, saw, par, tol);
						Signal<T> o(n, T(5)); SawtoothWave(o, rate, f, ph, par); compare(k, o, n, at, saw, par, tol);
						k = key(saw, "-chirp");
						compare(k, SawtoothChirp<T, TIME_DOMAIN>(n, rate, f, g, ph, par), n, chirp, saw, par, tol);
						Signal<T> q(n, T(5)); SawtoothChirp(q, rate, f, g, ph, par); compare(k, q, n, chirp, saw, par, tol);
						k = key(pwm, "");
						compare(k, PwmWave<T, TIME_DOMAIN>(n, rate, f, ph, par), n, at, pwm, par, tol);
						PwmWave(o, rate, f, ph, par); compare(k, o, n, at, pwm, par, tol);
						k = key(pwm, "-chirp");
						compare(k, PwmChirp<T, TIME_DOMAIN>(n, rate, f, g, ph, par), n, chirp, pwm, par, tol);
						PwmChirp(q, rate, f, g, ph, par); compare(k, q, n, chirp, pwm, par, tol);
					}
				}
			}
		}
	}
	// repetition with the period of the frequency
	for (double ph : { 0.0, 0.7, -5.1 }) {
		const std::string k = cat("period.", tn);
		begin(k, "phase ", ph);
		const auto s = SineWave<T, TIME_DOMAIN>(400, 100, 4, ph), q = SquareWave<T, TIME_DOMAIN>(400, 100, 4, ph + 0.01), w = SawtoothWave<T, TIME_DOMAIN>(400, 100, 4, ph + 0.01, 0.33);
		for (size_t i = 0; i + 25 < 400; ++i) {
			check(std::abs(s[i] - s[i + 25]) < 1e-5 && std::abs(q[i] - q[i + 25]) < 1e-5 && std::abs(w[i] - w[i + 25]) < 1e-4, k, "sample ", i);
		}
	}
}

int main(int argc, char** argv) {
	init(argc, argv);
	waves<double>("double", 1e-12);
	waves<float>("float", 1e-6);
	waves<std::complex<double>>("cdouble", 1e-12);
	return finish();
}
