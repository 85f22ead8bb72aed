// C04: moments, deviations, covariance, correlation against direct formulas in long double.
#include "replay.hpp"
#include <dspbb/Math/Statistics.hpp>
#include <dspbb/Primitives/Signal.hpp>
#include <dspbb/Primitives/SignalView.hpp>
using namespace dspbb;
using namespace rp;
using ld = long double;

static ld ipow(ld x, size_t k) { ld r = 1; while (k--) { r *= x; } return r; }

template <class V>
ld meanOf(const V& a) { ld s = 0; for (auto x : a) { s += x; } return s / (ld)a.size(); }
template <class V>
ld mom(const V& a, size_t k, ld mu) { ld s = 0; for (auto x : a) { s += ipow(x - mu, k); } return s / (ld)a.size(); }
template <class V>
ld absmom(const V& a, size_t k, ld mu) { ld s = 0; for (auto x : a) { s += ipow(std::abs((ld)x - mu), k); } return s / (ld)a.size(); }

template <class T>
void one(const char* tn, size_t n, size_t off, int kind) {
	const std::string key0 = cat("stat.", tn);
	std::vector<T> buf(n + off + 5), buf2(n + off + 5);
	fillSmall(buf, 9);
	fillSmall(buf2, 9);
	if (kind == 1) { for (auto& x : buf) { x += T(20); } }
	for (size_t i = 0; i < buf.size(); ++i) { if (i < off || i >= off + n) { buf[i] = T(5000); buf2[i] = T(-7000); } }
	std::vector<T> a(buf.begin() + off, buf.begin() + off + n), b(buf2.begin() + off, buf2.begin() + off + n);
	begin(key0, "n=", n, " offset ", off, " a=", vec(a), " b=", vec(b));
	const ld tol = std::is_same_v<T, float> ? 3e-5L : 1e-12L;
	auto go = [&](const auto& v, const auto& w, const std::string& form) {
		const std::string key = key0 + "." + form + ".";
		auto near = [&](ld got, ld want, ld scale, const char* f, size_t k = 0) {
			check(std::abs(got - want) <= tol * (std::abs(want) + scale) || (std::isnan((double)got) && std::isnan((double)want)), key + f, "order ", k, ": ", (double)got, " expected ", (double)want);
		};
		const ld mu = meanOf(a), mub = meanOf(b);
		for (int form2 = 0; form2 < 3; ++form2) {
			// form2 0: mean computed, 1: supplied true mean, 2: supplied arbitrary value
			const ld c = form2 == 2 ? (ld)T(1.5) : mu;
			for (size_t k = 2; k <= 9; ++k) {
				const ld want = mom(a, k, c), sc = absmom(a, k, c) * (kind == 1 ? 20 : 1) * (ld)k;
				near(form2 ? CentralMoment(v, k, T(c)) : CentralMoment(v, k), want, sc, form2 ? "CentralMoment(mean)" : "CentralMoment", k);
				const ld var = mom(a, 2, c);
				if (var > 0) {
					const ld sd = std::pow(var, ld(k) / 2);
					near(form2 ? StandardizedMoment(v, k, T(c)) : StandardizedMoment(v, k), want / sd, sc / sd, form2 ? "StandardizedMoment(mean)" : "StandardizedMoment", k);
				}
			}
			const ld var = mom(a, 2, c), s = var * (kind == 1 ? 40 : 2);
			near(form2 ? Variance(v, T(c)) : Variance(v), var, s, "Variance", form2);
			near(form2 ? StandardDeviation(v, T(c)) : StandardDeviation(v), std::sqrt(var), std::sqrt(s), "StandardDeviation", form2);
			if (var > 0) {
				near(form2 ? Skewness(v, T(c)) : Skewness(v), mom(a, 3, c) / std::pow(var, 1.5L), 60 * absmom(a, 3, c) / std::pow(var, 1.5L), "Skewness", form2);
				near(form2 ? Kurtosis(v, T(c)) : Kurtosis(v), mom(a, 4, c) / (var * var), 80 * mom(a, 4, c) / (var * var), "Kurtosis", form2);
			}
		}
		const ld N = (ld)n, m2 = mom(a, 2, mu), m3 = mom(a, 3, mu), m4 = mom(a, 4, mu), f = kind == 1 ? 40 : 4;
		if (n >= 2) {
			near(CorrectedVariance(v), m2 * N / (N - 1), f * m2, "CorrectedVariance");
			near(CorrectedStandardDeviation(v), std::sqrt(m2 * N / (N - 1)), f * std::sqrt(m2), "CorrectedStandardDeviation");
		}
		if (n >= 3 && m2 > 0) {
			near(CorrectedSkewness(v), N * N / ((N - 1) * (N - 2)) * m3 / std::pow(m2 * N / (N - 1), 1.5L), 80 * absmom(a, 3, mu) / std::pow(m2, 1.5L) * N, "CorrectedSkewness");
		}
		if (n >= 4 && m2 > 0) {
			const ld kx = (N - 1) / (N * N * N) * ((N * N - 3 * N + 3) * m4 + (6 * N - 9) * m2 * m2), s2 = (N - 1) / N * m2;
			const ld K = N * N / ((N - 1) * (N - 1) * (N - 1) * (N * N - 3 * N + 3)) * ((N * (N - 1) * (N - 1) + (6 * N - 9)) * kx - N * (6 * N - 9) * s2 * s2);
			const ld want = K / ipow(m2 * N / (N - 1), 2);
			near(CorrectedKurtosis(v), want, 100 * std::abs(want) + 100, "CorrectedKurtosis");
		}
		auto cov = [&](ld ma, ld mb) { ld s = 0; for (size_t i = 0; i < n; ++i) { s += (a[i] - ma) * (b[i] - mb); } return s / N; };
		const ld sab = std::sqrt(mom(a, 2, mu) * mom(b, 2, mub));
		near(Covariance(v, w), cov(mu, mub), f * (sab + 10), "Covariance");
		near(Covariance(w, v), cov(mu, mub), f * (sab + 10), "Covariance");
		near(Covariance(v, w, T(2), T(-0.5)), cov(2, -0.5L), f * 100, "Covariance(means)");
		if (n >= 2) { near(CorrectedCovariance(v, w), cov(mu, mub) * N / (N - 1), f * (sab + 10), "CorrectedCovariance"); }
		if (sab > 0) { near(Correlation(v, w), cov(mu, mub) / sab, f * (1 + 10 / sab), "Correlation"); }
	};
	go(SignalView<const T>(buf.data() + off, n), SignalView<const T>(buf2.data() + off, n), "view");
	go(Signal<T>(a.begin(), a.end()), Signal<T>(b.begin(), b.end()), "signal");
}

int main(int argc, char** argv) {
	init(argc, argv);
	for (size_t n : sizes(thorough ? 150 : 70, { 127, 128, 129, 257, 1000, 1023 })) {
		if (n > 1500) { continue; }
		if (n == 0) { continue; }
		for (size_t off : { 0, 1, 3 }) {
			one<double>("double", n, off, (int)(n + off) % 2);
			one<float>("float", n, off, 0);
		}
	}
	return finish();
}
