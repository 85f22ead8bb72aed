// C12: decimation, expansion, polyphase decomposition against index arithmetic.
#include "replay.hpp"
#include <dspbb/Filtering/Resample.hpp>
using namespace dspbb;
using namespace rp;

template <class T, eSignalDomain D>
void rates(const char* tn) {
	for (size_t n = 0; n <= (thorough ? 60u : 26u); ++n) {
		for (size_t r = 1; r <= (thorough ? 24u : 11u); ++r) {
			BasicSignal<T, D> a(n);
			fillSmall(a, 50);
			const auto keep = a;
			{
				const std::string k = cat("decimate.", tn);
				begin(k, "n=", n, " rate ", r);
				const size_t m = (n + r - 1) / r;
				const auto x = Decimate(a, r), y = Decimate(AsConstView(a), r);
				BasicSignal<T, D> z(m, T(7));
				Decimate(z, a, r);
				check(x.size() == m && y.size() == m, k + ".size", x.size());
				for (size_t i = 0; i < m && x.size() == m && y.size() == m; ++i) {
					check(x[i] == a[i * r], k + ".value", "element ", i); check(y[i] == a[i * r], k + ".view", "element ", i); check(z[i] == a[i * r], k + ".output", "element ", i);
				}
			}
			{
				const std::string k = cat("expand.", tn);
				begin(k, "n=", n, " rate ", r);
				const auto x = Expand(a, r), y = Expand(AsConstView(a), r);
				BasicSignal<T, D> z(n * r, T(7));
				Expand(z, a, r);
				check(x.size() == n * r && y.size() == n * r, k + ".size", x.size());
				for (size_t i = 0; i < n * r && x.size() == n * r && y.size() == n * r; ++i) {
					const T e = i % r ? T(0) : a[i / r];
					check(x[i] == e, k + ".value", "element ", i); check(y[i] == e, k + ".view", "element ", i); check(z[i] == e, k + ".output", "element ", i);
				}
			}
			if (n > 0) {
				const std::string k = cat("polyphase.", tn);
				begin(k, "n=", n, " phases ", r);
				auto p = PolyphaseDecompose(a, r);
				BasicSignal<T, D> buf(n, T(3));
				const auto w = PolyphaseDecompose(buf, AsConstView(a), r);
				auto c = p;
				auto m0 = p;
				auto m = std::move(m0);
				PolyphaseFilter<T, D> as(3, 2), am(3, 2);
				as = p;
				auto m1 = p;
				am = std::move(m1);
				check(c.Buffer().data() != p.Buffer().data() && as.Buffer().data() != p.Buffer().data(), k + ".copy", "shares its buffer");
				const auto look = [&](const auto& q, const std::string& kk) {
					if (!check(q.num_phases() == r && q.size_original() == n && q.size_per_phase() == (n + r - 1) / r, kk + ".sizes", q.num_phases(), " ", q.size_original(), " ", q.size_per_phase())) { return; }
					size_t total = 0;
					for (size_t f = 0; f < r; ++f) {
						const auto v = q[f];
						const size_t len = n / r + (f < n % r);
						total += v.size();
						if (!check(v.size() == len, kk + ".phase-length", "phase ", f, " has ", v.size())) { continue; }
						for (size_t t = 0; t < len; ++t) {
							check(v[len - 1 - t] == a[f + t * r] * T(remove_complex_t<T>(r)), kk + ".tap", "tap ", f + t * r);
						}
					}
					check(total == n, kk + ".total", total);
				};
				look(p, k); look(w, k + ".output"); look(c, k + ".copied"); look(m, k + ".moved"); look(as, k + ".assigned"); look(am, k + ".move-assigned");
				c.Buffer()[0] = T(99);
				look(p, k + ".independent");
			}
			for (size_t i = 0; i < n; ++i) { check(a[i] == keep[i], cat("operand.", tn), "element ", i); }
		}
	}
}

template <class T>
void normalize(const char* tn) {
	for (size_t n = 1; n <= 34; ++n) {
		for (size_t r = 1; r <= n && r <= 20; ++r) {
			Signal<T> a(n);
			fillReal(a, 0.5, 2);
			const std::string k = cat("normalize.", tn);
			begin(k, "n=", n, " phases ", r);
			const auto p = PolyphaseDecompose(a, r);
			const auto q = PolyphaseNormalized(p);
			auto s = p;
			PolyphaseNormalize(s);
			check(q.num_phases() == r && q.size_original() == n, k + ".sizes");
			for (size_t f = 0; f < r; ++f) {
				double sum = 0;
				for (size_t t = 0; t < p[f].size(); ++t) { sum += double(p[f][t]); }
				for (size_t t = 0; t < p[f].size(); ++t) {
					check(close(q[f][t], p[f][t] / sum, 1e-5), k + ".value", q[f][t]);
					check(close(s[f][t], p[f][t] / sum, 1e-5), k + ".in-place", s[f][t]);
				}
			}
		}
	}
}

int main(int argc, char** argv) {
	init(argc, argv);
	rates<float, eSignalDomain::TIME>("float");
	rates<double, eSignalDomain::TIME>("double");
	rates<std::complex<float>, eSignalDomain::TIME>("cfloat");
	rates<std::complex<double>, eSignalDomain::FREQUENCY>("cdouble");
	normalize<float>("float");
	normalize<double>("double");
	return finish();
}
