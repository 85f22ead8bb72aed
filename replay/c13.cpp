// C13: interpolation and rational resampling against the zero-stuffed signal convolved with the filter.
#include "replay.hpp"
#include <dspbb/Filtering/Resample.hpp>
using namespace dspbb;
using namespace rp;
using Q = Rational<int64_t>;

// sample h of the zero-stuffed signal convolved with n times the filter
template <class R, class S, class F>
R interpolated(const S& a, const F& f, size_t n, ptrdiff_t h) {
	R s(0);
	for (size_t i = 0; i < a.size(); ++i) {
		const ptrdiff_t k = h - ptrdiff_t(i * n);
		if (0 <= k && k < ptrdiff_t(f.size())) { s += R(a[i] * f[k]) * R(remove_complex_t<R>(n)); }
	}
	return s;
}

template <class T, class P, eSignalDomain D>
void interpolate(const char* tn) {
	using R = multiplies_result_t<T, P>;
	const std::string k = cat("interpolate.", tn);
	const size_t maxA = thorough ? 9 : 6, maxF = thorough ? 17 : 11, maxN = thorough ? 7 : 5;
	for (size_t na = 0; na <= maxA; ++na) {
		for (size_t nf = 1; nf <= maxF; ++nf) {
			for (size_t n = 1; n <= maxN; ++n) {
				BasicSignal<T, D> a(na);
				BasicSignal<P, D> f(nf);
				fillSmall(a, 20); fillSmall(f, 20);
				const auto p = PolyphaseDecompose(f, n);
				const size_t total = InterpolLength(na, nf, n, CONV_FULL);
				begin(k, "na=", na, " nf=", nf, " phases ", n);
				if (!check(total == (na ? na * n + nf - 1 : 0), k + ".length", total)) { continue; }
				const size_t m = na * n;
				check(InterpolLength(na, nf, n, CONV_CENTRAL) == (na ? std::max(m, nf) - std::min(m, nf) + 1 : 0), k + ".central-length");
				std::vector<R> e(total);
				for (size_t h = 0; h < total; ++h) { e[h] = interpolated<R>(a, f, n, h); }
				for (size_t first = 0; first <= total; first += (thorough || first < 4 ? 1 : 3)) {
					for (size_t len : { size_t(0), size_t(1), size_t(2), (total - first) / 2, total - first }) {
						if (first + len > total) { continue; }
						std::snprintf(current, sizeof current, "%s: na=%zu nf=%zu phases %zu first %zu length %zu", k.c_str(), na, nf, n, first, len);
						++counts[k];
						BasicSignal<R, D> o(len, R(77));
						const auto sp = Interpolate(o, a, p, first);
						const auto w = Interpolate(AsConstView(a), p, first, len);
						check(w.size() == len, k + ".size", w.size());
						for (size_t j = 0; j < len; ++j) {
							check(o[j] == e[first + j], k + ".value", "sample ", j, ": ", o[j], " instead of ", e[first + j]);
							check(j < w.size() && w[j] == e[first + j], k + ".new", "sample ", j);
						}
						const size_t next = first + len;
						check(sp.firstInputSample * n + sp.startPoint == next, k + ".suspension", sp.firstInputSample, " ", sp.startPoint, " after ", next);
						// the next block, from the inputs that are kept
						if (sp.firstInputSample > na) { check(next == total, k + ".suspension-input", sp.firstInputSample); continue; }
						const auto rest = AsConstView(a).subsignal(sp.firstInputSample, na - sp.firstInputSample);
						if (total > next && !rest.empty()) {
							BasicSignal<R, D> o2(total - next, R(78));
							Interpolate(o2, rest, p, sp.startPoint);
							for (size_t j = 0; j < o2.size(); ++j) {
								check(o2[j] == e[next + j], k + ".continued", "sample ", j, ": ", o2[j], " instead of ", e[next + j]);
							}
						}
					}
				}
			}
		}
	}
}

template <class T, class P>
void resample(const char* tn) {
	using R = multiplies_result_t<T, P>;
	using Re = remove_complex_t<R>;
	const double tol = sizeof(Re) == 4 ? 2e-5 : 1e-12;
	const std::string k = cat("resample.", tn);
	const std::vector<Q> rates = { Q{ 1, 1 }, Q{ 1, 2 }, Q{ 2, 1 }, Q{ 2, 3 }, Q{ 3, 2 }, Q{ 5, 7 }, Q{ 7, 5 }, Q{ 44, 48 }, Q{ 48, 11 }, Q{ 1, 9 }, Q{ 9, 1 } };
	const std::vector<Q> starts = { Q{ 0, 1 }, Q{ 1, 1 }, Q{ 1, 2 }, Q{ 2, 3 }, Q{ 7, 4 }, Q{ 3, 1 }, Q{ 25, 6 } };
	for (size_t na : { 0, 1, 2, 3, 5, 8 }) {
		for (size_t nf = 1; nf <= (thorough ? 14u : 9u); nf += (thorough || nf < 4 ? 1 : 2)) {
			for (size_t n : { 1, 2, 3, 5 }) {
				Signal<T> a(na);
				Signal<P> f(nf);
				fillSmall(a, 20); fillSmall(f, 20);
				const auto p = PolyphaseDecompose(f, n);
				for (const Q& rate : rates) {
					const int64_t L = na ? int64_t(na * n + nf - 1) : 0;
					// the length: L / (rate n)
					const auto maxLength = ResampleLength(na, nf, n, rate, CONV_FULL);
					const int64_t lnum = L * rate.Denominator(), lden = rate.Numerator() * int64_t(n);
					check(maxLength.Numerator() * lden == lnum * maxLength.Denominator(), k + ".length", "na=", na, " nf=", nf, " phases ", n);
					const auto delay = ResampleDelay(nf, n, rate);
					check(delay.Numerator() * 2 * lden == int64_t(nf - 1) * rate.Denominator() * delay.Denominator(), k + ".delay");
					const double rr = double(rate.Numerator()) / double(rate.Denominator());
					check(close(ResampleFilterCutoff(rate, n), (rr > 1 ? 1 / rr : 1) / double(n), 1e-12), k + ".cutoff");
					check(InterpolFilterCutoff(n) == 1.0 / double(n), k + ".interpolation-cutoff");
					const auto at = [&](int64_t num, int64_t den) {	  // the position num/den of the resampled signal
						const int64_t a1 = num * rate.Numerator() * int64_t(n), a2 = den * rate.Denominator();
						const int64_t h = a1 / a2;
						const Re t = Re(a1 % a2) / Re(a2);
						return interpolated<R>(a, f, n, h) * (Re(1) - t) + interpolated<R>(a, f, n, h + 1) * t;
					};
					for (const Q& start : starts) {
						// longest output with start + length <= maximum
						const int64_t room = (lnum * start.Denominator() - start.Numerator() * lden);
						if (room < 0) { continue; }
						const size_t most = size_t(room / (lden * start.Denominator()));
						for (size_t len : { size_t(0), size_t(1), most / 2, most }) {
							if (len > most) { continue; }
							begin(k, "na=", na, " nf=", nf, " phases ", n, " rate ", rate.Numerator(), "/", rate.Denominator(), " start ", start.Numerator(), "/", start.Denominator(), " length ", len);
							Signal<R> o(len, R(77));
							const auto sp = Resample(o, a, p, rate, start);
							const auto w = Resample(AsConstView(a), p, rate, start, len);
							check(w.size() == len, k + ".size");
							for (size_t j = 0; j < len; ++j) {
								const R e = at(start.Numerator() + int64_t(j) * start.Denominator(), start.Denominator());
								check(std::abs(o[j] - e) <= tol * (std::abs(e) + 20000), k + ".value", "sample ", j, ": ", o[j], " instead of ", e);
								check(j < w.size() && std::abs(w[j] - e) <= tol * (std::abs(e) + 20000), k + ".new", "sample ", j);
							}
							// first input + start point * rate = position of the next output
							const Q next = start + int64_t(len);
							const Q pos = Q{ int64_t(sp.firstInputSample) } + sp.startPoint * rate;
							check(pos == next * rate, k + ".suspension", sp.firstInputSample, " ", sp.startPoint.Numerator(), "/", sp.startPoint.Denominator());
							if (sp.firstInputSample < na && most > len) {
								const auto rest = AsConstView(a).subsignal(sp.firstInputSample, na - sp.firstInputSample);
								Signal<R> o2(most - len, R(78));
								Resample(o2, rest, p, rate, sp.startPoint);
								for (size_t j = 0; j < o2.size(); ++j) {
									const R e = at(next.Numerator() + int64_t(j) * next.Denominator(), next.Denominator());
									check(std::abs(o2[j] - e) <= tol * (std::abs(e) + 20000), k + ".continued", "sample ", j, ": ", o2[j], " instead of ", e);
								}
							}
						}
					}
				}
			}
		}
	}
}

int main(int argc, char** argv) {
	init(argc, argv);
	interpolate<double, double, eSignalDomain::TIME>("double");
	interpolate<float, float, eSignalDomain::FREQUENCY>("float");
	interpolate<std::complex<double>, double, eSignalDomain::TIME>("complex");
	resample<double, double>("double");
	resample<float, float>("float");
	resample<std::complex<double>, double>("complex");
	return finish();
}
