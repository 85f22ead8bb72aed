// C25: measurement of filters: bands, edges, ripples and frequency responses against direct definitions.
#include <optional>
#include "replay.hpp"
#include <dspbb/Filtering/MeasureFilter.hpp>
using namespace dspbb;
using namespace rp;

template <class T>
struct BandOf {
	size_t first, last;
	bool pass;
};

template <class T>
std::vector<BandOf<T>> bandsOf(const std::vector<T>& y) {
	const T half = T(0.5), hi = half + T(0.0005), lo = half - T(0.0005);
	std::vector<BandOf<T>> out;
	size_t i = 0, border = 0;
	while (i < y.size()) {
		const bool pass = y[i] > half;
		size_t leaves = y.size(), arrives = y.size();
		for (size_t j = y.size(); j-- > i;) {
			if (pass ? y[j] <= hi : y[j] > lo) { leaves = j; }
			if (pass ? y[j] <= lo : y[j] > hi) { arrives = j; }
		}
		out.push_back({ border, y.size(), pass });
		border = (leaves + arrives) / 2;
		out.back().last = border;
		i = arrives;
	}
	if (!out.empty()) { out.back().last = y.size(); }
	return out;
}

// centres of five samples where the middle one is the largest (smallest)
template <class T>
std::vector<size_t> extrema(const std::vector<T>& y, size_t first, size_t last, bool largest) {
	std::vector<size_t> out;
	for (size_t c = first + 2; c + 2 < last; ++c) {
		bool ok = true;
		for (size_t j = c - 2; j <= c + 2; ++j) { ok = ok && (largest ? y[j] <= y[c] : y[j] >= y[c]); }
		if (ok) { out.push_back(c); }
	}
	return out;
}

template <class T>
void measure(const char* tn, const std::vector<T>& y) {
	const std::string k = cat("measure.", tn);
	const auto show = [&] { std::string s; for (T v : y) { s += cat(v, " "); } return s; };
	begin(k, "response ", show());
	Spectrum<T> s(y.size());
	for (size_t i = 0; i < y.size(); ++i) { s[i] = y[i]; }
	const auto b = bandsOf(y);
	size_t kind = 0;
	const std::vector<std::vector<bool>> patterns = { {}, { 1, 0 }, { 0, 1 }, { 0, 1, 0 }, { 1, 0, 1 } };
	for (size_t q = 1; q < patterns.size(); ++q) {
		bool ok = patterns[q].size() == b.size();
		for (size_t i = 0; ok && i < b.size(); ++i) { ok = b[i].pass == patterns[q][i]; }
		if (ok) { kind = q; }
	}
	const FilterParameters<T> r = MeasureFilter(s);
	if (!check(r.index() == kind, k + ".kind", "kind ", r.index(), " instead of ", kind, " bands ", b.size())) { return; }
	std::vector<T> edges, ripples, single;
	const auto low = [&](const auto& p) { edges = { p.passbandEdge, p.stopbandEdge }; ripples = { p.passbandRipple, p.stopbandAtten }; };
	const auto high = [&](const auto& p) { edges = { p.stopbandEdge, p.passbandEdge }; ripples = { p.stopbandAtten, p.passbandRipple }; };
	const auto bandp = [&](const auto& p) { edges = { p.lowerStopbandEdge, p.passbandLowerEdge, p.passbandUpperEdge, p.upperStopbandEdge }; ripples = { p.lowerStopbandAtten, p.passbandRipple, p.upperStopbandAtten }; };
	const auto bands = [&](const auto& p) { edges = { p.lowerPassbandEdge, p.stopbandLowerEdge, p.stopbandUpperEdge, p.upperPassbandEdge }; ripples = { p.lowerPassbandRipple, p.stopbandAtten, p.upperPassbandRipple }; };
	for (size_t q = 1; q <= 4; ++q) {
		bool threw = false;
		edges.clear();
		try {
			if (q == 1) { low(MeasureLowpassFilter(s)); }
			if (q == 2) { high(MeasureHighpassFilter(s)); }
			if (q == 3) { bandp(MeasureBandpassFilter(s)); }
			if (q == 4) { bands(MeasureBandstopFilter(s)); }
		}
		catch (std::invalid_argument&) {
			threw = true;
		}
		check(threw == (q != kind), k + ".refused", "kind ", q, threw ? " refused" : " measured", " for a response of kind ", kind);
		if (!threw) { single = edges; single.insert(single.end(), ripples.begin(), ripples.end()); }
	}
	if (kind == 0) { return; }
	edges.clear();
	if (kind == 1) { low(std::get<1>(r)); }
	if (kind == 2) { high(std::get<2>(r)); }
	if (kind == 3) { bandp(std::get<3>(r)); }
	if (kind == 4) { bands(std::get<4>(r)); }
	std::vector<T> both = edges;
	both.insert(both.end(), ripples.begin(), ripples.end());
	check(both == single, k + ".same", "MeasureFilter differs from the measurement of its kind");
	const T n = T(y.size()), eps = n * 64 * std::numeric_limits<T>::epsilon();
	for (size_t i = 0; i < b.size(); ++i) {
		T worst = 0;
		for (bool largest : { true, false }) {
			for (size_t c : extrema(y, b[i].first, b[i].last, largest)) { worst = std::max(worst, std::abs(T(b[i].pass) - y[c])); }
		}
		check(std::abs(ripples[i] - worst) <= 16 * std::numeric_limits<T>::epsilon(), k + ".ripple", "band ", i, ": ", ripples[i], " instead of ", worst);
		const auto ext = extrema(y, b[i].first, b[i].last, b[i].pass);
		if (i > 0) {
			const T e = edges[2 * i - 1] * n;
			check(e >= T(b[i].first) - eps && e <= T(b[i].last) + eps, k + ".lower-edge", "band ", i, " [", b[i].first, ", ", b[i].last, "): ", e);
			check(ext.empty() || e <= T(ext.front()) + eps, k + ".lower-edge-extremum", "band ", i, ": ", e, " after the first extremum ", ext.empty() ? 0 : ext.front());
		}
		if (i + 1 < b.size()) {
			const T e = edges[2 * i] * n;
			check(e >= T(b[i].first) - eps && e <= T(b[i].last) + eps, k + ".upper-edge", "band ", i, " [", b[i].first, ", ", b[i].last, "): ", e);
			check(ext.empty() || e >= T(ext.back() + 1) - eps, k + ".upper-edge-extremum", "band ", i, ": ", e, " before the last extremum ", ext.empty() ? 0 : ext.back());
		}
	}
}

template <class T>
void spectra(const char* tn) {
	measure<T>(tn, {});
	const std::vector<T> levels = { 0, T(0.1), T(0.499), T(0.4999), T(0.5), T(0.5001), T(0.501), T(0.9), 1, T(1.1) };
	for (int size = 1; size <= (thorough ? 4 : 3); ++size) {
		std::vector<size_t> at(size, 0);
		for (bool more = true; more;) {
			std::vector<T> y;
			for (size_t q : at) { y.push_back(levels[q]); }
			measure<T>(tn, y);
			more = false;
			for (auto& q : at) {
				if (++q < levels.size()) { more = true; break; }
				q = 0;
			}
		}
	}
	for (int t = 0; t < (thorough ? 20000 : 2500); ++t) {
		std::vector<T> y;
		bool pass = irand(0, 1);
		const int bandCount = irand(1, 4);
		for (int b = 0; b < bandCount; ++b, pass = !pass) {
			const int len = irand(0, 60) == 0 ? irand(100, 600) : irand(1, 20);
			const T amp = T(drand(0, 0.3)), freq = T(drand(0.2, 1.5));
			const int shape = irand(0, 2);
			for (int i = 0; i < len; ++i) {
				const T v = shape == 0 ? T(drand(0, 0.45)) : shape == 1 ? std::abs(amp * std::sin(freq * T(i))) : T(irand(0, 4)) / T(10);
				y.push_back(pass ? T(1) - v : v);
			}
			if (irand(0, 1)) { y.push_back(levels[irand(2, 6)]); }
			if (irand(0, 3) == 0) {
				for (int i = irand(2, 24); i > 0; --i) { y.push_back(T(drand(0.4996, 0.5004))); }
			}
		}
		measure<T>(tn, y);
	}
}

template <class T, class System>
void response(const char* what, const System& sys, size_t order, size_t hint) {
	const std::string k = cat("response.", what);
	begin(k, "order ", order, " hint ", hint);
	const auto [amplitude, phase] = FrequencyResponse(sys, hint);
	const size_t size = hint > 0 ? hint : 20 * (order + 1);
	if (!check(amplitude.size() == size && phase.size() == size, k + ".size", amplitude.size(), " and ", phase.size(), " instead of ", size)) { return; }
	for (size_t j = 0; j < size; ++j) {
		const T w = pi_v<T> * T(j) / T(std::max<size_t>(1, size - 1));
		const std::complex<T> h = sys(std::polar(T(1), w));
		const T tol = T(1e-6) * (1 + std::abs(h));
		check(std::abs(amplitude[j] - std::abs(h)) <= tol, k + ".amplitude", "bin ", j, ": ", amplitude[j], " instead of ", std::abs(h));
		check(std::abs(std::polar(std::abs(h), phase[j]) - h) <= tol, k + ".phase", "bin ", j, ": ", phase[j], " instead of ", std::arg(h));
	}
}

template <class T>
void impulses(const char* tn) {
	const std::string k = cat("response.impulse.", tn);
	for (int len = 1; len <= 9; ++len) {
		for (size_t hint : { 0, 1, 2, 3, 4, 5, 7, 8, 16, 33 }) {
			begin(k, "impulse of ", len, " samples, hint ", hint);
			Signal<T> x(len);
			for (auto& v : x) { v = len % 3 == 0 ? T(0) : T(drand(-1, 1)); }
			if (len % 3 == 0) { x[irand(0, len - 1)] = irand(0, 1) ? 1 : 0; }
			const auto [amplitude, phase] = FrequencyResponse(x, hint);
			const size_t grid = hint > 0 ? hint : 10 * size_t(len), padded = std::max(size_t(len), 2 * grid - 1), size = padded / 2 + 1;
			if (!check(amplitude.size() == size && phase.size() == size, k + ".size", amplitude.size(), " and ", phase.size(), " instead of ", size)) { continue; }
			for (size_t j = 0; j < size; ++j) {
				std::complex<double> h = 0;
				for (int i = 0; i < len; ++i) { h += double(x[i]) * std::polar(1.0, -2 * pi_v<double> * double(j * i % padded) / double(padded)); }
				check(std::abs(double(amplitude[j]) - std::abs(h)) <= 1e-5, k + ".amplitude", "bin ", j, ": ", amplitude[j], " instead of ", std::abs(h));
				check(std::abs(std::polar(std::abs(h), double(phase[j])) - h) <= 1e-5, k + ".phase", "bin ", j, ": ", phase[j], " instead of ", std::arg(h));
				check(amplitude[j] != T(0) || phase[j] == T(0), k + ".phase-of-zero", "bin ", j, ": ", phase[j]);
			}
		}
	}
}

int main(int argc, char** argv) {
	init(argc, argv);
	spectra<double>("double");
	spectra<float>("float");
	for (size_t hint : { 0, 1, 2, 3, 5, 8, 20, 33 }) {
		for (int t = 0; t < (thorough ? 40 : 8); ++t) {
			const auto root = [](double r) { return std::polar(drand(0.05, r), drand(0.1, 3.0)); };
			const auto z = root(1.5), p = root(0.9), q = root(0.9);
			const double rz = drand(-1.5, 1.5), rp_ = drand(-0.9, 0.9), gain = drand(-2, 2);
			const DiscreteZeroPoleGain<double> zpk{ gain, { rz, z, std::conj(z) }, { rp_, p, std::conj(p), q, std::conj(q) } };
			response<double>("zpk", zpk, 5, hint);
			response<double>("tf", DiscreteTransferFunction<double>{ zpk }, 5, hint);
			const CascadedBiquad<double> cascade{ zpk };
			response<double>("cascade", cascade, cascade.order(), hint);
		}
	}
	impulses<double>("double");
	impulses<float>("float");
	return finish();
}
