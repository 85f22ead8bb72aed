// C16: the bilinear transform and the band transforms substitute the right variable.
#include "replay.hpp"
#include <dspbb/LTISystems/DiscretizationTransforms.hpp>
#include <dspbb/Filtering/IIR/BandTransforms.hpp>
using namespace dspbb;
using namespace rp;

template <class T>
using Cx = std::complex<T>;
using L = long double;
using Big = std::complex<L>;
constexpr L PI = 3.141592653589793238462643383279502884L;

template <class T>
struct Roots {
	std::vector<T> re;
	std::vector<Cx<T>> pairs;
	size_t count() const { return re.size() + 2 * pairs.size(); }
	Big at(Big x) const {
		Big p(1);
		for (auto r : re) { p *= x - Big(r); }
		for (auto z : pairs) { p *= (x - Big(z.real(), z.imag())) * (x - Big(z.real(), -z.imag())); }
		return p;
	}
	FactoredPolynomial<T> build() const {
		FactoredPolynomial<T> f;
		f.resize(re.size(), pairs.size());
		std::copy(re.begin(), re.end(), f.real_roots().begin());
		std::copy(pairs.begin(), pairs.end(), f.complex_pairs().begin());
		return f;
	}
	std::string show() const {
		std::string s = "{";
		for (auto r : re) { s += cat(" ", r); }
		for (auto z : pairs) { s += cat(" ", z.real(), "+-", z.imag(), "i"); }
		return s + " }";
	}
};
// kind 0: zeros (also 0, +-1, repeated ones), 1: poles inside the unit circle, 2: poles in the left half plane
template <class T>
Roots<T> pick(size_t r, size_t c, int kind) {
	Roots<T> s;
	for (size_t i = 0; i < r; ++i) { s.re.push_back(kind == 2 ? -T(irand(1, 8)) / 4 : kind == 1 ? T(irand(-6, 6)) / 8 : T(irand(-4, 4)) / 4); }
	for (size_t i = 0; i < c; ++i) {
		if (kind == 2) { s.pairs.push_back({ -T(irand(1, 6)) / 4, T(irand(1, 8)) / 4 }); }
		else { s.pairs.push_back({ T(irand(-4, 4)) / 8, T(irand(1, 4)) / 8 }); }
	}
	if (r > 1 && irand(0, 2) == 0) { s.re[1] = s.re[0]; }
	return s;
}
template <class T>
struct Sys {
	T gain;
	Roots<T> z, p;
	Big at(Big x) const { return Big(gain) * z.at(x) / p.at(x); }
	std::string show() const { return cat("gain ", gain, " zeros ", z.show(), " poles ", p.show()); }
};

template <class T, class Map>
void same(const DiscreteZeroPoleGain<T>& h, const Sys<T>& s, Map map, std::vector<Big> points, double rel, const std::string& key, const std::string& what) {
	for (size_t i = 0; i < 4; ++i) { points.push_back(std::polar(L(drand(1.2, 1.8)), L(drand(0.1, 6.1)))); }
	for (auto z : points) {
		const Big want = s.at(map(z));
		const Big got(h(Cx<T>(T(z.real()), T(z.imag()))));
		if (!check(double(std::abs(got - want)) <= rel * (double(std::abs(want)) + 1e-2), key, what, " of ", s.show(), " at z = ", Cx<double>(z), " is ", Cx<double>(got), " expected ", Cx<double>(want))) { return; }
	}
}

template <class T>
void stable(const DiscreteZeroPoleGain<T>& h, const std::string& key, const std::string& what, bool proper) {
	if (!proper) { return; } // a pole at infinity
	bool ok = true;
	for (auto r : h.poles.real_roots()) { ok = ok && std::abs(r) < 1; }
	for (auto r : h.poles.complex_pairs()) { ok = ok && std::abs(r) < 1; }
	check(ok, key, what, " has a pole outside the unit circle, the prototype does not");
}

template <class T>
void bilinearAll(size_t zr, size_t zc, size_t pr, size_t pc) {
	const std::string c = sizeof(T) == 4 ? "bilinear.float" : "bilinear.double";
	const double rel = sizeof(T) == 4 ? 2e-4 : 1e-10;
	for (T rate : { T(1), T(3.7), T(0.4) }) for (T w : { T(0), T(0.3), T(0.9) }) {
		begin(c);
		const Sys<T> s{ T(irand(1, 5)) / 2, pick<T>(zr, zc, 2), pick<T>(pr, pc, 2) };
		const ContinuousZeroPoleGain<T> a{ s.gain, s.z.build(), s.p.build() };
		const T warp = w * rate * 2;
		const auto h = w == 0 ? BilinearTransform(a, rate) : BilinearTransform(a, rate, std::optional<T>(warp));
		const L k = w == 0 ? 2 * L(rate) : L(warp) / std::tan(L(warp) / L(rate) / 2);
		same(h, s, [k](Big z) { return k * (z - L(1)) / (z + L(1)); }, { Big(1), Big(std::cos(L(0.7)), std::sin(L(0.7))) }, rel, c, cat("bilinear transform at rate ", rate, " prewarp ", warp));
		if (w != 0) { // the prewarped frequency keeps its response
			const L e = L(warp) / L(rate);
			const Big z(std::cos(e), std::sin(e));
			const Big want = s.at(Big(0, warp)), got(h(Cx<T>(T(z.real()), T(z.imag()))));
			check(double(std::abs(got - want)) <= rel * (double(std::abs(want)) + 1e-2), c, "prewarped frequency ", warp, " at rate ", rate, " of ", s.show(), " has response ", Cx<double>(got), " expected ", Cx<double>(want));
		}
		stable(h, c, cat("bilinear transform of ", s.show()), zr + 2 * zc <= pr + 2 * pc);
	}
}

template <class T>
void bandsAll(size_t zr, size_t zc, size_t pr, size_t pc) {
	const std::string suffix = sizeof(T) == 4 ? ".float" : ".double";
	const double rel = sizeof(T) == 4 ? 1e-2 : 1e-8;
	const bool equal = zr + 2 * zc == pr + 2 * pc;
	const auto unit = [](L w) { return Big(std::cos(w), std::sin(w)); };
	for (T to : { T(0.07), T(0.31), T(0.5), T(0.66), T(0.93) }) {
		if (to == T(0.5) && !equal) { continue; } // a root at infinity
		const L w = L(to) * PI;
		const L lo = std::sin((PI / 2 - w) / 2) / std::sin((PI / 2 + w) / 2);
		const L hi = -std::cos((PI / 2 + w) / 2) / std::cos((PI / 2 - w) / 2);
		begin("lowpass" + suffix);
		const Sys<T> s{ T(irand(1, 5)) / 2, pick<T>(zr, zc, 0), pick<T>(pr, pc, 1) };
		const DiscreteZeroPoleGain<T> a{ s.gain, s.z.build(), s.p.build() };
		const std::string at = cat(" at ", to);
		const auto l = Halfband2Lowpass(a, to);
		const auto lf = [lo](Big z) { return (z - lo) / (L(1) - lo * z); };
		same(l, s, lf, { unit(w), Big(1), Big(-1) }, rel, "lowpass" + suffix, "lowpass" + at);
		check(std::abs(lf(unit(w)) - Big(0, 1)) < 1e-9, "oracle", "lowpass map");
		stable(l, "lowpass" + suffix, "lowpass" + at + " of " + s.show(), zr + 2 * zc <= pr + 2 * pc);
		begin("highpass" + suffix);
		const auto h = Halfband2Highpass(a, to);
		const auto hf = [hi](Big z) { return -(z + hi) / (L(1) + hi * z); };
		same(h, s, hf, { unit(w), Big(1), Big(-1) }, rel, "highpass" + suffix, "highpass" + at);
		check(std::abs(std::abs(hf(unit(w)).imag()) - 1) < 1e-9, "oracle", "highpass map");
		stable(h, "highpass" + suffix, "highpass" + at + " of " + s.show(), zr + 2 * zc <= pr + 2 * pc);
	}
	for (auto [to1, to2] : std::initializer_list<std::pair<T, T>>{ { T(0.1), T(0.3) }, { T(0.25), T(0.75) }, { T(0.2), T(0.7) }, { T(0.4), T(0.45) }, { T(0.15), T(0.9) }, { T(0.62), T(0.97) } }) {
		if (std::abs(to2 - to1 - T(0.5)) < T(1e-3) && !equal) { continue; }
		const L w1 = L(to1) * PI, w2 = L(to2) * PI;
		const L al = std::cos((w1 + w2) / 2) / std::cos((w2 - w1) / 2);
		const L kp = 1 / std::tan((w2 - w1) / 2), ks = std::tan((w2 - w1) / 2);
		const L b1 = 2 * al * kp / (kp + 1), b0 = (kp - 1) / (kp + 1), s1 = 2 * al / (1 + ks), s0 = (1 - ks) / (1 + ks);
		const std::string at = cat(" from ", to1, " to ", to2);
		const L w0 = std::acos(al);
		const Sys<T> s{ T(irand(1, 5)) / 2, pick<T>(zr, zc, 0), pick<T>(pr, pc, 1) };
		const DiscreteZeroPoleGain<T> a{ s.gain, s.z.build(), s.p.build() };
		begin("bandpass" + suffix);
		const auto p = Halfband2Bandpass(a, to1, to2);
		const auto pf = [=](Big z) { return -(b0 - b1 * z + z * z) / (L(1) - b1 * z + b0 * z * z); };
		same(p, s, [&](Big z) { return L(1) / (-(b0 - b1 / z + L(1) / (z * z)) / (L(1) - b1 / z + b0 / (z * z))); }, { unit(w1), unit(w2), unit(w0), Big(1), Big(-1) }, rel, "bandpass" + suffix, "bandpass" + at);
		check(std::abs(pf(unit(w0)) - Big(1)) < 1e-9 && std::abs(std::abs(pf(unit(w1)).imag()) - 1) < 1e-9, "oracle", "bandpass map");
		stable(p, "bandpass" + suffix, "bandpass" + at + " of " + s.show(), zr + 2 * zc <= pr + 2 * pc);
		begin("bandstop" + suffix);
		const auto q = Halfband2Bandstop(a, to1, to2);
		same(q, s, [&](Big z) { return L(1) / ((s0 - s1 / z + L(1) / (z * z)) / (L(1) - s1 / z + s0 / (z * z))); }, { unit(w1), unit(w2), unit(w0), Big(1), Big(-1) }, rel, "bandstop" + suffix, "bandstop" + at);
		stable(q, "bandstop" + suffix, "bandstop" + at + " of " + s.show(), zr + 2 * zc <= pr + 2 * pc);
	}
}

template <class T>
void all() {
	const size_t R = thorough ? 5 : 4, C = thorough ? 4 : 3;
	for (size_t zr = 0; zr < R; ++zr) for (size_t zc = 0; zc < C; ++zc) for (size_t pr = 0; pr < R; ++pr) for (size_t pc = 0; pc < C; ++pc) {
		for (int i = 0; i < (thorough ? 4 : 1); ++i) {
			bilinearAll<T>(zr, zc, pr, pc);
			bandsAll<T>(zr, zc, pr, pc);
		}
	}
}

int main(int argc, char** argv) {
	init(argc, argv);
#ifdef PART1
	all<float>();
#else
	all<double>();
	// arguments of other types are converted to the type of the system
	begin("convert");
	const DiscreteZeroPoleGain<double> a{ 0.5, FactoredPolynomial<double>{ -1.0 }, FactoredPolynomial<double>{ 0.25 } };
	const double x = 0.3, y = 0.7;
	const float fx = 0.3f, fy = 0.7f;
	const auto equal = [](const DiscreteZeroPoleGain<double>& a, const DiscreteZeroPoleGain<double>& b, const char* what) {
		check(a.gain == b.gain && a.poles(0.37) == b.poles(0.37) && a.zeros(0.41) == b.zeros(0.41), "convert", what, " with arguments of another type: gain ", a.gain, ", with converted arguments ", b.gain);
	};
	equal(Halfband2Lowpass(a, fx), Halfband2Lowpass(a, double(fx)), "lowpass");
	equal(Halfband2Highpass(a, fx), Halfband2Highpass(a, double(fx)), "highpass");
	equal(Halfband2Bandpass(a, fx, y), Halfband2Bandpass(a, double(fx), y), "bandpass (float, double)");
	equal(Halfband2Bandpass(a, x, fy), Halfband2Bandpass(a, x, double(fy)), "bandpass (double, float)");
	equal(Halfband2Bandpass(a, fx, fy), Halfband2Bandpass(a, double(fx), double(fy)), "bandpass (float, float)");
	equal(Halfband2Bandstop(a, fx, y), Halfband2Bandstop(a, double(fx), y), "bandstop (float, double)");
	equal(Halfband2Bandstop(a, x, fy), Halfband2Bandstop(a, x, double(fy)), "bandstop (double, float)");
	equal(Halfband2Bandstop(a, fx, fy), Halfband2Bandstop(a, double(fx), double(fy)), "bandstop (float, float)");
#endif
	return finish();
}
