// C23: filter descriptions: boundaries, orders of setting, and what the designs make of them.
#include "replay.hpp"
#include <cfloat>
#include <dspbb/Filtering/FIR.hpp>
#include <dspbb/Filtering/IIR.hpp>
#include <dspbb/Filtering/Resample.hpp>
#include <limits>
using namespace dspbb;
using namespace rp;

template <class F>
int outcome(F f) {
	try { (void)f(); return 0; }
	catch (const std::domain_error&) { return 1; }
	catch (const std::invalid_argument&) { return 2; }
	catch (...) { return 3; }
}
template <class T>
std::vector<T> frequencies() {
	using N = std::numeric_limits<T>;
	return { T(0), -T(0), N::denorm_min(), -N::denorm_min(), N::min(), T(0.25), T(0.5), std::nextafter(T(0.5), T(1)), T(0.75), std::nextafter(T(1), T(0)), T(1), std::nextafter(T(1), T(2)), T(1.5), T(-0.25), T(44100), N::infinity(), -N::infinity(), N::quiet_NaN() };
}
template <class T>
bool fine(T x) { return T(0) <= x && x <= T(1); }

// one cut-off
template <class T, class D>
void cutoff(const char* name, const D& d) {
	for (T f : frequencies<T>()) {
		begin(cat(name, ".cutoff"), "frequency ", f);
		const int e = outcome([&] { return d.Cutoff(f); });
		check(e == (fine(f) ? 0 : 1), cat(name, ".cutoff.check"), "outcome ", e);
		if (e == 0) { check(d.Cutoff(f).cutoff == f, cat(name, ".cutoff.value"), f); }
	}
}
template <class T, class D, class S, class G>
void pair(const std::string& name, const D& d, S set, G get) {
	for (T a : frequencies<T>()) {
		for (T b : frequencies<T>()) {
			begin(name, a, " ", b);
			const int e = outcome([&] { return set(d, a, b); });
			check(e == (!fine(a) || !fine(b) ? 1 : a <= b ? 0 : 2), name + ".check", "outcome ", e);
			if (e == 0) {
				const auto r = get(set(d, a, b));
				check(r.first == a && r.second == b, name + ".value", r.first, " ", r.second);
			}
		}
	}
}
template <class T, class D>
void band(const char* name, const D& d) {
	pair<T>(cat(name, ".band"), d, [](const D& x, T a, T b) { return x.Band(a, b); }, [](const auto& r) { return std::make_pair(r.lower, r.upper); });
}
template <class T, class D>
void four(const char* name, const D& d) {
	const std::vector<T> fs = { -std::numeric_limits<T>::denorm_min(), T(0), T(0.3), std::nextafter(T(0.3), T(1)), T(1), std::nextafter(T(1), T(2)), std::numeric_limits<T>::quiet_NaN() };
	for (T a : fs) for (T b : fs) for (T c : fs) for (T e : fs) {
		begin(cat(name, ".band"), a, " ", b, " ", c, " ", e);
		const int o = outcome([&] { return d.Band(a, b, c, e); });
		check(o == (!fine(a) || !fine(b) || !fine(c) || !fine(e) ? 1 : a <= b && b <= c && c <= e ? 0 : 2), cat(name, ".band.check"), "outcome ", o);
		if (o == 0) {
			const auto r = d.Band(a, b, c, e);
			check(r.lowerBegin == a && r.lowerEnd == b && r.upperBegin == c && r.upperEnd == e, cat(name, ".band.value"));
		}
	}
}
struct Win {
	int id;
	template <class S>
	void operator()(S&& s) const { for (size_t i = 0; i < s.size(); ++i) { s[i] = remove_complex_t<std::decay_t<decltype(s[i])>>(id + 1); } }
};

template <class T>
void types(const char* t) {
	const auto n = [&](const char* d) { return cat(d, ".", t); };
	cutoff<T>(n("fir.lowpass.windowed").c_str(), Fir.Lowpass.Windowed);
	cutoff<T>(n("fir.highpass.windowed").c_str(), Fir.Highpass.Windowed);
	band<T>(n("fir.bandpass.windowed").c_str(), Fir.Bandpass.Windowed);
	band<T>(n("fir.bandstop.windowed").c_str(), Fir.Bandstop.Windowed);
	const auto split = [](const auto& d, T a, T b) { return d.Cutoff(a, b); };
	const auto edges = [](const auto& r) { return std::make_pair(r.cutoffBegin, r.cutoffEnd); };
	pair<T>(n("fir.lowpass.ls"), Fir.Lowpass.LeastSquares, split, edges);
	pair<T>(n("fir.highpass.ls"), Fir.Highpass.LeastSquares, split, edges);
	pair<T>(n("fir.lowpass.ls-weight-first"), Fir.Lowpass.LeastSquares.Weight(T(1), T(2), T(3)), split, edges);
	four<T>(n("fir.bandpass.ls").c_str(), Fir.Bandpass.LeastSquares);
	four<T>(n("fir.bandstop.ls").c_str(), Fir.Bandstop.LeastSquares);
	cutoff<T>(n("iir.lowpass.butterworth").c_str(), Iir.Lowpass.Butterworth);
	cutoff<T>(n("iir.highpass.butterworth").c_str(), Iir.Highpass.Butterworth);
	band<T>(n("iir.bandpass.butterworth").c_str(), Iir.Bandpass.Butterworth);
	band<T>(n("iir.bandstop.butterworth").c_str(), Iir.Bandstop.Butterworth);
	cutoff<T>(n("iir.lowpass.chebyshev1").c_str(), Iir.Lowpass.Chebyshev1);
	cutoff<T>(n("iir.highpass.chebyshev1").c_str(), Iir.Highpass.Chebyshev1.PassbandRipple(T(0.3)));
	band<T>(n("iir.bandpass.chebyshev1").c_str(), Iir.Bandpass.Chebyshev1);
	band<T>(n("iir.bandstop.chebyshev1").c_str(), Iir.Bandstop.Chebyshev1.PassbandRipple(T(0.3)));
	cutoff<T>(n("iir.lowpass.chebyshev2").c_str(), Iir.Lowpass.Chebyshev2);
	cutoff<T>(n("iir.highpass.chebyshev2").c_str(), Iir.Highpass.Chebyshev2.StopbandRipple(T(0.3)));
	band<T>(n("iir.bandpass.chebyshev2").c_str(), Iir.Bandpass.Chebyshev2);
	band<T>(n("iir.bandstop.chebyshev2").c_str(), Iir.Bandstop.Chebyshev2.StopbandRipple(T(0.3)));
	cutoff<T>(n("iir.lowpass.elliptic").c_str(), Iir.Lowpass.Elliptic);
	cutoff<T>(n("iir.highpass.elliptic").c_str(), Iir.Highpass.Elliptic.PassbandRipple(T(0.3)));
	band<T>(n("iir.bandpass.elliptic").c_str(), Iir.Bandpass.Elliptic);
	band<T>(n("iir.bandstop.elliptic").c_str(), Iir.Bandstop.Elliptic.StopbandRipple(T(0.3)));

	// orders of setting
	{
		const std::string k = n("order.elliptic");
		begin(k, "");
		const auto same = [&](const auto& d) { check(d.lower == T(0.125) && d.upper == T(0.375) && d.passbandRipple == T(0.75) && d.stopbandRipple == T(0.0625), k, d.lower, " ", d.upper, " ", d.passbandRipple, " ", d.stopbandRipple); };
		const auto& D = Iir.Bandpass.Elliptic;
		const T a(0.125), b(0.375), p(0.75), s(0.0625);
		same(D.Band(a, b).PassbandRipple(p).StopbandRipple(s)); same(D.Band(a, b).StopbandRipple(s).PassbandRipple(p));
		same(D.PassbandRipple(p).Band(a, b).StopbandRipple(s)); same(D.PassbandRipple(p).StopbandRipple(s).Band(a, b));
		same(D.StopbandRipple(s).Band(a, b).PassbandRipple(p)); same(D.StopbandRipple(s).PassbandRipple(p).Band(a, b));
		const auto sameS = [&](const auto& d) { check(d.lower == a && d.upper == b && d.passbandRipple == p && d.stopbandRipple == s, n("order.elliptic-stop")); };
		const auto& E = Iir.Bandstop.Elliptic;
		sameS(E.Band(a, b).PassbandRipple(p).StopbandRipple(s)); sameS(E.StopbandRipple(s).PassbandRipple(p).Band(a, b));
		const auto sameC = [&](const auto& d) { check(d.cutoff == a && d.passbandRipple == p && d.stopbandRipple == s, n("order.elliptic-cutoff")); };
		sameC(Iir.Lowpass.Elliptic.Cutoff(a).PassbandRipple(p).StopbandRipple(s)); sameC(Iir.Lowpass.Elliptic.StopbandRipple(s).PassbandRipple(p).Cutoff(a));
		sameC(Iir.Highpass.Elliptic.PassbandRipple(p).Cutoff(a).StopbandRipple(s)); sameC(Iir.Highpass.Elliptic.StopbandRipple(s).Cutoff(a).PassbandRipple(p));
		const auto c1 = Iir.Bandstop.Chebyshev1.PassbandRipple(p).Band(a, b), c1b = Iir.Bandstop.Chebyshev1.Band(a, b).PassbandRipple(p);
		check(c1.lower == a && c1.upper == b && c1.passbandRipple == p && c1b.lower == a && c1b.upper == b && c1b.passbandRipple == p, n("order.chebyshev1"));
		const auto c2 = Iir.Bandpass.Chebyshev2.StopbandRipple(p).Band(a, b), c2b = Iir.Bandpass.Chebyshev2.Band(a, b).StopbandRipple(p);
		check(c2.lower == a && c2.upper == b && c2.stopbandRipple == p && c2b.lower == a && c2b.upper == b && c2b.stopbandRipple == p, n("order.chebyshev2"));
	}
	{
		const std::string k = n("order.ls");
		begin(k, "");
		const auto same = [&](const auto& d) { check(d.cutoffBegin == T(0.25) && d.cutoffEnd == T(0.375) && d.weightLow == T(2) && d.weightTransition == T(3) && d.weightHigh == T(4) && d.grid == 77, k); };
		const auto& D = Fir.Lowpass.LeastSquares;
		const T a(0.25), b(0.375);
		same(D.Cutoff(a, b).Weight(2, 3, 4).Grid(77)); same(D.Cutoff(a, b).Grid(77).Weight(2, 3, 4));
		same(D.Weight(T(2), T(3), T(4)).Cutoff(a, b).Grid(77)); same(D.Weight(T(2), T(3), T(4)).Grid(77).Cutoff(a, b));
		same(Fir.Highpass.LeastSquares.Weight(T(2), T(3), T(4)).Grid(77).Cutoff(a, b)); same(Fir.Highpass.LeastSquares.Cutoff(a, b).Grid(77).Weight(2, 3, 4));
		const auto bands = [&](const auto& d) {
			check(d.lowerBegin == T(0.25) && d.lowerEnd == T(0.375) && d.upperBegin == T(0.5) && d.upperEnd == T(0.625) && d.weightLow == T(2) && d.weightTransition1 == T(3) && d.weightMid == T(4) && d.weightTransition2 == T(5) && d.weightHigh == T(6) && d.grid == 77, n("order.ls-band"));
		};
		bands(Fir.Bandpass.LeastSquares.Band(a, b, T(0.5), T(0.625)).Weight(2, 3, 4, 5, 6).Grid(77)); bands(Fir.Bandpass.LeastSquares.Weight(T(2), T(3), T(4), T(5), T(6)).Grid(77).Band(a, b, T(0.5), T(0.625)));
		bands(Fir.Bandstop.LeastSquares.Band(a, b, T(0.5), T(0.625)).Grid(77).Weight(2, 3, 4, 5, 6)); bands(Fir.Bandstop.LeastSquares.Weight(T(2), T(3), T(4), T(5), T(6)).Band(a, b, T(0.5), T(0.625)).Grid(77));
		const auto hil = [&](const auto& d) { check(d.transitionWidth == T(0.125) && d.transitionWeight == T(3) && d.grid == 77, n("order.ls-hilbert")); };
		hil(Fir.Hilbert.LeastSquares.TransitionWidth(T(0.125)).TransitionWeight(3).Grid(77)); hil(Fir.Hilbert.LeastSquares.TransitionWeight(T(3)).Grid(77).TransitionWidth(T(0.125)));
		const auto r = [](auto x) { return x; };
		const auto w = [](auto x) { return 2 * x; };
		check(Fir.Arbitrary.LeastSquares.Grid(77).Response(r).Weight(w).grid == 77 && Fir.Arbitrary.LeastSquares.Weight(w).Grid(77).Response(r).grid == 77, n("order.ls-arbitrary"));
		check(Fir.Arbitrary.LeastSquares.Response(r).Weight(w).weightFunc(T(3)) == 6 && Fir.Arbitrary.LeastSquares.Weight(w).Response(r).responseFunc(T(3)) == 3 && Fir.Arbitrary.LeastSquares.Weight(w).Response(r).weightFunc(T(3)) == 6, n("order.ls-arbitrary-functions"));
	}
	{
		begin(n("order.windowed"), "");
		check(Fir.Lowpass.Windowed.Window(Win{ 4 }).Cutoff(T(0.3)).window.id == 4 && Fir.Lowpass.Windowed.Window(Win{ 4 }).Cutoff(T(0.3)).cutoff == T(0.3) && Fir.Lowpass.Windowed.Cutoff(T(0.3)).Window(Win{ 4 }).cutoff == T(0.3), n("order.windowed.lowpass"));
		check(Fir.Bandstop.Windowed.Window(Win{ 4 }).Band(T(0.3), T(0.6)).window.id == 4 && Fir.Bandstop.Windowed.Band(T(0.3), T(0.6)).Window(Win{ 4 }).upper == T(0.6) && Fir.Bandstop.Windowed.Band(T(0.3), T(0.6)).Window(Win{ 4 }).lower == T(0.3), n("order.windowed.bandstop"));
		BasicSignal<T, TIME_DOMAIN> s(5, T(9));
		check(Fir.Highpass.Windowed.Window(s).Cutoff(T(0.3)).window.size() == 5 && Fir.Highpass.Windowed.Cutoff(T(0.3)).Window(s).window[2] == T(9), n("order.windowed.signal"));
	}
}

// least-squares designs: what the kernel is given
void designs() {
	using D = double;
	const auto lp = [](D f, D lo, D hi) { const D x = std::min(1.0, std::max(0.0, (f - lo) / (hi - lo))); return 3 * x * x - 2 * x * x * x; };
	for (size_t n : { 5, 8, 11, 16, 21 }) {
		for (size_t grid : { size_t(0), n / 4 + 2, size_t(1000) }) {
			for (int t = 0; t < 6; ++t) {
				D e[4] = { 0.1 + 0.02 * t, 0.2 + 0.02 * t, 0.5 + 0.03 * t, 0.7 + 0.03 * t };
				// every other set has its edges exactly on points of the grid
				const size_t fl = (n + 1) / 2, points = (grid == 0 ? 4 * fl : std::min(fl, grid)) - 1;
				if (t % 2) { for (D& x : e) { x = D(size_t(x * points + 0.5)) / D(points); } if (!(e[0] < e[1] && e[1] < e[2] && e[2] < e[3])) { continue; } }
				const D w[5] = { 1.0 + t, 0.25, 2.0, 0.5, 3.0 };
				BasicSignal<D, TIME_DOMAIN> a(n), b(n);
				const auto same = [&](const std::string& k) {
					for (size_t j = 0; j < n; ++j) { if (n % 2 || j + 1 < n) { check(std::abs(a[j] - b[j]) < 1e-9, k, "tap ", j, " of ", n, ": ", a[j], " instead of ", b[j]); } }
				};
				const auto split = [&](D f) { return f <= e[1] ? w[0] : f <= e[2] ? w[1] : w[2]; };
				const auto bands = [&](D f) { return f <= e[0] ? w[0] : f <= e[1] ? w[1] : f <= e[2] ? w[2] : f <= e[3] ? w[3] : w[4]; };
				const D mid = (e[1] + e[2]) / 2;
				begin("design.ls-lowpass", "taps ", n, " grid ", grid, " set ", t);
				DesignFilter(a, Fir.Lowpass.LeastSquares.Cutoff(e[1], e[2]).Weight(w[0], w[1], w[2]).Grid(grid));
				fir::KernelLeastSquares(b, [&](D f) { return lp(f, e[2], e[1]); }, split, grid);
				same("design.ls-lowpass");
				begin("design.ls-highpass", "taps ", n, " grid ", grid, " set ", t);
				DesignFilter(a, Fir.Highpass.LeastSquares.Cutoff(e[1], e[2]).Weight(w[0], w[1], w[2]).Grid(grid));
				fir::KernelLeastSquares(b, [&](D f) { return lp(f, e[1], e[2]); }, split, grid);
				same("design.ls-highpass");
				begin("design.ls-bandpass", "taps ", n, " grid ", grid, " set ", t);
				DesignFilter(a, Fir.Bandpass.LeastSquares.Band(e[0], e[1], e[2], e[3]).Weight(w[0], w[1], w[2], w[3], w[4]).Grid(grid));
				fir::KernelLeastSquares(b, [&](D f) { return f < mid ? lp(f, e[0], e[1]) : lp(f, e[3], e[2]); }, bands, grid);
				same("design.ls-bandpass");
				begin("design.ls-bandstop", "taps ", n, " grid ", grid, " set ", t);
				DesignFilter(a, Fir.Bandstop.LeastSquares.Band(e[0], e[1], e[2], e[3]).Weight(w[0], w[1], w[2], w[3], w[4]).Grid(grid));
				fir::KernelLeastSquares(b, [&](D f) { return f < mid ? lp(f, e[1], e[0]) : lp(f, e[2], e[3]); }, bands, grid);
				same("design.ls-bandstop");
				begin("design.ls-arbitrary", "taps ", n, " grid ", grid, " set ", t);
				DesignFilter(a, Fir.Arbitrary.LeastSquares.Response([&](auto f) { return f * f; }).Weight([&](auto f) { return decltype(f)(bands(f)); }).Grid(grid));
				fir::KernelLeastSquares(b, [&](D f) { return f * f; }, bands, grid);
				same("design.ls-arbitrary");
				// Hilbert
				begin("design.ls-hilbert", "taps ", n, " grid ", grid, " set ", t);
				const D width = 0.05 + 0.01 * t, weight = 0.1 * (t + 1);
				DesignFilter(a, Fir.Hilbert.LeastSquares.TransitionWidth(width).TransitionWeight(weight).Grid(grid));
				BasicSignal<D, TIME_DOMAIN> h(n % 2 ? n : 2 * n - 1);
				fir::KernelLeastSquares(h, [&](D f) { return lp(f, 0.5 + width, 0.5 - width); }, [&](D f) { return f <= 0.5 - width ? 1.0 : f <= 0.5 + width ? weight : 1.0; }, grid);
				if (n % 2) { fir::HalfbandToHilbertOdd(b, h); } else { fir::HalfbandToHilbertEven(b, h); }
				for (size_t j = 0; j < n; ++j) { check(std::abs(a[j] - b[j]) < 1e-9, "design.ls-hilbert", "tap ", j, " of ", n, ": ", a[j], " instead of ", b[j]); }
			}
		}
	}
}

int main(int argc, char** argv) {
	init(argc, argv);
#ifdef PART1
	types<double>("double");
	types<float>("float");
#else
	designs();
#endif
	return finish();
}
