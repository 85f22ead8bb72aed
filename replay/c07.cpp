// C07: overlap-add against the convolution sum, for every operand size, output range and chunk size.
#include "replay.hpp"
#include <dspbb/Math/OverlapAdd.hpp>
#include <dspbb/Primitives/Signal.hpp>
#include <dspbb/Primitives/SignalView.hpp>
using namespace dspbb;
using namespace rp;

template <class R, class T, class U>
std::vector<R> naive(const std::vector<T>& u, const std::vector<U>& v) {
	if (u.empty() || v.empty()) { return {}; }
	std::vector<R> w(u.size() + v.size() - 1, R(0));
	for (size_t i = 0; i < u.size(); ++i) {
		for (size_t j = 0; j < v.size(); ++j) { w[i + j] += R(u[i]) * R(v[j]); }
	}
	return w;
}

template <class R, class S>
bool same(const std::vector<R>& full, size_t off, size_t n, const S& got, double scale, R add, std::string& msg) {
	const double tol = (std::is_same_v<remove_complex_t<R>, float> ? 2e-5 : 1e-12) * (scale + 1);
	if (got.size() != n) { msg = cat("size ", got.size(), " expected ", n); return false; }
	for (size_t i = 0; i < n; ++i) {
		if (!(std::abs(got[i] - full[off + i] - add) <= tol)) { msg = cat("[", i, "]=", got[i], " expected ", full[off + i] + add); return false; }
	}
	return true;
}

template <class T, class U>
void one(const char* tn, size_t nu, size_t nv, size_t off, size_t len, size_t chunk) {
	using R = multiplies_result_t<T, U>;
	std::vector<T> su(nu); fillReal(su, -4, 4);
	std::vector<U> sv(nv); fillReal(sv, -4, 4);
	Signal<T> u(su.begin(), su.end());
	Signal<U> v(sv.begin(), sv.end());
	const auto full = naive<R>(su, sv);
	const double scale = 32.0 * double(nu + nv) + 40;
	std::string msg;
	for (const bool clear : { true, false }) {
		begin("range", tn, " long/short sizes ", nu, "x", nv, " offset=", off, " length=", len, " chunk=", chunk, " clear=", clear);
		Signal<R> out(len + 4, R(remove_complex_t<R>(3)));
		OverlapAdd(AsView(out).subsignal(2, len), u, v, off, chunk, clear);
		const auto part = AsView(out).subsignal(2, len);
		check(same(full, off, len, part, scale, R(remove_complex_t<R>(clear ? 0 : 3)), msg), "range.value", msg);
		check(out[0] == out[1] && out[1] == R(remove_complex_t<R>(3)) && out[len + 2] == out[0] && out[len + 3] == out[0], "range.outside", "samples next to the output written");
		check(std::equal(su.begin(), su.end(), u.begin()) && std::equal(sv.begin(), sv.end(), v.begin()), "range.operands", "operands changed");
	}
	begin("range-new", tn, " long/short sizes ", nu, "x", nv, " offset=", off, " length=", len, " chunk=", chunk);
	check(same(full, off, len, OverlapAdd(u, v, off, len, chunk), scale, R(0), msg), "range.new", msg);
}

template <class T, class U>
void forms(const char* tn, size_t nu, size_t nv, size_t chunk) {
	using R = multiplies_result_t<T, U>;
	std::vector<T> su(nu); fillReal(su, -4, 4);
	std::vector<U> sv(nv); fillReal(sv, -4, 4);
	Signal<T> u(su.begin(), su.end());
	Signal<U> v(sv.begin(), sv.end());
	const auto full = naive<R>(su, sv);
	const double scale = 32.0 * double(nu + nv) + 40;
	const size_t sh = std::min(nu, nv);
	std::string msg;
	begin("forms", tn, " sizes ", nu, "x", nv, " chunk=", chunk);
	check(same(full, 0, full.size(), OverlapAdd(u, v, CONV_FULL, chunk), scale, R(0), msg), "full.new", msg);
	check(same(full, 0, full.size(), OverlapAdd(AsConstView(u), AsView(v), CONV_FULL, chunk), scale, R(0), msg), "full.views", msg);
	const size_t coff = full.empty() ? 0 : sh - 1, clen = full.empty() ? 0 : std::max(nu, nv) - sh + 1;
	check(same(full, coff, clen, OverlapAdd(u, v, CONV_CENTRAL, chunk), scale, R(0), msg), "central.new", msg);
	for (const bool clear : { true, false }) {
		const R add = R(remove_complex_t<R>(clear ? 0 : 3));
		Signal<R> out(full.size(), R(remove_complex_t<R>(3)));
		OverlapAdd(out, u, v, CONV_FULL, chunk, clear);
		check(same(full, 0, full.size(), out, scale, add, msg), "full.out", "clear=", clear, " ", msg);
		Signal<R> outc(clen, R(remove_complex_t<R>(3)));
		OverlapAdd(outc, u, v, CONV_CENTRAL, chunk, clear);
		check(same(full, coff, clen, outc, scale, add, msg), "central.out", "clear=", clear, " ", msg);
	}
}

template <class T, class U>
void all(const char* tn, bool dense) {
	const size_t top = thorough ? 9 : dense ? 7 : 5;
	for (size_t nu = 0; nu <= top; ++nu) {
		for (size_t nv = 0; nv <= top; ++nv) {
			const size_t sh = std::min(nu, nv);
			for (size_t chunk = sh ? 2 * sh - 1 : 0; chunk <= 2 * sh + 3; ++chunk) { forms<T, U>(tn, nu, nv, chunk); }
			forms<T, U>(tn, nu, nv, 0);
			const size_t full = sh ? nu + nv - 1 : 0;
			for (size_t off = 0; off <= full; ++off) {
				for (size_t len = 0; off + len <= full; ++len) {
					if (!dense && (off * 7 + len * 3 + nu + nv) % 3) { continue; }
					const size_t lo = sh ? 2 * sh - 1 : 1;
					for (const size_t chunk : { size_t(0), lo, lo + 1, lo + 2 + (off + len) % 5 }) { one<T, U>(tn, nu, nv, off, len, chunk); }
				}
			}
		}
	}
	// longer ones: the automatic chunk and the end of the stream in every position of a block
	for (size_t nv : { 1, 2, 3, 5, 8, 17 }) {
		for (size_t nu : { 20, 31, 47, 64, 65, 100 }) {
			forms<T, U>(tn, nu, nv, 0);
			forms<T, U>(tn, nv, nu, 2 * nv + nu % 7);
			for (int rep = 0; rep < (thorough ? 12 : 3); ++rep) {
				const size_t full = nu + nv - 1, off = size_t(irand(0, full)), len = size_t(irand(0, full - off));
				const size_t chunk = rep == 0 ? 0 : size_t(irand(2 * nv - 1, 3 * nv + 40));
				one<T, U>(tn, nu, nv, off, len, chunk);
				one<T, U>(tn, nv, nu, off, len, chunk);
			}
		}
	}
}

int main(int argc, char** argv) {
	init(argc, argv);
#ifdef PART1
	all<double, double>("double", true);
	for (size_t nu : { 3, 300, 1000 }) {
		for (size_t nv : { 2, 33, 128 }) {
			if (nu && nv) { forms<double, double>("double", nu, nv, 0); }
		}
	}
	for (size_t n = 0; n <= 4200; ++n) {
		begin("next-power-of-two", n);
		size_t p = 1;
		while (p < n) { p *= 2; }
		const size_t got = impl::ola::NextPowerOfTwo(n);
		check(got == (n ? p : 0), "pow2", got);
	}
	for (size_t m = 1; m <= (thorough ? 3000 : 400); ++m) {
		for (size_t n : { m, m + 1, 2 * m, 5 * m, 100 * m + 7, size_t(1) << 40 }) {
			begin("chunk-size", "signal=", n, " filter=", m);
			const size_t got = impl::ola::OptimalPracticalSize(n, m);
			check(got >= 2 * m - 1 && got <= 2 * (n + m), "chunk", got);
		}
	}
#elif defined(PART2)
	using C = std::complex<double>;
	all<C, C>("complex", false);
	all<double, C>("double x complex", false);
	all<C, double>("complex x double", false);
#else
	using F = std::complex<float>;
	all<float, float>("float", false);
	all<float, F>("float x complex<float>", false);
	all<F, float>("complex<float> x float", false);
#endif
	return finish();
}
