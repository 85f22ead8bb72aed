// C08: FIR filtering, in one call and block by block, against the causal convolution written out as a sum.
#include "replay.hpp"
#include <dspbb/Filtering/FIR/Filter.hpp>
#include <dspbb/Primitives/Signal.hpp>
#include <dspbb/Primitives/SignalView.hpp>
using namespace dspbb;
using namespace rp;

// x: the state followed by the stream; y[i] = sum_k h[k] x[ns + i - k]
template <class R, class T, class U>
std::vector<R> causal(const std::vector<T>& x, const std::vector<U>& h) {
	const size_t ns = h.size() - 1;
	std::vector<R> y(x.size() - ns, R(0));
	for (size_t i = 0; i < y.size(); ++i) {
		for (size_t k = 0; k < h.size(); ++k) { y[i] += R(x[ns + i - k]) * R(h[k]); }
	}
	return y;
}
template <class R>
double tol() { return std::is_same_v<remove_complex_t<R>, float> ? 4e-3 : 1e-9; }

template <class R, class S>
bool same(const std::vector<R>& want, const S& got, bool exact, std::string& msg) {
	if (got.size() != want.size()) { msg = cat("size ", got.size(), " expected ", want.size()); return false; }
	for (size_t i = 0; i < want.size(); ++i) {
		if (exact ? !(got[i] == want[i]) : !(std::abs(got[i] - want[i]) <= tol<R>())) { msg = cat("[", i, "]=", got[i], " expected ", want[i]); return false; }
	}
	return true;
}

// every way to run one block
enum Way { CONV, CONV_NEW, CONV_VIEW, OLA, OLA_NEW, OLA_VIEW };
template <class R, class T, class U, class St>
Signal<R> block(Way w, const Signal<T>& a, const Signal<U>& h, St& state, size_t chunk) {
	Signal<R> out(a.size(), R(remove_complex_t<R>(55)));
	switch (w) {
	case CONV: Filter(out, a, h, state, FILTER_CONV); break;
	case CONV_NEW: return Filter(a, h, state, FILTER_CONV);
	case CONV_VIEW: {
		Signal<R> big(a.size() + 4, R(remove_complex_t<R>(7)));
		Filter(AsView(big).subsignal(2, a.size()), AsView(a), AsConstView(h), state, FILTER_CONV);
		check(big[0] == big[1] && big[0] == R(remove_complex_t<R>(7)) && big[a.size() + 2] == big[0] && big[a.size() + 3] == big[0], "filter.conv.outside", "samples next to the output written");
		return Signal<R>(big.begin() + 2, big.begin() + 2 + a.size());
	}
	case OLA: Filter(out, a, h, state, FILTER_OLA, chunk); break;
	case OLA_NEW: return Filter(a, h, state, FILTER_OLA, chunk);
	case OLA_VIEW: {
		Signal<R> big(a.size() + 4, R(remove_complex_t<R>(7)));
		Filter(AsView(big).subsignal(2, a.size()), AsView(a), AsConstView(h), state, FILTER_OLA, chunk);
		check(big[0] == big[1] && big[0] == R(remove_complex_t<R>(7)) && big[a.size() + 2] == big[0] && big[a.size() + 3] == big[0], "filter.ola.outside", "samples next to the output written");
		return Signal<R>(big.begin() + 2, big.begin() + 2 + a.size());
	}
	}
	return out;
}

template <class T, class U>
void stream(const char* tn, size_t nh, size_t n, Way way, std::vector<size_t> cuts, bool viewState, size_t chunk) {
	using R = multiplies_result_t<T, U>;
	const char* names[] = { "conv", "conv", "conv", "ola", "ola", "ola" };
	const std::string key = cat("stream.", names[way], ".", tn);
	std::vector<T> x(n + nh - 1);
	std::vector<U> h(nh);
	fillSmall(x);
	fillSmall(h);
	const auto want = causal<R>(x, h);
	begin(key, "taps=", nh, " samples=", n, " way=", int(way), " blocks=", vec(cuts), " chunk=", chunk, " state+stream=", vec(x), " h=", vec(h));
	const Signal<U> sh(h.begin(), h.end());
	Signal<T> state(x.begin(), x.begin() + (nh - 1));
	Signal<T> guard(nh + 3, T(remove_complex_t<T>(99)));
	std::copy(state.begin(), state.end(), guard.begin() + 2);
	SignalView<T> vstate = AsView(guard).subsignal(2, nh - 1);
	size_t at = 0;
	std::string msg;
	std::vector<R> got;
	const bool exact = way <= CONV_VIEW;
	for (size_t len : cuts) {
		const Signal<T> a(x.begin() + (nh - 1) + at, x.begin() + (nh - 1) + at + len);
		const Signal<R> o = viewState ? block<R>(way, a, sh, vstate, chunk) : block<R>(way, a, sh, state, chunk);
		if (!check(o.size() == len, key, "output has ", o.size(), " samples for a block of ", len)) { return; }
		got.insert(got.end(), o.begin(), o.end());
		at += len;
		std::vector<T> ws(x.begin() + at, x.begin() + at + (nh - 1));
		Signal<T> now = viewState ? Signal<T>(vstate.begin(), vstate.end()) : state;
		if (!check(same(ws, now, true, msg), key + ".state", "after ", at, " samples: state", msg)) { return; }
	}
	check(same(want, got, exact, msg), key, "output", msg);
	const T g = T(remove_complex_t<T>(99));
	check(guard[0] == g && guard[1] == g && guard[nh + 1] == g && guard[nh + 2] == g, key + ".outside", "samples next to the state written");
}

template <class T, class U>
void streams(const char* tn, size_t maxTaps, size_t maxN) {
	const auto pick = [](size_t i) { return Way(i % 6); };
	size_t r = 0;
	for (size_t nh = 1; nh <= maxTaps; ++nh) {
		for (size_t n = 0; n <= maxN; ++n) {
			// one block, and every cut in two
			for (size_t c = 0; c <= n; ++c) {
				std::vector<size_t> cuts{ c, n - c };
				if (c == 0) { cuts = { n }; }
				const Way w = pick(r++);
				size_t chunk = (r % 3 == 0) ? 0 : 2 * nh - 1 + size_t(irand(0, 7));
				// the automatic size may only be used where it is large enough
				stream<T, U>(tn, nh, n, w, cuts, (r / 6) % 2, chunk ? chunk : (nh < 3 ? 2 * nh - 1 : 0));
			}
		}
	}
	for (int i = 0; i < (thorough ? 4000 : 600); ++i) {
		const size_t nh = irand(1, i % 4 ? 12 : 70);
		std::vector<size_t> cuts;
		size_t n = 0;
		const int blocks = irand(1, 9);
		for (int b = 0; b < blocks; ++b) {
			cuts.push_back(irand(0, i % 3 ? 2 * nh : 6));
			n += cuts.back();
		}
		stream<T, U>(tn, nh, n, pick(i), cuts, (i / 6) % 2, 2 * nh - 1 + size_t(irand(0, 3) ? irand(0, 9) : irand(0, 90)));
	}
}

template <class T, class U>
void whole(const char* tn, size_t maxTaps, size_t maxN) {
	using R = multiplies_result_t<T, U>;
	for (size_t nh = 1; nh <= maxTaps; ++nh) {
		for (size_t n = 0; n <= maxN; ++n) {
			std::vector<T> a(n);
			std::vector<U> h(nh);
			fillSmall(a);
			fillSmall(h);
			const Signal<T> sa(a.begin(), a.end());
			const Signal<U> sh(h.begin(), h.end());
			std::vector<R> full(n ? n + nh - 1 : 0, R(0));
			for (size_t i = 0; i < n; ++i) {
				for (size_t k = 0; k < nh; ++k) { full[i + k] += R(a[i]) * R(h[k]); }
			}
			std::vector<R> central;
			const size_t lo = std::min(n, nh), hi = std::max(n, nh);
			if (n) { central.assign(full.begin() + (lo - 1), full.begin() + hi); }
			const size_t chunk = 2 * nh - 1 + size_t(irand(0, 5));
			std::string msg;
			const auto go = [&](const char* what, const std::vector<R>& want, bool exact, auto&& into, auto&& make) {
				const std::string key = cat(what, ".", tn);
				begin(key, "taps=", nh, " samples=", n, " chunk=", chunk, " a=", vec(a), " h=", vec(h));
				Signal<R> out(want.size(), R(remove_complex_t<R>(55)));
				into(out);
				check(same(want, out, exact, msg), key + ".into", "output", msg);
				const Signal<R> o = make();
				check(same(want, o, exact, msg), key + ".new", "output", msg);
			};
			go("full.conv", full, true, [&](auto& o) { Filter(o, sa, sh, CONV_FULL, FILTER_CONV); }, [&] { return Filter(sa, sh, CONV_FULL, FILTER_CONV); });
			go("full.ola", full, false, [&](auto& o) { Filter(o, sa, sh, CONV_FULL, FILTER_OLA, chunk); }, [&] { return Filter(sa, sh, CONV_FULL, FILTER_OLA, chunk); });
			go("central.conv", central, true, [&](auto& o) { Filter(o, sa, sh, CONV_CENTRAL, FILTER_CONV); }, [&] { return Filter(sa, sh, CONV_CENTRAL, FILTER_CONV); });
			go("central.ola", central, false, [&](auto& o) { Filter(o, sa, sh, CONV_CENTRAL, FILTER_OLA, chunk); }, [&] { return Filter(sa, sh, CONV_CENTRAL, FILTER_OLA, chunk); });
		}
	}
}

int main(int argc, char** argv) {
	init(argc, argv);
	using C = std::complex<double>;
	using CF = std::complex<float>;
	const size_t k = thorough ? 2 : 1;
#if defined(PART1)
	streams<double, double>("double", 7 * k, 12 * k);
	whole<double, double>("double", 9, 14);
#elif defined(PART2)
	streams<float, float>("float", 6 * k, 9 * k);
	whole<float, float>("float", 9, 14);
#elif defined(PART3)
	streams<C, C>("complex", 5 * k, 8 * k);
	whole<C, C>("complex", 6, 9);
#elif defined(PART4)
	streams<C, double>("complex-by-real", 5 * k, 8 * k);
	whole<C, double>("complex-by-real", 6, 9);
#elif defined(PART5)
	streams<CF, float>("cfloat-by-float", 5 * k, 8 * k);
	whole<float, CF>("float-by-cfloat", 6, 9);
#endif
	return finish();
}
