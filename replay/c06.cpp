// C06: Convolution against the defining sum; integer-valued data, so every result is exact.
#include "replay.hpp"
#include <dspbb/Math/Convolution.hpp>
#include <dspbb/Primitives/Signal.hpp>
#include <dspbb/Primitives/SignalView.hpp>
using namespace dspbb;
using namespace rp;

template <class R, class T, class U>
std::vector<R> oracle(const std::vector<T>& u, const std::vector<U>& v) {
	if (u.empty() || v.empty()) { return {}; }
	std::vector<R> r(u.size() + v.size() - 1, R(0));
	for (size_t i = 0; i < u.size(); ++i) {
		for (size_t j = 0; j < v.size(); ++j) { r[i + j] += R(u[i]) * R(v[j]); }
	}
	return r;
}

template <class R>
bool same(const std::vector<R>& full, size_t off, const std::vector<R>& before, const BasicSignal<R, eSignalDomain::TIME>& got, bool acc, std::string& msg) {
	for (size_t i = 0; i < got.size(); ++i) {
		R want = full[off + i] + (acc ? before[i] : R(0));
		if (!(got[i] == want)) { msg = cat("out[", i, "]=", got[i], " expected ", want); return false; }
	}
	return true;
}

template <class T, class U>
void one(const char* tn, size_t nu, size_t nv, bool allRanges) {
	using R = multiplies_result_t<T, U>;
	std::vector<T> u(nu);
	std::vector<U> v(nv);
	fillSmall(u);
	fillSmall(v);
	const auto full = oracle<R>(u, v);
	const Signal<T> su(u.begin(), u.end());
	const Signal<U> sv(v.begin(), v.end());
	std::string msg;
	const std::string key = cat("conv.", tn);
	std::vector<std::pair<size_t, size_t>> ranges;
	const size_t N = full.size();
	if (allRanges) {
		for (size_t o = 0; o <= N; ++o) { for (size_t l = 0; o + l <= N; ++l) { ranges.push_back({ o, l }); } }
	}
	else {
		ranges = { { 0, N }, { 0, N / 2 }, { N / 2, N - N / 2 } };
		for (int r = 0; r < 6; ++r) {
			size_t o = irand(0, N), l = irand(0, std::min<size_t>(N - o, 40));
			ranges.push_back({ o, l });
			if (N - o < 60) { ranges.push_back({ o, N - o }); }
		}
		for (size_t o : { nu - 1, nv - 1, nu, nv, nu > 3 ? nu - 3 : 0, nv > 5 ? nv - 5 : 0 }) {
			if (o <= N) { ranges.push_back({ o, std::min<size_t>(N - o, 9) }); ranges.push_back({ o, N - o }); }
		}
	}
	for (auto [o, l] : ranges) {
		for (int acc = 0; acc < 2; ++acc) {
			begin(key, "|u|=", nu, " |v|=", nv, " offset=", o, " length=", l, acc ? " accumulate" : "", " u=", vec(u), " v=", vec(v));
			std::vector<R> before(l);
			fillSmall(before, 50);
			Signal<R> out(before.begin(), before.end());
			Convolution(out, su, sv, o, !acc);
			check(same(full, o, before, out, acc, msg), key + ".into", msg);
			if (acc == 0) {
				auto r = Convolution(su, sv, o, l);
				static_assert(std::is_same_v<typename decltype(r)::value_type, R>);
				check(r.size() == l && same(full, o, before, r, false, msg), key + ".new", "size ", r.size(), " ", msg);
				// operands through views, output through a view into the middle of a larger buffer
				Signal<R> big(l + 4, R(77));
				Convolution(AsView(big).subsignal(2, l), AsView(su), AsConstView(sv), o);
				bool edge = big[0] == R(77) && big[1] == R(77) && big[l + 2] == R(77) && big[l + 3] == R(77);
				Signal<R> mid(big.begin() + 2, big.begin() + 2 + l);
				check(edge && same(full, o, before, mid, false, msg), key + ".view", edge ? "" : "wrote outside the output ", msg);
			}
		}
	}
	{
		begin(key, "full |u|=", nu, " |v|=", nv, " u=", vec(u), " v=", vec(v));
		std::vector<R> none(N);
		auto r = Convolution(su, sv, CONV_FULL);
		check(r.size() == N && same(full, 0, none, r, false, msg), key + ".full", "size ", r.size(), " ", msg);
		Signal<R> out(N, R(3));
		Convolution(out, su, sv, CONV_FULL);
		check(same(full, 0, none, out, false, msg), key + ".full-into", msg);
		Signal<R> outa(N, R(3));
		std::vector<R> three(N, R(3));
		Convolution(outa, su, sv, CONV_FULL, false);
		check(same(full, 0, three, outa, true, msg), key + ".full-acc", msg);
		begin(key, "central |u|=", nu, " |v|=", nv, " u=", vec(u), " v=", vec(v));
		const size_t c = nu && nv ? std::max(nu, nv) - std::min(nu, nv) + 1 : 0;
		const size_t co = c ? std::min(nu, nv) - 1 : 0;
		auto rc = Convolution(su, sv, CONV_CENTRAL);
		check(rc.size() == c && same(full, co, none, rc, false, msg), key + ".central", "size ", rc.size(), " ", msg);
		Signal<R> outc(c, R(9));
		Convolution(outc, su, sv, CONV_CENTRAL);
		check(same(full, co, none, outc, false, msg), key + ".central-into", msg);
		Signal<R> outca(c, R(9));
		std::vector<R> nine(c, R(9));
		Convolution(outca, su, sv, CONV_CENTRAL, false);
		check(same(full, co, nine, outca, true, msg), key + ".central-acc", msg);
	}
}

template <class T>
void kernels_(const char* tn, size_t nu, size_t nv) {
	std::vector<T> u(nu), v(nv);
	fillSmall(u);
	fillSmall(v);
	const auto full = oracle<T>(u, v);
	const std::string key = cat("kernel.", tn);
	for (int rep = 0; rep < 4; ++rep) {
		size_t o = rep ? irand(0, full.size()) : 0;
		size_t l = rep ? irand(0, full.size() - o) : full.size();
		for (int acc = 0; acc < 2; ++acc) {
			begin(key, "|u|=", nu, " |v|=", nv, " offset=", o, " length=", l, " accumulate=", acc);
			std::vector<T> before(l);
			fillSmall(before, 40);
			for (int kind = 0; kind < 5; ++kind) {
				if (acc && kind == 1) { continue; }
				auto out = before;
				auto ub = u.data(), ue = u.data() + nu;
				auto vb = v.data(), ve = v.data() + nv;
				switch (kind) {
					case 0: kernels::ConvolutionNaive(ub, ue, vb, ve, out.begin(), out.end(), o, acc); break;
					case 1: kernels::ConvolutionReduce(ub, ue, vb, ve, out.begin(), out.end(), o, acc); break;
					case 2: kernels::ConvolutionSlide(ub, ue, vb, ve, out.data(), out.data() + l, o, acc); break;
					case 3: kernels::ConvolutionReduceVec(ub, ue, vb, ve, out.data(), out.data() + l, o, acc); break;
					case 4: kernels::ConvolutionReduceVec(ub, ue, vb, ve, out.data(), out.data() + l, o, acc, std::plus<>{}); break;
				}
				for (size_t i = 0; i < l; ++i) {
					if (!check(out[i] == full[o + i] + (acc ? before[i] : T(0)), cat(key, ".kind", kind), "out[", i, "]=", out[i])) { break; }
				}
			}
		}
	}
}

int main(int argc, char** argv) {
	init(argc, argv);
	const size_t D = thorough ? 10 : 6;
	for (size_t a = 0; a <= D; ++a) {
		for (size_t b = 0; b <= D; ++b) {
			one<double, double>("double", a, b, true);
			one<float, float>("float", a, b, true);
			one<std::complex<float>, std::complex<float>>("cfloat", a, b, a + b <= 7);
			one<float, std::complex<float>>("float-cfloat", a, b, a + b <= 7);
			one<std::complex<double>, double>("cdouble-double", a, b, a + b <= 7);
		}
	}
	for (size_t a = 1; a <= 140; a += 1 + size_t(irand(0, 6))) {
		for (size_t b : { 1, 2, 3, 5, 8, 16, 17, 31, 32, 33, 34, 35, 36, 40, 47, 64 }) {
			one<float, float>("float", a, b, false);
			one<double, double>("double", b, a, false);
		}
	}
	for (size_t a : { 33, 34, 37, 41, 48, 70 }) {
		one<std::complex<double>, std::complex<double>>("cdouble", a, 35, false);
		one<double, std::complex<double>>("double-cdouble", a, 36, false);
		one<double, float>("double-float", a, 36, false);
		one<float, double>("float-double", 39, a, false);
	}
	for (auto [a, b] : std::initializer_list<std::pair<size_t, size_t>>{ { 512, 512 }, { 513, 513 }, { 511, 520 }, { 600, 20 }, { 20, 600 }, { 700, 32 }, { 32, 700 }, { 33, 700 }, { 515, 530 } }) {
		one<float, float>("float", a, b, false);
		kernels_<double>("double", a, b);
		kernels_<double>("double", b, a);
	}
	for (int i = 0; i < (thorough ? 3000 : 500); ++i) {
		size_t a = irand(1, 70), b = irand(1, 70);
		kernels_<float>("float", a, b);
		kernels_<double>("double", b, a);
		if (i % 4 == 0) { kernels_<std::complex<float>>("cfloat", a, b); }
	}
	if (hints.count("na") && hints.count("nb")) {
		auto cl = [](long long x) { return size_t(std::clamp<long long>(x, 0, 1500)); };
		one<double, double>("double", cl(hints["na"]), cl(hints["nb"]), false);
		one<float, float>("float", cl(hints["na"]), cl(hints["nb"]), false);
		kernels_<double>("double", std::max<size_t>(1, cl(hints["na"])), std::max<size_t>(1, cl(hints["nb"])));
	}
	for (size_t a = 0; a < 6; ++a) {
		for (size_t b = 0; b < 6; ++b) {
			begin("length", "a=", a, " b=", b);
			check(ConvolutionLength(a, b, CONV_FULL) == (a && b ? a + b - 1 : 0), "length.full");
			check(ConvolutionLength(a, b, CONV_CENTRAL) == (a && b ? (a > b ? a - b : b - a) + 1 : 0), "length.central");
		}
	}
	return finish();
}
