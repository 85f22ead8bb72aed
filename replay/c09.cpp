// C09: recursive filters against the difference equation, in one call, sample by sample, block by block and in place.
#include "replay.hpp"
#include <dspbb/Filtering/IIR/Filter.hpp>
#include <dspbb/Primitives/Signal.hpp>
#include <dspbb/Primitives/SignalView.hpp>
using namespace dspbb;
using namespace rp;

template <class T>
double tol() { return std::is_same_v<remove_complex_t<T>, float> ? 2e-3 : 1e-8; }

// the newest sample goes with the highest coefficient
template <class T, class S>
std::vector<T> oracle(const std::vector<T>& x, const std::vector<S>& b, const std::vector<S>& a) {
	std::vector<T> y(x.size(), T(0));
	const size_t nb = b.size(), na = a.size();
	for (size_t t = 0; t < x.size(); ++t) {
		T s(0);
		for (size_t k = 0; k < nb; ++k) { if (t + k + 1 >= nb) { s += T(b[k]) * x[t + k + 1 - nb]; } }
		for (size_t k = 0; k + 1 < na; ++k) { if (t + k + 1 >= na) { s -= T(a[k]) * y[t + k + 1 - na]; } }
		y[t] = s / T(a.back());
	}
	return y;
}
template <class T, class O>
bool same(const std::vector<T>& want, const O& got, size_t first, std::string& msg) {
	double scale = 1;
	for (const auto& w : want) { scale = std::max<double>(scale, std::abs(w)); }
	for (size_t i = 0; i < got.size(); ++i) {
		if (!(std::abs(got[i] - want[first + i]) <= tol<T>() * scale)) { msg = cat("sample ", first + i, " is ", got[i], " expected ", want[first + i]); return false; }
	}
	return true;
}

template <class T, class State, class Sys>
void run(const std::string& form, const std::vector<T>& x, const std::vector<T>& want, const Sys& sys, size_t order, bool exactOrder = true) {
	std::string msg;
	const Signal<T> in(x.begin(), x.end());
	State st(order);
	begin(form, "order ", order, " system ", sys.order(), " samples ", x.size());
	check(exactOrder ? st.order() == order : st.order() >= order && st.order() <= order + 1, form + ".order", st.order());
	check(same(want, Filter(in, sys, st), 0, msg), form + ".new", msg);
	// resetting restores the state at rest
	st.reset();
	Signal<T> big(x.size() + 4, T(7));
	Filter(AsView(big).subsignal(2, x.size()), AsConstView(in), sys, st);
	check(same(want, AsView(big).subsignal(2, x.size()), 0, msg), form + ".view-after-reset", msg);
	check(big[0] == T(7) && big[1] == T(7) && big[x.size() + 2] == T(7) && big[x.size() + 3] == T(7), form + ".outside", "samples next to the output written");
	st.reset();
	Signal<T> io = in;
	Filter(io, io, sys, st);
	check(same(want, io, 0, msg), form + ".in-place", msg);
	// sample by sample
	State one;
	one.order(order);
	Signal<T> out(x.size());
	for (size_t i = 0; i < x.size(); ++i) { out[i] = one.feed(in[i], sys); }
	check(same(want, out, 0, msg), form + ".feed", msg);
	// blocks, the state copied and moved in between
	for (int rep = 0; rep < 3; ++rep) {
		State s2(order);
		size_t at = 0;
		bool ok = true;
		std::string cuts;
		while (at < x.size()) {
			const size_t len = std::min<size_t>(x.size() - at, rep == 0 ? 1 : size_t(irand(0, rep == 1 ? 3 : 9)));
			Signal<T> blk(in.begin() + at, in.begin() + at + len);
			if (rep == 2 && at % 2) { Filter(blk, blk, sys, s2); }
			else { blk = Filter(blk, sys, s2); }
			cuts += cat(len, " ");
			if (ok && !same(want, blk, at, msg)) { ok = false; }
			State s3 = s2;
			s2 = std::move(s3);
			at += len;
		}
		check(ok, form + ".blocks", "block sizes ", cuts, ": ", msg);
	}
	// a state used for something else and reset, larger than needed
	State wide(order + 3);
	check(same(want, Filter(in, sys, wide), 0, msg), form + ".wide-state", msg);
	wide.reset();
	wide.order(order);
	check(same(want, Filter(in, sys, wide), 0, msg), form + ".reordered", msg);
}

template <class T, class S>
void transfer(const std::string& tn, size_t nb, size_t na, size_t len) {
	std::vector<S> b(nb), a(na);
	fillReal(b, -1, 1);
	fillReal(a, -1, 1);
	for (size_t k = 0; k + 1 < na; ++k) { a[k] *= S(1.6 / double(na)); }
	a.back() = S(irand(0, 1) ? 1.0 : drand(1.2, 2.5) * (irand(0, 1) ? 1 : -1));
	std::vector<T> x(len);
	fillReal(x, -3, 3);
	const DiscreteTransferFunction<S> sys{ Polynomial<S>(b.begin(), b.end()), Polynomial<S>(a.begin(), a.end()) };
	const auto want = oracle<T, S>(x, b, a);
	const size_t order = sys.order();
	run<T, DirectFormI<T>>("direct-form-1." + tn, x, want, sys, order);
	run<T, DirectFormII<T>>("direct-form-2." + tn, x, want, sys, order);
}

// real roots only, or conjugate pairs as well
template <class T, class S>
void sections(const std::string& tn, size_t zr, size_t zc, size_t pr, size_t pc, size_t len) {
	std::vector<std::complex<S>> zs, ps;
	const auto roots = [&](auto& v, size_t r, size_t c, double top) {
		for (size_t i = 0; i < r; ++i) { v.push_back(S(drand(-top, top))); }
		for (size_t i = 0; i < c; ++i) {
			const std::complex<S> z = std::polar<S>(S(drand(0.1, top)), S(drand(0.2, 2.9)));
			v.push_back(z);
			v.push_back(std::conj(z));
		}
	};
	roots(zs, zr, zc, 1.0);
	roots(ps, pr, pc, 0.85);
	DiscreteZeroPoleGain<S> zpk;
	zpk.gain = S(drand(0.5, 2));
	zpk.zeros = FactoredPolynomial<S>(zs.begin(), zs.end());
	zpk.poles = FactoredPolynomial<S>(ps.begin(), ps.end());
	const DiscreteTransferFunction<S> tf{ zpk };
	const CascadedBiquad<S> cas{ zpk };
	const std::vector<S> b(tf.numerator.coefficients().begin(), tf.numerator.coefficients().end()), a(tf.denominator.coefficients().begin(), tf.denominator.coefficients().end());
	std::vector<T> x(len);
	fillReal(x, -3, 3);
	const auto want = oracle<T, S>(x, b, a);
	const size_t order = std::max(zs.size(), ps.size());
	run<T, DirectFormI<T>>("direct-form-1." + tn, x, want, tf, order);
	run<T, DirectFormII<T>>("direct-form-2." + tn, x, want, tf, order);
	run<T, CascadedForm<T>>("cascade." + tn, x, want, cas, order, false);
}
// sections given directly
template <class T, class S>
void given(const std::string& tn, size_t n, size_t len) {
	CascadedBiquad<S> sys;
	sys.sections.resize(n);
	std::vector<T> x(len);
	fillReal(x, -3, 3);
	std::vector<T> want = x;
	for (auto& s : sys.sections) {
		for (auto& c : s.numerator) { c = S(drand(-1, 1)); }
		s.denominator = { S(drand(-0.4, 0.4)), S(drand(-0.8, 0.8)) };
		s.numOrder = s.denOrder = 2;
		want = oracle<T, S>(want, { s.numerator.begin(), s.numerator.end() }, { s.denominator[0], s.denominator[1], S(1) });
	}
	run<T, CascadedForm<T>>("cascade-given." + tn, x, want, sys, 2 * n);
}

template <class T, class S>
void all(const std::string& tn) {
	const size_t top = thorough ? 7 : 5;
	for (size_t nb = 0; nb <= top; ++nb) {
		for (size_t na = 1; na <= top; ++na) {
			for (size_t len : { size_t(0), size_t(1), size_t(2), size_t(5), size_t(12 + nb + na) }) { transfer<T, S>(tn, nb, na, len); }
		}
	}
	for (int r = 0; r <= 3; ++r) {
		for (int c = 0; c <= (thorough ? 3 : 2); ++c) {
			for (int p = 0; p <= r; ++p) {
				if (r + c == 0) { continue; }
				// fewer zeros than poles, or fewer poles than zeros
				sections<T, S>(tn, p, c, r, c, 21);
				sections<T, S>(tn, r, c / 2, r, c, 21);
				sections<T, S>(tn, r, c, p, c, 21);
				// as many zeros as poles, split differently between real and complex
				sections<T, S>(tn, r, c, r, c, 21);
				if (r >= 2) { sections<T, S>(tn, r, c, r - 2, c + 1, 21); }
				if (c >= 1) { sections<T, S>(tn, r, c, r + 2, c - 1, 21); }
			}
		}
	}
	for (size_t n = 0; n <= 4; ++n) { given<T, S>(tn, n, 17); given<T, S>(tn, n, 1); }
}

int main(int argc, char** argv) {
	init(argc, argv);
#ifdef PART1
	all<double, double>("double");
#else
	all<float, float>("float");
	all<std::complex<double>, double>("complex");
#endif
	return finish();
}
