// C15: the value of a system does not depend on its representation.
#include "replay.hpp"
#include <dspbb/LTISystems/Systems.hpp>
using namespace dspbb;
using namespace rp;

template <class T>
using Cx = std::complex<T>;
using Big = std::complex<long double>;

template <class T>
struct Roots {
	std::vector<T> re;
	std::vector<Cx<T>> pairs;
	size_t count() const { return re.size() + 2 * pairs.size(); }
	Big at(Big x) const {
		Big p(1);
		for (auto r : re) { p *= x - Big(r); }
		for (auto z : pairs) { p *= (x - Big(z.real(), z.imag())) * (x - Big(z.real(), -z.imag())); }
		return p;
	}
	FactoredPolynomial<T> build() const {
		FactoredPolynomial<T> f;
		f.resize(re.size(), pairs.size());
		std::copy(re.begin(), re.end(), f.real_roots().begin());
		std::copy(pairs.begin(), pairs.end(), f.complex_pairs().begin());
		return f;
	}
	std::string show() const {
		std::string s = "{";
		for (auto r : re) { s += cat(" ", r); }
		for (auto z : pairs) { s += cat(" ", z.real(), "+-", z.imag(), "i"); }
		return s + " }";
	}
};
// sign: 0 any, 1 positive, 2 negative, 3 distinct magnitudes
template <class T>
Roots<T> pick(size_t r, size_t c, int sign) {
	Roots<T> s;
	for (size_t i = 0; i < r; ++i) {
		T v = T(irand(-4, 4)) / 4;
		if (sign == 1) { v = T(irand(1, 5)) / 4; }
		if (sign == 2) { v = -T(irand(1, 5)) / 4; }
		if (sign == 3) { v = T(int(i + 1) * (i % 2 ? 1 : -1)) / 4; }
		s.re.push_back(v);
	}
	for (size_t i = 0; i < c; ++i) { s.pairs.push_back({ T(irand(-4, 4)) / 4, T(irand(1, 4)) / 4 }); }
	return s;
}

template <class S, class T>
void sameValue(const S& sys, T gain, const Roots<T>& z, const Roots<T>& p, const std::string& key, const char* what) {
	const double rel = sizeof(T) == 4 ? 2e-4 : 1e-11;
	for (auto x : { Cx<T>(T(0.6), T(1.7)), Cx<T>(T(-2.1), T(0.4)), Cx<T>(T(1.9), T(-1.3)) }) {
		const Big X(x.real(), x.imag());
		const Big want = Big(gain) * z.at(X) / p.at(X);
		const Big got(sys(x));
		if (!check(double(std::abs(got - want)) <= rel * (double(std::abs(want)) + 1e-3), key, what, " of gain ", gain, " zeros ", z.show(), " poles ", p.show(), " at ", x, " is ", Cx<double>(got), " expected ", Cx<double>(want))) { return; }
	}
	for (T x : { T(2.3), T(-1.9) }) {
		const Big want = Big(gain) * z.at(Big(x)) / p.at(Big(x));
		const double got = sys(x);
		if (!check(std::abs(got - double(want.real())) <= rel * (double(std::abs(want)) + 1e-3), key, what, " of gain ", gain, " zeros ", z.show(), " poles ", p.show(), " at real ", x, " is ", got, " expected ", double(want.real()))) { return; }
	}
}

template <class T>
std::vector<T> flat(const Polynomial<T>& p) { return { p.coefficients().begin(), p.coefficients().end() }; }
template <class T>
std::vector<T> flat(const FactoredPolynomial<T>& p) {
	std::vector<T> v{ T(p.num_real_roots()), T(p.num_complex_pairs()) };
	for (auto r : p.real_roots()) { v.push_back(r); }
	for (auto r : p.complex_pairs()) { v.push_back(r.real()); v.push_back(r.imag()); }
	return v;
}
template <class T, eDiscretization D>
std::vector<std::vector<T>> content(const ZeroPoleGain<T, D>& s) { return { { s.gain }, flat(s.zeros), flat(s.poles) }; }
template <class T, eDiscretization D>
std::vector<std::vector<T>> content(const TransferFunction<T, D>& s) { return { flat(s.numerator), flat(s.denominator) }; }
template <class T>
std::vector<std::vector<T>> content(const CascadedBiquad<T>& s) {
	std::vector<std::vector<T>> v;
	for (auto& b : s.sections) { v.push_back({ b.numerator[0], b.numerator[1], b.numerator[2], b.denominator[0], b.denominator[1], T(b.numOrder), T(b.denOrder) }); }
	return v;
}
template <class S, class Change>
void copies(const S& s, const S& other, Change change, const std::string& key, const char* what) {
	const auto want = content(s);
	S a(s);
	check(content(a) == want, key, what, ": copy differs from its source");
	change(a);
	check(content(s) == want, key, what, ": changing a copy changes its source");
	S b(other);
	b = s;
	check(content(b) == want, key, what, ": assigned system differs from its source");
	change(b);
	check(content(s) == want, key, what, ": changing an assigned system changes its source");
	S c(s);
	S d(std::move(c));
	check(content(d) == want, key, what, ": moved system differs from its source");
	c = std::move(d);
	check(content(c) == want, key, what, ": move-assigned system differs from its source");
	S& self = c;
	c = self;
	check(content(c) == want, key, what, ": self-assignment changes the system");
	S e(other);
	e = std::move(c);
	check(content(e) == want, key, what, ": system moved over another differs from its source");
}

template <class T>
void systems() {
	const std::string ty = sizeof(T) == 4 ? "float" : "double";
	const size_t N = thorough ? 5 : 4;
	for (size_t zr = 0; zr <= N; ++zr) for (size_t zc = 0; zc <= 2; ++zc) for (size_t pr = 0; pr <= N; ++pr) for (size_t pc = 0; pc <= 2; ++pc) for (int sign = 0; sign < 4; ++sign) {
		const auto z = pick<T>(zr, zc, sign), p = pick<T>(pr, pc, (sign + zr) % 4);
		const T gain = T(irand(1, 12)) * (irand(0, 1) ? T(0.25) : T(-0.25));
		DiscreteZeroPoleGain<T> s{ gain, z.build(), p.build() };
		const std::string c = cat(ty, ".zeros.", zr, "+", zc, ".poles.", pr, "+", pc);
		const size_t order = std::max(z.count(), p.count());
		if (begin("zpk." + c), true) {
			sameValue(s, gain, z, p, "zpk." + c, "zero-pole-gain system");
			check(s.order() == order, "zpk." + c, "order ", s.order(), " expected ", order);
		}
		if (begin("tf." + c), true) {
			const DiscreteTransferFunction<T> t(s);
			const ContinuousTransferFunction<T> u(ContinuousZeroPoleGain<T>{ gain, z.build(), p.build() });
			sameValue(t, gain, z, p, "tf." + c, "transfer function");
			sameValue(u, gain, z, p, "tf." + c, "continuous transfer function");
			check(t.order() == order && u.order() == order, "tf." + c, "order ", t.order(), " expected ", order);
			check(t.numerator.size() == z.count() + 1 && t.denominator.size() == p.count() + 1, "tf." + c, "number of coefficients");
		}
		if (begin("cascade." + c), true) {
			const CascadedBiquad<T> b(s);
			if (z.count() + p.count() == 0) {
				check(b(T(2)) == gain, "cascade.no-roots-gain", "cascade of a system without zeros and poles and gain ", gain, " is ", b(T(2)));
				continue;
			}
			sameValue(b, gain, z, p, "cascade." + c, "cascade");
			check(b.order() == order, "cascade." + c, "order ", b.order(), " expected ", order, " zeros ", z.show(), " poles ", p.show());
			const size_t nz = (zr + 1) / 2 + zc, np = (pr + 1) / 2 + pc;
			check(b.sections.size() == std::max(nz, np), "cascade." + c, b.sections.size(), " sections");
		}
		if (sign == 0 && zr <= 2 && pr <= 2 && (begin("copy." + c), true)) {
			DiscreteZeroPoleGain<T> o{ T(7), pick<T>(pr, zc, 0).build(), pick<T>(zr, pc, 0).build() };
			copies(s, o, [](auto& x) { x.gain = 99; for (auto& r : x.zeros.real_roots()) { r = 77; } for (auto& r : x.poles.complex_pairs()) { r = 77; } }, "copy." + c, "zero-pole-gain system");
			copies(DiscreteTransferFunction<T>(s), DiscreteTransferFunction<T>(o), [](auto& x) { for (auto& r : x.numerator.coefficients()) { r = 77; } for (auto& r : x.denominator.coefficients()) { r = 78; } }, "copy." + c, "transfer function");
			copies(CascadedBiquad<T>(s), CascadedBiquad<T>(o), [](auto& x) { for (auto& r : x.sections) { r.numerator[0] = 77; r.denOrder = 0; } }, "copy." + c, "cascade");
		}
	}
	// many roots
	for (size_t n : { 7, 11, 16 }) for (int sign = 0; sign < 4; ++sign) {
		const std::string c = cat("many.", ty, ".", n);
		begin(c);
		const auto z = pick<T>(n, n / 3, sign), p = pick<T>(n - 3, n / 2, 3 - sign);
		DiscreteZeroPoleGain<T> s{ T(0.5), z.build(), p.build() };
		sameValue(CascadedBiquad<T>(s), T(0.5), z, p, c, "cascade");
		sameValue(s, T(0.5), z, p, c, "zero-pole-gain system");
		if (n < 10 && sizeof(T) == 8) { sameValue(DiscreteTransferFunction<T>(s), T(0.5), z, p, c, "transfer function"); }
	}
}

template <class T>
void polynomials() {
	const std::string key = sizeof(T) == 4 ? "polynomials.float" : "polynomials.double";
	begin(key);
	for (size_t n = 0; n <= 5; ++n) for (size_t m = 1; m <= 5; ++m) {
		std::vector<T> a, b;
		for (size_t i = 0; i < n; ++i) { a.push_back(T(irand(-3, 3))); }
		for (size_t i = 0; i < m; ++i) { b.push_back(T(irand(1, 3))); }
		const DiscreteTransferFunction<T> t{ Polynomial<T>(a.begin(), a.end()), Polynomial<T>(b.begin(), b.end()) };
		const Cx<T> x(T(0.5), T(1.5));
		Big num(0), den(0), X(x.real(), x.imag());
		for (size_t i = n; i-- > 0;) { num = num * X + Big(a[i]); }
		for (size_t i = m; i-- > 0;) { den = den * X + Big(b[i]); }
		check(std::abs(Big(t(x)) - num / den) <= 1e-4 * (1 + std::abs(num / den)), key, "value of a transfer function with ", n, " over ", m, " coefficients");
		check(t.order() == std::max(n ? n - 1 : 0, m - 1), key, "order of a transfer function with ", n, " over ", m, " coefficients is ", t.order());
		CascadedBiquad<T> empty;
		check(empty(x) == Cx<T>(1) && empty.order() == 0, key, "empty cascade");
	}
}

int main(int argc, char** argv) {
	init(argc, argv);
#ifdef PART1
	systems<float>();
	polynomials<float>();
#else
	systems<double>();
	polynomials<double>();
#endif
	return finish();
}
