// C14: polynomials and factored polynomials against sums and products of small integers (exact in float).
#include "replay.hpp"
#include <dspbb/Math/Polynomials.hpp>
#include <list>
using namespace dspbb;
using namespace rp;

template <class T>
using Cx = std::complex<T>;
using Big = std::complex<long double>;

template <class T>
struct Roots {
	std::vector<T> re;
	std::vector<Cx<T>> pairs;
};
template <class T>
Roots<T> pick(size_t r, size_t c) {
	Roots<T> s;
	for (size_t i = 0; i < r; ++i) { s.re.push_back(T(irand(-3, 3))); }
	for (size_t i = 0; i < c; ++i) { s.pairs.push_back({ T(irand(-2, 2)), T(irand(1, 2)) }); }
	return s;
}
template <class T>
FactoredPolynomial<T> build(const Roots<T>& s) {
	FactoredPolynomial<T> f;
	f.resize(s.re.size(), s.pairs.size());
	std::copy(s.re.begin(), s.re.end(), f.real_roots().begin());
	std::copy(s.pairs.begin(), s.pairs.end(), f.complex_pairs().begin());
	return f;
}
template <class T>
bool holds(const FactoredPolynomial<T>& f, const Roots<T>& s, std::string& msg) {
	const size_t n = s.re.size() + 2 * s.pairs.size();
	if (f.num_real_roots() != s.re.size() || f.num_complex_pairs() != s.pairs.size() || f.num_complex_roots() != 2 * s.pairs.size() || f.num_roots() != n || f.order() != n
		|| f.real_roots().size() != s.re.size() || f.complex_pairs().size() != s.pairs.size()) { msg = cat("counts ", f.num_real_roots(), " real roots, ", f.num_complex_pairs(), " pairs, expected ", s.re.size(), ", ", s.pairs.size()); return false; }
	for (size_t i = 0; i < s.re.size(); ++i) {
		if (f.real_roots()[i] != s.re[i]) { msg = cat("real root ", i, " is ", f.real_roots()[i], " expected ", s.re[i]); return false; }
	}
	for (size_t i = 0; i < s.pairs.size(); ++i) {
		if (f.complex_pairs()[i] != s.pairs[i]) { msg = cat("pair ", i, " is ", f.complex_pairs()[i], " expected ", s.pairs[i]); return false; }
	}
	return true;
}
template <class T>
Big product(const Roots<T>& s, Big x) {
	Big p(1);
	for (auto r : s.re) { p *= x - Big(r); }
	for (auto z : s.pairs) { p *= (x - Big(z.real(), z.imag())) * (x - Big(z.real(), -z.imag())); }
	return p;
}
template <class A>
bool near(A got, Big want, double scale, double rel) { return std::abs(Big(got) - want) <= rel * (1 + scale); }

template <class T>
void values() {
	const std::string ty = sizeof(T) == 4 ? "float" : "double";
	const double rel = sizeof(T) == 4 ? 1e-4 : 1e-12;
	std::string msg;
	for (size_t n = 0; n <= 12; ++n) {
		std::vector<T> c;
		for (size_t i = 0; i < n; ++i) { c.push_back(T(irand(-4, 4))); }
		const Polynomial<T> p(c.begin(), c.end());
		begin("eval." + ty, "coefficients ", n);
		check(p.size() == n && p.order() == (n ? n - 1 : 0) && p.coefficients().size() == n, "eval." + ty, "size and order");
		for (int x = -3; x <= 3; ++x) {
			long double v = 0, w = 1, m = 0;
			for (size_t i = 0; i < n; ++i) { v += c[i] * w; m += std::abs((long double)c[i] * w); w *= x; }
			check(near(p(T(x)), Big(v), m, rel), "eval." + ty, "value at ", x, " is ", p(T(x)), " expected ", (double)v);
			Big z(x, 0.5L), u(0), q(1);
			double mz = 0;
			for (size_t i = 0; i < n; ++i) { u += Big(c[i]) * q; mz += std::abs(Big(c[i]) * q); q *= z; }
			const Cx<T> got = p(Cx<T>(T(x), T(0.5)));
			check(near(got, u, mz, rel), "eval." + ty + ".complex", "value at ", x, "+0.5i is ", got);
		}
		for (size_t m = 0; m <= 12; m += 3) {
			Polynomial<T> q = p;
			q.resize(m, T(7));
			bool ok = q.size() == m;
			for (size_t i = 0; i < m && ok; ++i) { ok = q.coefficients()[i] == (i < n ? c[i] : T(7)); }
			begin("resize." + ty, "from ", n, " to ", m);
			check(ok, "resize." + ty, "coefficients");
		}
		for (T k : { T(2), T(-3), T(0) }) {
			std::vector<T> a = c;
			impl::MultiplyPolynomialBy1stOrder(BasicSignalView<T, DOMAINLESS>(a.data(), n), k);
			bool ok = true;
			for (size_t i = 0; i < n; ++i) { ok = ok && a[i] == (i ? c[i - 1] : T(0)) + c[i] * k; }
			begin("multiply1." + ty, "coefficients ", n, " constant ", k);
			check(ok, "multiply1." + ty, "coefficients of the product");
			std::vector<Cx<T>> z(c.begin(), c.end());
			impl::MultiplyPolynomialBy1stOrder(BasicSignalView<Cx<T>, DOMAINLESS>(z.data(), n), Cx<T>(k, T(1)));
			ok = true;
			for (size_t i = 0; i < n; ++i) { ok = ok && z[i] == Cx<T>(i ? c[i - 1] : T(0)) + c[i] * Cx<T>(k, T(1)); }
			check(ok, "multiply1." + ty + ".complex", "coefficients of the product");
			std::vector<T> b = c;
			impl::MultiplyPolynomialBy2ndOrder(BasicSignalView<T, DOMAINLESS>(b.data(), n), k, T(5));
			ok = true;
			for (size_t i = 0; i < n; ++i) { ok = ok && b[i] == (i > 1 ? c[i - 2] : T(0)) + (i ? c[i - 1] : T(0)) * T(5) + c[i] * k; }
			check(ok, "multiply2." + ty, "coefficients of the product");
		}
	}
	for (size_t r = 0; r <= 7; ++r) {
		for (size_t c = 0; c <= 3; ++c) {
			for (int rep = 0; rep < (thorough ? 6 : 2); ++rep) {
				const auto s = pick<T>(r, c);
				const auto f = build(s);
				begin("factored." + ty, "real ", vec(s.re), " pairs ", vec(s.pairs));
				check(holds(f, s, msg), "factored." + ty, msg);
				const Polynomial<T> e = ExpandPolynomial(f);
				check(e.size() == r + 2 * c + 1 && e.order() == f.order(), "expand." + ty, "order ", e.order());
				check(e.coefficients()[e.size() - 1] == T(1), "expand." + ty, "leading coefficient ", e.coefficients()[e.size() - 1]);
				// exact integers
				std::vector<long double> w{ 1 };
				const auto by = [&w](std::vector<long double> q) {
					std::vector<long double> o(w.size() + q.size() - 1, 0);
					for (size_t i = 0; i < w.size(); ++i) { for (size_t j = 0; j < q.size(); ++j) { o[i + j] += w[i] * q[j]; } }
					w = o;
				};
				for (auto x : s.re) { by({ -(long double)x, 1 }); }
				for (auto z : s.pairs) { by({ (long double)std::norm(Cx<long double>(z)), -2 * (long double)z.real(), 1 }); }
				bool ok = w.size() == e.size();
				for (size_t i = 0; i < w.size() && ok; ++i) { ok = std::abs(w[i] - e.coefficients()[i]) <= rel * (1 + std::abs(w[i])); }
				check(ok, "expand." + ty, "coefficients");
				for (int x = -4; x <= 4; ++x) {
					const Big v = product(s, Big(x)), u = product(s, Big(x, 0.5L));
					const double m = std::abs(v), mu = std::abs(u);
					check(near(f(T(x)), v, m, rel), "factored." + ty, "value at ", x, " is ", f(T(x)), " expected ", (double)v.real());
					check(near(f(Cx<T>(T(x), T(0.5))), u, mu, rel), "factored." + ty + ".complex", "value at ", x, "+0.5i is ", f(Cx<T>(T(x), T(0.5))));
				}
			}
		}
	}
}

template <class T>
void storage() {
	const std::string ty = sizeof(T) == 4 ? "float" : "double";
	std::string msg;
	const T x = T(11);
	const Cx<T> z(T(12), T(13));
	for (size_t r = 0; r <= 4; ++r) {
		for (size_t c = 0; c <= 3; ++c) {
			const auto s = pick<T>(r, c);
			const Roots<T> none;
			begin("copy." + ty, "real ", vec(s.re), " pairs ", vec(s.pairs));
			{
				auto f = build(s);
				FactoredPolynomial<T> g(f);
				check(holds(g, s, msg) && holds(f, s, msg), "copy." + ty, msg);
				for (auto& v : f.real_roots()) { v = T(99); }
				for (auto& v : f.complex_pairs()) { v = Cx<T>(T(99)); }
				check(holds(g, s, msg), "copy." + ty, "not independent: ", msg);
				FactoredPolynomial<T> h(std::move(g));
				check(holds(h, s, msg), "move." + ty, msg);
				check(holds(g, none, msg), "move." + ty, "the source: ", msg);
				g = h;
				check(holds(g, s, msg) && holds(h, s, msg), "assign.moved-from." + ty, msg);
			}
			for (size_t R = 0; R <= 4; ++R) {
				for (size_t C = 0; C <= 3; ++C) {
					begin("assign." + ty, "real ", vec(s.re), " pairs ", vec(s.pairs), " to one of ", R, " and ", C);
					{
						const auto f = build(s);
						auto g = build(pick<T>(R, C));
						g = f;
						check(holds(g, s, msg) && holds(f, s, msg), "assign." + ty, msg);
						auto h = build(pick<T>(R, C));
						h = std::move(g);
						check(holds(h, s, msg), "move-assign." + ty, msg);
						check(holds(g, none, msg), "move-assign." + ty, "the source: ", msg);
					}
					auto grown = s;
					grown.re.resize(R, x);
					grown.pairs.resize(C, z);
					begin("resize." + ty, "real ", vec(s.re), " pairs ", vec(s.pairs), " to ", R, " and ", C);
					auto f = build(s);
					f.resize(R, C, x, z);
					check(holds(f, grown, msg), "factored-resize." + ty, msg);
					// back again: what was cut off is filled
					auto back = grown;
					back.re.resize(r, T(1));
					back.pairs.resize(c, Cx<T>(T(2), T(3)));
					f.resize(r, c, T(1), Cx<T>(T(2), T(3)));
					check(holds(f, back, msg), "factored-resize." + ty, "back: ", msg);
				}
			}
			for (size_t R = 0; R <= r + 2 * c + 3; ++R) {
				begin("regroup." + ty, "real ", vec(s.re), " pairs ", vec(s.pairs), " to ", R);
				auto f = build(s);
				bool thrown = false;
				try { f.regroup(R, x, z); } catch (const std::invalid_argument&) { thrown = true; }
				const bool bad = R > r + 2 * c || (r + R) % 2 != 0;
				check(thrown == bad, "regroup." + ty, thrown ? "refused" : "accepted");
				auto want = s;
				if (!bad) {
					want.re.resize(R, x);
					want.pairs.resize((r + 2 * c - R) / 2, z);
				}
				check(holds(f, want, msg), "regroup." + ty, msg);
			}
		}
	}
}

template <class T>
void construct() {
	const std::string ty = sizeof(T) == 4 ? "float" : "double";
	std::string msg;
	for (size_t r = 0; r <= 5; ++r) {
		for (size_t c = 0; c <= 3; ++c) {
			for (int rep = 0; rep < (thorough ? 20 : 5); ++rep) {
				const auto s = pick<T>(r, c);
				std::vector<Cx<T>> all(s.re.begin(), s.re.end());
				for (auto z : s.pairs) { all.push_back(z); all.push_back(std::conj(z)); }
				for (size_t i = all.size(); i > 1; --i) { std::swap(all[i - 1], all[irand(0, int(i) - 1)]); }
				Roots<T> want;
				for (auto z : all) {
					if (z.imag() == 0) { want.re.push_back(z.real()); }
					if (z.imag() > 0) { want.pairs.push_back(z); }
				}
				begin("construct." + ty, "roots ", vec(all));
				bool thrown = false;
				try {
					const FactoredPolynomial<T> f(all.begin(), all.end());
					check(holds(f, want, msg), "construct." + ty, msg);
					const std::list<Cx<T>> l(all.begin(), all.end());
					const FactoredPolynomial<T> g(l.begin(), l.end());
					check(holds(g, want, msg), "construct." + ty + ".list", msg);
				} catch (const std::invalid_argument&) { thrown = true; }
				check(!thrown, "construct." + ty, "paired roots refused");
				if (c == 0) { continue; }
				// one root of a pair missing, doubled or moved
				for (int kind = 0; kind < 4; ++kind) {
					auto bad = all;
					size_t i = 0;
					while (bad[i].imag() == 0) { ++i; }
					if (kind == 0) { bad.erase(bad.begin() + i); }
					if (kind == 1) { bad[i] = Cx<T>(bad[i].real() + T(10), bad[i].imag()); }
					if (kind == 2) { bad.push_back(bad[i]); }
					if (kind == 3) { bad[i] = std::conj(bad[i]); }
					begin("construct." + ty, "unpaired roots ", vec(bad));
					bool refused = false;
					try { const FactoredPolynomial<T> f(bad.begin(), bad.end()); } catch (const std::invalid_argument&) { refused = true; }
					check(refused, "construct." + ty, "unpaired roots accepted");
				}
			}
		}
	}
	const FactoredPolynomial<T> f{ Cx<T>(T(1)), Cx<T>(T(2), T(-3)), Cx<T>(T(2), T(3)) };
	Roots<T> w;
	w.re = { T(1) };
	w.pairs = { Cx<T>(T(2), T(3)) };
	begin("construct." + ty, "initialiser list");
	check(holds(f, w, msg), "construct." + ty, msg);
	const Polynomial<T> p{ T(1), T(2), T(3) };
	check(p.size() == 3 && p.coefficients()[0] == T(1) && p.coefficients()[2] == T(3) && p(T(2)) == T(17), "construct." + ty, "polynomial of a list");
	check(holds(FactoredPolynomial<T>(), Roots<T>(), msg) && FactoredPolynomial<T>()(T(5)) == T(1) && Polynomial<T>().size() == 0 && Polynomial<T>()(T(5)) == T(0), "construct." + ty, "empty");
}

int main(int argc, char** argv) {
	init(argc, argv);
	values<double>();
	values<float>();
	storage<double>();
	storage<float>();
	construct<double>();
	construct<float>();
	return finish();
}
