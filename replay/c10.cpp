// C10: rational arithmetic against cross-multiplied integers (exhaustive over small components).
#include "replay.hpp"
#include <dspbb/Math/Rational.hpp>
using namespace dspbb;
using namespace rp;
using L = long long;

template <class T>
void lowest(const Rational<T>& q, const std::string& key) {
	check(q.Denominator() > 0, key + ".positive-denominator", L(q.Numerator()), "/", L(q.Denominator()));
	check(std::gcd(L(q.Numerator()), L(q.Denominator())) == 1, key + ".lowest-terms", L(q.Numerator()), "/", L(q.Denominator()));
}
template <class T>
void is(const Rational<T>& q, L n, L d, const std::string& key) {
	if (d < 0) { n = -n; d = -d; }
	check(__int128(q.Numerator()) * d == __int128(q.Denominator()) * n, key + ".value", L(q.Numerator()), "/", L(q.Denominator()), " expected ", n, "/", d);
	lowest(q, key);
}
static L fl(L n, L d) { L q = n / d; return q * d > n ? q - 1 : q; }

template <class T>
void single(const char* tn, L n, L d) {
	const std::string k = cat("single.", tn);
	begin(k, n, "/", d);
	const Rational<T> q{ T(n), T(d) };
	is(q, n, d, k + ".ctor");
	is(Rational<T>(T(n)), n, 1, k + ".ctor1");
	check(L(floor(q)) == fl(n, d), k + ".floor", L(floor(q)));
	check(L(ceil(q)) == -fl(-n, d), k + ".ceil", L(ceil(q)));
	is(frac(q), n - fl(n, d) * d, d, k + ".frac");
	check(double(q) == double(q.Numerator()) / double(q.Denominator()), k + ".double", double(q));
	check(std::abs(double(q) - double(n) / double(d)) < 1e-13 * (1 + std::abs(double(n))), k + ".double", double(q));
	check(float(q) == float(q.Numerator()) / float(q.Denominator()), k + ".float", float(q));
	auto a = q, b = q, c = q, e = q;
	is(++a, n + d, d, k + ".++"); is(a, n + d, d, k + ".++");
	is(--b, n - d, d, k + ".--"); is(b, n - d, d, k + ".--");
	is(c++, n, d, k + ".p++"); is(c, n + d, d, k + ".p++");
	is(e--, n, d, k + ".p--"); is(e, n - d, d, k + ".p--");
	auto z = q; z = z; is(z, n, d, k + ".self");
	z = q; z += z; is(z, 2 * n, d, k + ".self+=");
	z = q; z -= z; is(z, 0, 1, k + ".self-=");
	z = q; z *= z; is(z, n * n, d * d, k + ".self*=");
	if (n != 0) { z = q; z /= z; is(z, 1, 1, k + ".self/="); }
}

template <class T>
void integer(const char* tn, L n, L d, L m) {
	const std::string k = cat("integer.", tn);
	begin(k, n, "/", d, " and ", m);
	const Rational<T> q{ T(n), T(d) };
	const T M = T(m);
	is(q + M, n + d * m, d, k + "+"); is(M + q, n + d * m, d, k + "i+");
	is(q - M, n - d * m, d, k + "-"); is(M - q, d * m - n, d, k + "i-");
	is(q * M, n * m, d, k + "*"); is(M * q, n * m, d, k + "i*");
	if (m) { is(q / M, n, d * m, k + "/"); }
	if (n) { is(M / q, m * d, n, k + "i/"); }
	auto z = q; z += M; is(z, n + d * m, d, k + "+="); z = q; z -= M; is(z, n - d * m, d, k + "-="); z = q; z *= M; is(z, n * m, d, k + "*=");
	if (m) { z = q; z /= M; is(z, n, d * m, k + "/="); }
	const L x = n, y = m * d;
	check((q == M) == (x == y) && (M == q) == (x == y), k + "=="); check((q != M) == (x != y) && (M != q) == (x != y), k + "!=");
	check((q < M) == (x < y) && (M > q) == (x < y), k + "<"); check((q > M) == (x > y) && (M < q) == (x > y), k + ">");
	check((q <= M) == (x <= y) && (M >= q) == (x <= y), k + "<="); check((q >= M) == (x >= y) && (M <= q) == (x >= y), k + ">=");
}

template <class T, class U>
void compare(const char* tn, L n, L d, L m, L e) {
	const std::string k = cat("compare.", tn);
	begin(k, n, "/", d, " and ", m, "/", e);
	const Rational<T> p{ T(n), T(d) };
	const Rational<U> q{ U(m), U(e) };
	const L x = n * e, y = m * d;
	check((p == q) == (x == y), k + "=="); check((p != q) == (x != y), k + "!=");
	check((p < q) == (x < y), k + "<"); check((p > q) == (x > y), k + ">");
	check((p <= q) == (x <= y), k + "<="); check((p >= q) == (x >= y), k + ">=");
}

template <class T>
void two(const char* tn, L n, L d, L m, L e) {
	compare<T, T>(tn, n, d, m, e);
	const std::string k = cat("two.", tn);
	begin(k, n, "/", d, " and ", m, "/", e);
	const Rational<T> p{ T(n), T(d) }, q{ T(m), T(e) };
	is(p + q, n * e + m * d, d * e, k + "+"); is(p - q, n * e - m * d, d * e, k + "-"); is(p * q, n * m, d * e, k + "*");
	if (m) { is(p / q, n * e, d * m, k + "/"); }
	auto z = p; z += q; is(z, n * e + m * d, d * e, k + "+="); z = p; z -= q; is(z, n * e - m * d, d * e, k + "-="); z = p; z *= q; is(z, n * m, d * e, k + "*=");
	if (m) { z = p; z /= q; is(z, n * e, d * m, k + "/="); }
}

int main(int argc, char** argv) {
	init(argc, argv);
	const L N = thorough ? 40 : 24, M = thorough ? 12 : 7;
	for (L d = 1; d <= N; ++d) {
		for (L n = -3 * N; n <= 3 * N; ++n) { single<int>("int", n, d); single<L>("int64", n, d); }
	}
	for (L d = 1; d <= M + 3; ++d) {
		for (L n = -2 * M; n <= 2 * M; ++n) {
			for (L m = -M - 3; m <= M + 3; ++m) { integer<int>("int", n, d, m); integer<L>("int64", n, d, m); }
		}
	}
	for (L d = 1; d <= M; ++d) { for (L n = -M; n <= M; ++n) { for (L e = 1; e <= M; ++e) { for (L m = -M; m <= M; ++m) {
		two<int>("int", n, d, m, e);
		if (n % 2) { two<L>("int64", n, d, m, e); }
		compare<int, L>("int-int64", n, d, m, e);
		compare<L, int>("int64-int", n, d, m, e);
	} } } }
	// large components, products that fit only when common factors are removed first
	for (int i = 0; i < 4000; ++i) {
		const L f = irand(1, 4000), g = irand(1, 4000);
		const L a = irand(-3000, 3000), b = irand(1, 3000), c = irand(-3000, 3000), d = irand(1, 3000);
		two<L>("int64.large", a, b, c, d);
		integer<L>("int64.large", a * f, b * f, c);
		single<L>("int64.large", a * f, b * g);
		single<int>("int.large", a, b);
		const std::string k = "cancel.int";
		begin(k, f, "/", g, " times ", g, "/", f);
		is(Rational<int>(int(f), int(g)) * Rational<int>(int(g), int(f)), 1, 1, k);
		is(Rational<int>(int(f), int(g)) / Rational<int>(int(f), int(g)), 1, 1, k);
		is(Rational<int>(int(f * 50), int(g)) * int(g), f * 50, 1, k);
	}
	return finish();
}
