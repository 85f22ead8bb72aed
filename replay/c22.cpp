// C22: views against index arithmetic on the parent.
#include "replay.hpp"
#include <dspbb/Primitives/Signal.hpp>
#include <dspbb/Primitives/SignalView.hpp>
#include <csetjmp>
using namespace dspbb;
using namespace rp;

static std::jmp_buf back;
extern "C" void __assert_fail(const char*, const char*, unsigned, const char*) noexcept { std::longjmp(back, 1); }

template <class V, class T>
void look(const V& v, const T* p, size_t n, const std::string& k) {
	if (!check(v.size() == n && v.empty() == (n == 0) && v.size_bytes() == n * sizeof(T), k + ".size", v.size(), " instead of ", n)) { return; }
	check(size_t(v.end() - v.begin()) == n && size_t(v.cend() - v.cbegin()) == n && size_t(v.rend() - v.rbegin()) == n && size_t(v.crend() - v.crbegin()) == n, k + ".iteration-length");
	if (n == 0) { return; }
	check(&v.front() == p && &v.back() == p + n - 1 && v.data() == p, k + ".ends");
	size_t i = 0;
	for (auto& e : v) { check(&e == p + i, k + ".iteration", "element ", i); ++i; }
	check(i == n, k + ".iteration", i);
	i = 0;
	for (auto it = v.rbegin(); it != v.rend(); ++it) { check(&*it == p + n - 1 - i, k + ".reverse", "element ", i); ++i; }
	check(i == n, k + ".reverse", i);
	i = 0;
	for (auto it = v.crbegin(); it != v.crend(); ++it) { check(&*it == p + n - 1 - i, k + ".creverse", "element ", i); ++i; }
	for (i = 0; i < n; ++i) { check(&v[i] == p + i && &v.cbegin()[i] == p + i, k + ".index", "element ", i); }
}

template <class F>
bool rejects(F f) {
	if (setjmp(back)) { return true; }
	try { f(); } catch (std::exception&) { return true; }
	return false;
}

template <class T, eSignalDomain D>
void views(const char* tn) {
	using V = BasicSignalView<T, D>;
	using CV = BasicSignalView<const T, D>;
	for (size_t n = 0; n <= (thorough ? 30u : 12u); ++n) {
		BasicSignal<T, D> s(n);
		for (size_t i = 0; i < n; ++i) { s[i] = T(int(i) + 1); }
		const BasicSignal<T, D>& cs = s;
		std::vector<T> vec(n);
		const std::string k = cat("view.", tn);
		begin(k, "n=", n);
		T* p = s.data();
		const T* cp = p;
		look(V(s), p, n, k + ".signal"); look(CV(cs), cp, n, k + ".const-signal"); look(AsView(s), p, n, k + ".as-view"); look(AsView(cs), cp, n, k + ".as-view-const"); look(AsConstView(cs), cp, n, k + ".as-const-view");
		look(CV(V(s)), cp, n, k + ".const-of-view"); look(AsView(V(s)), p, n, k + ".view-of-view"); look(AsView(CV(cs)), cp, n, k + ".view-of-const-view"); look(AsConstView(V(s)), cp, n, k + ".const-view-of-view"); look(AsConstView(CV(cs)), cp, n, k + ".const-view-of-const-view");
		V as; as = V(s); V mv(std::move(as)); look(mv, p, n, k + ".assigned");
		for (size_t a = 0; a <= n; ++a) {
			for (size_t c = 0; a + c <= n; ++c) {
				begin(k, "n=", n, " offset ", a, " count ", c);
				look(V(p + a, c), p + a, c, k + ".pointer-size"); look(V(p + a, p + a + c), p + a, c, k + ".pointers");
				look(V(s.begin() + a, s.begin() + a + c), p + a, c, k + ".iterators"); look(V(s.begin() + a, c), p + a, c, k + ".iterator-size");
				look(CV(cs.begin() + a, cs.begin() + a + c), cp + a, c, k + ".const-iterators");
				look(V(vec.begin() + a, vec.begin() + a + c), vec.data() + a, c, k + ".vector-iterators");
				look(AsView<D>(p + a, c), p + a, c, k + ".as-view-size"); look(AsView<D>(p + a, p + a + c), p + a, c, k + ".as-view-pointers"); look(AsView<D>(s.begin() + a, s.begin() + a + c), p + a, c, k + ".as-view-iterators");
				look(AsConstView<D>(cp + a, c), cp + a, c, k + ".as-const-view-size"); look(AsConstView<D>(cp + a, cp + a + c), cp + a, c, k + ".as-const-view-pointers");
				const V v(s);
				look(v.subsignal(a, c), p + a, c, k + ".subsignal");
				const V w = v.subsignal(a, c);
				for (size_t x = 0; x <= c; ++x) {
					look(w.subsignal(x), p + a + x, c - x, k + ".nested");
					look(V(w).first(x), p + a, x, k + ".first"); look(V(w).last(x), p + a + c - x, x, k + ".last");
					for (size_t y = 0; x + y <= c && n < 9; ++y) { look(w.subsignal(x, y), p + a + x, y, k + ".nested2"); }
				}
				for (size_t x : { c + 1, c + 2, c + 100, size_t(-1) }) {
					check(rejects([&] { (void)w.subsignal(x); }) && rejects([&] { (void)w.subsignal(x, 0); }) && rejects([&] { (void)w.subsignal(0, x); }) && rejects([&] { (void)V(w).first(x); }) && rejects([&] { (void)V(w).last(x); }), k + ".reject", x);
					if (x != size_t(-1)) { for (size_t o = 0; o <= c; ++o) { check(rejects([&] { (void)w.subsignal(o, x - o); }), k + ".reject2", o, " ", x - o); } }
				}
				std::vector<T> keep(s.begin(), s.end());
				for (auto& e : w) { e = T(99); }
				for (size_t i = 0; i < n; ++i) { check(s[i] == (i >= a && i < a + c ? T(99) : keep[i]), k + ".write", "element ", i); s[i] = keep[i]; }
				for (size_t x = 0; x < c; ++x) {
					w[x] = T(77);
					for (size_t i = 0; i < n; ++i) { check(s[i] == (i == a + x ? T(77) : keep[i]), k + ".write-one", "element ", i); }
					s[a + x] = keep[a + x];
				}
			}
		}
	}
}

int main(int argc, char** argv) {
	init(argc, argv);
	views<double, eSignalDomain::TIME>("double");
	views<float, eSignalDomain::FREQUENCY>("float");
	views<int, eSignalDomain::DOMAINLESS>("int");
	views<std::complex<float>, eSignalDomain::QUEFRENCY>("cfloat");
	return finish();
}
