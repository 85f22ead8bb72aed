// C21: signals against std::vector under sequences of operations.
#include "replay.hpp"
#include <dspbb/Primitives/Signal.hpp>
#include <list>
using namespace dspbb;
using namespace rp;

template <class T>
struct Next {
	int i = 0;
	T operator()() { return mk(++i, static_cast<T*>(nullptr)); }
	template <class U> static U mk(int v, U*) { return U(v); }
	template <class U> static std::complex<U> mk(int v, std::complex<U>*) { return { U(v), U(-2 * v) }; }
};

template <class S, class T>
bool same(const S& s, const std::vector<T>& m, const std::string& k) {
	if (!check(s.size() == m.size() && s.empty() == m.empty() && s.capacity() >= s.size(), k + ".size", s.size(), " instead of ", m.size())) { return false; }
	bool ok = true;
	for (size_t i = 0; i < m.size(); ++i) {
		ok &= check(s[i] == m[i], k + ".elements", "element ", i, " of ", m.size(), ": ", s[i], " instead of ", m[i]);
		if (!ok) { return false; }
		ok &= check(&s[i] == s.data() + i && &s.begin()[i] == s.data() + i && &s.cbegin()[i] == s.data() + i && &s.rbegin()[m.size() - 1 - i] == s.data() + i && &s.crbegin()[m.size() - 1 - i] == s.data() + i, k + ".iterators", "element ", i);
	}
	ok &= check(size_t(s.end() - s.begin()) == m.size() && size_t(s.cend() - s.cbegin()) == m.size() && size_t(s.rend() - s.rbegin()) == m.size() && size_t(s.crend() - s.crbegin()) == m.size(), k + ".iterators", "length");
	return ok;
}

template <class T, eSignalDomain D>
void single(const char* tn) {
	using S = BasicSignal<T, D>;
	for (size_t n = 0; n <= (thorough ? 20u : 9u); ++n) {
		const std::string k = cat("signal.", tn);
		begin(k, "n=", n);
		Next<T> nx;
		std::vector<T> m(n);
		same(S(n), m, k + ".count");
		const T v = nx();
		same(S(n, v), std::vector<T>(n, v), k + ".count-value");
		for (auto& e : m) { e = nx(); }
		const S s(n, m.data());
		same(s, m, k + ".count-pointer");
		same(S(m.begin(), m.end()), m, k + ".range"); same(S(m.data(), m.data() + n), m, k + ".pointers");
		std::list<T> l(m.begin(), m.end());
		same(S(l.begin(), l.end()), m, k + ".list");
		S c = s; same(c, m, k + ".copy"); check(n == 0 || c.data() != s.data(), k + ".copy", "shares the storage");
		if (n) { c[0] = nx(); same(s, m, k + ".copy-independent"); c[0] = m[0]; }
		S mv = std::move(c); same(mv, m, k + ".move"); same(c, std::vector<T>{}, k + ".moved-from");
		for (size_t q = 0; q <= n + 1; q += 2) { S d(q, v); d = s; same(d, m, k + ".assign"); S f(q, v), g = s; f = std::move(g); same(f, m, k + ".move-assign"); }
		auto& alias = mv; mv = alias; same(mv, m, k + ".self-assign");
		{ S d = s; std::vector<T> w = m; size_t i = 0; for (auto& e : d) { e = w[i++] = nx(); } same(d, w, k + ".write-iteration"); i = n; for (auto it = d.rbegin(); it != d.rend(); ++it) { *it = w[--i] = nx(); } same(d, w, k + ".write-reverse"); for (i = 0; i < n; ++i) { d[i] = w[i] = nx(); d.data()[i] = w[i]; } same(d, w, k + ".write-index"); }
		for (size_t q = 0; q <= 2 * n + 2; ++q) {
			begin(k, "n=", n, " argument ", q);
			for (size_t cap : { size_t(0), n + 3, 3 * n + 9 }) {
				S d = s; d.reserve(cap); std::vector<T> w = m; same(d, m, k + ".reserve"); check(d.capacity() >= cap, k + ".reserve", "capacity ", d.capacity(), " after reserving ", cap);
				d.resize(q); w.resize(q); same(d, w, k + ".resize");
				S e = s; e.reserve(cap); w = m; e.resize(q, v); w.resize(q, v); same(e, w, k + ".resize-value");
				S ins(q % 5, v); for (auto& x : ins) { x = nx(); }
				std::vector<T> iv(ins.begin(), ins.end());
				S a = s; a.reserve(cap); a.append(ins); w = m; w.insert(w.end(), iv.begin(), iv.end()); same(a, w, k + ".append");
				S p = s; p.reserve(cap); p.prepend(ins); w = m; w.insert(w.begin(), iv.begin(), iv.end()); same(p, w, k + ".prepend"); same(ins, iv, k + ".argument");
				if (q <= n) {
					w = m; w.insert(w.begin() + q, iv.begin(), iv.end());
					S i1 = s; i1.reserve(cap); i1.insert(q, ins); same(i1, w, k + ".insert-index");
					S i2 = s; i2.reserve(cap); i2.insert(i2.cbegin() + q, ins); same(i2, w, k + ".insert-iterator");
					S i3 = s; i3.reserve(cap); i3.insert(i3.cbegin() + q, iv.begin(), iv.end()); same(i3, w, k + ".insert-range");
					S fr = s, bk = s; fr.reserve(cap); bk.reserve(cap);
					S x = fr.extract_front(q); same(x, std::vector<T>(m.begin(), m.begin() + q), k + ".extract-front"); same(fr, std::vector<T>(m.begin() + q, m.end()), k + ".extract-front-rest");
					S y = bk.extract_back(q); same(y, std::vector<T>(m.end() - q, m.end()), k + ".extract-back"); same(bk, std::vector<T>(m.begin(), m.end() - q), k + ".extract-back-rest");
					for (size_t r = q; r <= n; ++r) { S z = s; z.reserve(cap); z.erase(z.cbegin() + q, z.cbegin() + r); w = m; w.erase(w.begin() + q, w.begin() + r); same(z, w, k + ".erase-range"); }
				}
				if (q < n) { S z = s; z.reserve(cap); z.erase(z.cbegin() + q); w = m; w.erase(w.begin() + q); same(z, w, k + ".erase"); }
				S z = s; z.reserve(cap); z.push_back(v); w = m; w.push_back(v); same(z, w, k + ".push-back"); z.clear(); same(z, std::vector<T>{}, k + ".clear");
			}
		}
	}
	Next<T> nx;
	const T a = nx(), b = nx(), c = nx();
	begin(cat("signal.", tn, ".list"), "{}");
	same(S{ a, b, c }, std::vector<T>{ a, b, c }, cat("signal.", tn, ".list"));
	same(S({ a }), std::vector<T>{ a }, cat("signal.", tn, ".list"));
	same(S{}, std::vector<T>{}, cat("signal.", tn, ".default"));
}

template <class T, class U, eSignalDomain D>
void convert(const char* tn) {
	for (size_t n = 0; n <= 9; ++n) {
		const std::string k = cat("convert.", tn);
		begin(k, "n=", n);
		std::vector<T> m(n); std::vector<U> u(n);
		for (size_t i = 0; i < n; ++i) { m[i] = T(double(i) * 1.75 - 3); u[i] = U(m[i]); }
		const BasicSignal<T, D> s(m.begin(), m.end());
		same(BasicSignal<U, D>(s), u, k + ".construct");
		for (size_t q = 0; q < 12; q += 3) { BasicSignal<U, D> d(q); d = s; same(d, u, k + ".assign"); }
		same(s, m, k + ".source");
	}
}

template <class T>
void sequences(const char* tn) {
	for (int run = 0; run < (thorough ? 3000 : 250); ++run) {
		const std::string k = cat("history.", tn);
		Signal<T> s; std::vector<T> m; Next<T> nx;
		std::string hist;
		for (int step = 0; step < 25; ++step) {
			const int op = irand(0, 11);
			const size_t n = m.size(), i = size_t(irand(0, int(n))), j = i + size_t(irand(0, int(n - i))), q = size_t(irand(0, 6));
			hist += cat(" ", op, "(", i, ",", j, ",", q, ")");
			begin(k, "operations", hist);
			std::vector<T> iv(q); for (auto& e : iv) { e = nx(); }
			const Signal<T> is(iv.begin(), iv.end());
			const T v = nx();
			switch (op) {
				case 0: s.push_back(v); m.push_back(v); break;
				case 1: s.append(is); m.insert(m.end(), iv.begin(), iv.end()); break;
				case 2: s.prepend(is); m.insert(m.begin(), iv.begin(), iv.end()); break;
				case 3: s.insert(i, is); m.insert(m.begin() + i, iv.begin(), iv.end()); break;
				case 4: s.insert(s.cbegin() + i, is.begin(), is.end()); m.insert(m.begin() + i, iv.begin(), iv.end()); break;
				case 5: s.erase(s.cbegin() + i, s.cbegin() + j); m.erase(m.begin() + i, m.begin() + j); break;
				case 6: if (i < n) { s.erase(s.cbegin() + i); m.erase(m.begin() + i); } break;
				case 7: { auto x = s.extract_front(i); same(x, std::vector<T>(m.begin(), m.begin() + i), k + ".front"); m.erase(m.begin(), m.begin() + i); break; }
				case 8: { auto x = s.extract_back(i); same(x, std::vector<T>(m.end() - i, m.end()), k + ".back"); m.erase(m.end() - i, m.end()); break; }
				case 9: s.resize(q + n / 2); m.resize(q + n / 2); break;
				case 10: s.resize(q + n, v); m.resize(q + n, v); break;
				case 11: { Signal<T> c = s; if (irand(0, 1)) { s = c; } else { Signal<T> d; d = std::move(s); s = std::move(d); } if (irand(0, 9) == 0) { s.clear(); m.clear(); } break; }
			}
			if (!same(s, m, k)) { return; }
		}
	}
}

int main(int argc, char** argv) {
	init(argc, argv);
	single<double, TIME_DOMAIN>("double"); single<float, FREQUENCY_DOMAIN>("float"); single<int, TIME_DOMAIN>("int"); single<std::complex<float>, TIME_DOMAIN>("cfloat"); single<std::complex<double>, FREQUENCY_DOMAIN>("cdouble");
	convert<float, double, TIME_DOMAIN>("float-double"); convert<double, float, FREQUENCY_DOMAIN>("double-float"); convert<double, int, TIME_DOMAIN>("double-int"); convert<int, double, TIME_DOMAIN>("int-double"); convert<float, std::complex<float>, TIME_DOMAIN>("float-cfloat");
	sequences<double>("double"); sequences<float>("float"); sequences<std::complex<float>>("cfloat");
	finish();
}
