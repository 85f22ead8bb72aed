// C01: elementwise arithmetic against the built-in operations, element by element.
#include "replay.hpp"
#include <dspbb/Primitives/Signal.hpp>
#include <dspbb/Primitives/SignalArithmetic.hpp>
#include <dspbb/Primitives/SignalView.hpp>
using namespace dspbb;
using namespace rp;

template <class T>
T value() {
	// finite values of both signs and all magnitudes, never zero (divisors)
	auto one = [] { double m = drand(0.5, 2.0) * std::pow(2.0, double(irand(-6, 6))); return irand(0, 1) ? m : -m; };
	if constexpr (is_cplx<T>::value) { using R = typename T::value_type; R a = R(one()), b = R(one()); return T(a, b); }
	else { return T(one()); }
}
template <class A, class B>
bool eq(const A& a, const B& b) {
	if constexpr (is_cplx<A>::value) { return close(a, A(b), std::is_same_v<typename A::value_type, float> ? 2e-6 : 1e-14); }
	else { return a == b; }
}

template <class R, class T, class U, class Op, class Fn, class Cmp>
void one(const std::string& key, size_t n, size_t oa, size_t ob, size_t oo, Op op, Fn fn, Cmp cmpd) {
	constexpr size_t G = 3;
	std::vector<T> a(n + oa);
	std::vector<U> b(n + ob);
	for (auto& x : a) { x = value<T>(); }
	for (auto& x : b) { x = value<U>(); }
	const T sa = value<T>();
	const U sb = value<U>();
	const auto a0 = a;
	const auto b0 = b;
	const R guard = R(remove_complex_t<R>(4321));
	auto runInto = [&](const char* form, auto&& call, auto&& want) {
		begin(key, form, " n=", n, " offsets ", oa, ",", ob, ",", oo, " a=", vec(a), " b=", vec(b), " scalars ", sa, ",", sb);
		std::vector<R> out(n + oo + G, guard);
		SignalView<R> v(out.data() + oo, n);
		call(v);
		bool ok = true;
		std::string msg;
		for (size_t i = 0; i < out.size() && ok; ++i) {
			if (i < oo || i >= oo + n) { ok = out[i] == guard; if (!ok) { msg = cat("wrote outside the output at ", long(i) - long(oo)); } }
			else if (!eq(out[i], R(want(i - oo)))) { ok = false; msg = cat("out[", i - oo, "]=", out[i], " expected ", R(want(i - oo))); }
		}
		check(ok, key + "." + form, msg);
		check(a == a0 && b == b0, key + "." + form + ".operands", "an operand was changed");
	};
	auto runNew = [&](const char* form, auto&& call, auto&& want) {
		begin(key, form, " n=", n, " a=", vec(a), " b=", vec(b), " scalars ", sa, ",", sb);
		auto r = call();
		static_assert(std::is_same_v<typename decltype(r)::value_type, R>, "type of the result");
		bool ok = r.size() == n;
		std::string msg = cat("size ", r.size());
		for (size_t i = 0; i < n && ok; ++i) {
			if (!eq(r[i], R(want(i)))) { ok = false; msg = cat("out[", i, "]=", r[i], " expected ", R(want(i))); }
		}
		check(ok, key + "." + form, msg);
		check(a == a0 && b == b0, key + "." + form + ".operands", "an operand was changed");
	};
	SignalView<const T> va(a.data() + oa, n);
	SignalView<const U> vb(b.data() + ob, n);
	const Signal<T> sga(va.begin(), va.end());
	const Signal<U> sgb(vb.begin(), vb.end());
	const T* pa = a.data() + oa;
	const U* pb = b.data() + ob;
	runInto("out,view,view", [&](auto o) { fn(o, va, vb); }, [&](size_t i) { return op(pa[i], pb[i]); });
	runInto("out,signal,view", [&](auto o) { fn(o, sga, vb); }, [&](size_t i) { return op(pa[i], pb[i]); });
	runInto("out,view,scalar", [&](auto o) { fn(o, va, sb); }, [&](size_t i) { return op(pa[i], sb); });
	runInto("out,scalar,view", [&](auto o) { fn(o, sa, vb); }, [&](size_t i) { return op(sa, pb[i]); });
	runNew("view op view", [&] { return op(va, vb); }, [&](size_t i) { return op(pa[i], pb[i]); });
	runNew("signal op signal", [&] { return op(sga, sgb); }, [&](size_t i) { return op(pa[i], pb[i]); });
	runNew("signal op view", [&] { return op(sga, vb); }, [&](size_t i) { return op(pa[i], pb[i]); });
	runNew("signal op scalar", [&] { return op(sga, sb); }, [&](size_t i) { return op(pa[i], sb); });
	runNew("scalar op signal", [&] { return op(sa, sgb); }, [&](size_t i) { return op(sa, pb[i]); });
	runNew("view op scalar", [&] { return op(va, sb); }, [&](size_t i) { return op(pa[i], sb); });
	runNew("scalar op view", [&] { return op(sa, vb); }, [&](size_t i) { return op(sa, pb[i]); });
	// the output is an operand
	if constexpr (std::is_same_v<R, T>) {
		auto inplace = [&](const char* form, auto&& call, auto&& want) {
			begin(key, form, " n=", n, " offsets ", oa, ",", ob, ",", oo, " a=", vec(a), " b=", vec(b), " scalars ", sa, ",", sb);
			std::vector<R> buf(n + oo + G, guard);
			std::copy(pa, pa + n, buf.begin() + oo);
			call(SignalView<R>(buf.data() + oo, n));
			bool ok = true;
			std::string msg;
			for (size_t i = 0; i < buf.size() && ok; ++i) {
				if (i < oo || i >= oo + n) { ok = buf[i] == guard; if (!ok) { msg = "wrote outside the output"; } }
				else if (!eq(buf[i], R(want(i - oo)))) { ok = false; msg = cat("out[", i - oo, "]=", buf[i], " expected ", R(want(i - oo))); }
			}
			check(ok, key + "." + form, msg);
			check(b == b0, key + "." + form + ".operands", "the right operand was changed");
		};
		inplace("a=a op b", [&](auto o) { fn(o, o, vb); }, [&](size_t i) { return op(pa[i], pb[i]); });
		inplace("a op= b", [&](auto o) { auto& q = cmpd(o, vb); check(q.data() == o.data(), key + ".compound-return", "does not return the left operand"); }, [&](size_t i) { return op(pa[i], pb[i]); });
		inplace("a op= signal", [&](auto o) { cmpd(o, sgb); }, [&](size_t i) { return op(pa[i], pb[i]); });
		inplace("a op= s", [&](auto o) { cmpd(o, sb); }, [&](size_t i) { return op(pa[i], sb); });
		inplace("a=a op s", [&](auto o) { fn(o, o, sb); }, [&](size_t i) { return op(pa[i], sb); });
		inplace("a=s op a", [&](auto o) { fn(o, sb, o); }, [&](size_t i) { return op(sb, pa[i]); });
		inplace("a=a op a", [&](auto o) { fn(o, o, o); }, [&](size_t i) { return op(pa[i], pa[i]); });
		if constexpr (std::is_same_v<T, U>) {
			inplace("a=b op a", [&](auto o) { fn(o, vb, o); }, [&](size_t i) { return op(pb[i], pa[i]); });
		}
		begin(key, "signal op= signal n=", n);
		Signal<R> s(pa, pa + n);
		cmpd(s, sgb);
		bool ok = s.size() == n;
		for (size_t i = 0; i < n && ok; ++i) { ok = eq(s[i], R(op(pa[i], pb[i]))); }
		check(ok, key + ".signal op= signal", vec(s));
	}
}

template <class T, class U>
void types(const char* nm) {
	auto go = [&](const char* on, auto op, auto fn, auto cmpd) {
		using R = decltype(op(std::declval<T>(), std::declval<U>()));
		const std::string key = cat(on, ".", nm);
		for (size_t n = 0; n <= (thorough ? 130u : 37u); ++n) {
			one<R, T, U>(key, n, n % 3, (n / 2) % 4, (n * 5) % 4, op, fn, cmpd);
		}
		for (size_t n : { 63, 64, 65, 100, 127, 129, 501, 1000, 1023, 1030, 2053, 4096 }) { one<R, T, U>(key, n, irand(0, 3), irand(0, 3), irand(0, 3), op, fn, cmpd); }
	};
	go("add", [](const auto& a, const auto& b) { return a + b; }, [](auto&& o, const auto& a, const auto& b) { Add(o, a, b); }, [](auto& a, const auto& b) -> auto& { return a += b; });
	go("sub", [](const auto& a, const auto& b) { return a - b; }, [](auto&& o, const auto& a, const auto& b) { Subtract(o, a, b); }, [](auto& a, const auto& b) -> auto& { return a -= b; });
	go("mul", [](const auto& a, const auto& b) { return a * b; }, [](auto&& o, const auto& a, const auto& b) { Multiply(o, a, b); }, [](auto& a, const auto& b) -> auto& { return a *= b; });
	go("div", [](const auto& a, const auto& b) { return a / b; }, [](auto&& o, const auto& a, const auto& b) { Divide(o, a, b); }, [](auto& a, const auto& b) -> auto& { return a /= b; });
}

#ifdef NDEBUG
template <class F>
bool throws(F&& f) {
	try { f(); } catch (std::invalid_argument&) { return true; } catch (...) { return true; }
	return false;
}
template <class T>
void mismatch(const char* nm) {
	for (size_t n = 0; n < 7; ++n) {
		for (size_t m = 0; m < 7; ++m) {
			for (size_t k = 0; k < 7; ++k) {
				Signal<T> o(n, T(1)), a(m, T(2)), b(k, T(3));
				auto chk = [&](const char* op, auto fn) {
					const std::string key = cat("sizes.", op, ".", nm);
					begin(key, "sizes ", n, " ", m, " ", k);
					check(throws([&] { fn(o, a, b); }) == !(n == m && n == k), key + ".out,a,b", n, " ", m, " ", k);
					if (k == 0) {
						check(throws([&] { fn(o, a, T(2)); }) == (n != m), key + ".out,a,s", n, " ", m);
						check(throws([&] { fn(o, T(2), a); }) == (n != m), key + ".out,s,a", n, " ", m);
					}
				};
				chk("add", [](auto& r, const auto& x, const auto& y) { Add(r, x, y); });
				chk("sub", [](auto& r, const auto& x, const auto& y) { Subtract(r, x, y); });
				chk("mul", [](auto& r, const auto& x, const auto& y) { Multiply(r, x, y); });
				chk("div", [](auto& r, const auto& x, const auto& y) { Divide(r, x, y); });
			}
			const std::string key = cat("sizes.op.", nm);
			begin(key, "sizes ", n, " ", m);
			Signal<T> a(n, T(1)), b(m, T(2));
			check(throws([&] { a + b; }) == (n != m), key + ".+", n, " ", m);
			check(throws([&] { a - b; }) == (n != m), key + ".-", n, " ", m);
			check(throws([&] { a * b; }) == (n != m), key + ".*", n, " ", m);
			check(throws([&] { a / b; }) == (n != m), key + "./", n, " ", m);
			check(throws([&] { a += b; }) == (n != m), key + ".+=", n, " ", m);
			check(throws([&] { a -= b; }) == (n != m), key + ".-=", n, " ", m);
			check(throws([&] { a *= b; }) == (n != m), key + ".*=", n, " ", m);
			check(throws([&] { a /= b; }) == (n != m), key + "./=", n, " ", m);
		}
	}
}
#endif

int main(int argc, char** argv) {
	init(argc, argv);
	using cf = std::complex<float>;
	using cd = std::complex<double>;
#ifdef NDEBUG
	mismatch<double>("double");
	mismatch<float>("float");
	mismatch<cf>("cfloat");
#elif defined(PART1)
	types<float, float>("float");
	types<double, double>("double");
#elif defined(PART2)
	types<cf, cf>("cfloat");
	types<cd, cd>("cdouble");
#else
	types<float, double>("float,double");
	types<double, float>("double,float");
	types<cd, double>("cdouble,double");
	types<float, cf>("float,cfloat");
#endif
	return finish();
}
