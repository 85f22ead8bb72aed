// C05: dot product against the direct sum (integer-valued data: exact).
#include "replay.hpp"
#include <dspbb/Math/DotProduct.hpp>
#include <dspbb/Primitives/Signal.hpp>
#include <dspbb/Primitives/SignalView.hpp>
using namespace dspbb;
using namespace rp;

template <class T, class U>
void one(const char* tn, size_t n, size_t oa, size_t ob) {
	using R = multiplies_result_t<T, U>;
	std::vector<T> a(n + oa + 3);
	std::vector<U> b(n + ob + 3);
	fillSmall(a);
	fillSmall(b);
	const T* p = a.data() + oa;
	const U* q = b.data() + ob;
	const std::string key = cat("dot.", tn);
	begin(key, "n=", n, " offsets ", oa, ",", ob, " a=", vec(std::vector<T>(p, p + n)), " b=", vec(std::vector<U>(q, q + n)));
	R s(0);
	for (size_t i = 0; i < n; ++i) {
		if constexpr (is_cplx<U>::value) { s += p[i] * std::conj(q[i]); }
		else { s += p[i] * q[i]; }
	}
	SignalView<const T> va(p, n);
	SignalView<const U> vb(q, n);
	check(DotProduct(va, vb) == s, key + ".view", DotProduct(va, vb), " expected ", s);
	Signal<T> sa(p, p + n);
	Signal<U> sb(q, q + n);
	check(DotProduct(sa, sb) == s, key + ".signal", DotProduct(sa, sb), " expected ", s);
	check(DotProduct(sa, vb) == s, key + ".mixed", DotProduct(sa, vb), " expected ", s);
	if constexpr (!is_cplx<U>::value && !is_cplx<T>::value) { check(DotProduct(vb, va) == s, key + ".symmetric", DotProduct(vb, va), " expected ", s); }
	check(DotProduct(va, va) == DotProduct(sa, sa), key + ".self", "");
	// one pair at a time
	if (n && n < 70) {
		size_t i = irand(0, n - 1);
		Signal<T> x(n, T(0));
		Signal<U> y(n, U(1));
		x[i] = T(5);
		y[i] = U(3);
		check(DotProduct(x, y) == R(15), key + ".single", "element ", i, " of ", n, ": ", DotProduct(x, y));
	}
}

int main(int argc, char** argv) {
	init(argc, argv);
	for (size_t n : sizes(thorough ? 300 : 100, { 127, 128, 129, 255, 257, 500, 1000, 1023, 1025 })) {
		for (int r = 0; r < 3; ++r) {
			one<float, float>("float", n, irand(0, 4), irand(0, 4));
			one<double, double>("double", n, irand(0, 4), irand(0, 4));
			one<std::complex<float>, std::complex<float>>("cfloat", n, irand(0, 3), irand(0, 3));
			one<std::complex<double>, std::complex<double>>("cdouble", n, irand(0, 3), irand(0, 3));
			one<double, std::complex<double>>("double,cdouble", n, irand(0, 3), irand(0, 3));
			one<std::complex<double>, double>("cdouble,double", n, irand(0, 3), irand(0, 3));
			one<float, std::complex<float>>("float,cfloat", n, irand(0, 3), irand(0, 3));
			one<std::complex<float>, float>("cfloat,float", n, irand(0, 3), irand(0, 3));
			one<float, double>("float,double", n, irand(0, 3), irand(0, 3));
		}
	}
	return finish();
}
