// C11: interval operations against membership of points.
#include "replay.hpp"
#include <dspbb/Utility/Interval.hpp>
using namespace dspbb;
using namespace rp;

template <class T>
void pairs(const char* tn, int lo, int hi, T scale) {
	for (int a = lo; a <= hi; ++a) for (int b = a; b <= hi; ++b) for (int c = lo; c <= hi; ++c) for (int d = c; d <= hi; ++d) {
		const std::string k = cat("pair.", tn);
		begin(k, "[", a, ",", b, ") [", c, ",", d, ") scale ", scale);
		const Interval<T> x(T(a) * scale, T(b) * scale), y(T(c) * scale, T(d) * scale);
		auto in = [](const Interval<T>& i, T t) { return i.first <= t && t < i.last; };
		check(x.size() == T(b - a) * scale, k + ".size", x.size());
		check((x == y) == (a == c && b == d), k + ".=="); check((x != y) == !(a == c && b == d), k + ".!=");
		bool common = false;
		const auto i = Intersection(x, y), e = EncompassingUnion(x, y);
		const auto u = Union(x, y);
		for (int t = lo; t <= hi; ++t) {
			const T p = T(t) * scale;
			const bool both = in(x, p) && in(y, p);
			common = common || both;
			check(in(i, p) == both, k + ".Intersection", i.first, "..", i.last, " at ", p);
			check(in(e, p) == (t >= std::min(a, c) && t < std::max(b, d)), k + ".EncompassingUnion", e.first, "..", e.last, " at ", p);
			if (u) { check(in(*u, p) == (in(x, p) || in(y, p)), k + ".Union", u->first, "..", u->last, " at ", p); }
		}
		check(IsDisjoint(x, y) == !common, k + ".IsDisjoint");
		check(u.has_value() == common, k + ".Union.exists");
		if (!common) { check(i.size() == T(0), k + ".Intersection.empty", i.first, "..", i.last); }
		check(e.first == std::min(x.first, y.first) && e.last == std::max(x.last, y.last), k + ".EncompassingUnion.ends");
		if (c == lo) {
			for (int o = 0; o <= 3; ++o) {
				const T v = T(o) * scale;
				auto z = x + v;
				check(z.first == x.first + v && z.last == x.last + v, k + ".+", z.first);
				z = x; z += v;
				check(z.first == x.first + v && z.last == x.last + v, k + ".+=", z.first);
				z = x + T(3) * scale; z = z - v;
				check(z.first == x.first + T(3 - o) * scale && z.last == x.last + T(3 - o) * scale, k + ".-", z.first);
				z = x + T(3) * scale; z -= v;
				check(z.first == x.first + T(3 - o) * scale && z.last == x.last + T(3 - o) * scale, k + ".-=", z.first);
			}
		}
	}
}

int main(int argc, char** argv) {
	init(argc, argv);
	const int N = thorough ? 6 : 4;
	pairs<int>("int", -N, N, 1);
	pairs<long long>("int64", -N, N, 1000000000000LL);
	pairs<unsigned>("unsigned", 0, 2 * N - 1, 3u);
	pairs<size_t>("size_t", 0, 2 * N - 1, size_t(1) << 40);
	pairs<float>("float", -N, N, 0.25f);
	pairs<double>("double", -N, N, 0.125);
	return finish();
}
