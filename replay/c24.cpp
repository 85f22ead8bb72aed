// C24: bisection localises a sign change.
#include <cmath>
#include <limits>
#include "replay.hpp"
#include <dspbb/Math/Solvers.hpp>
using namespace dspbb;
using namespace rp;

template <class T>
T nudge(T x, int ulps) {
	for (; ulps > 0; --ulps) { x = std::nextafter(x, std::numeric_limits<T>::infinity()); }
	for (; ulps < 0; ++ulps) { x = std::nextafter(x, -std::numeric_limits<T>::infinity()); }
	return x;
}

template <class T, class F>
void run(const char* tn, const std::string& what, F f, T a, T b, T tol) {
	const std::string k = cat("bisect.", tn, ".", what);
	begin(k, "a=", a, " b=", b, " tolerance ", tol);
	int calls = 0;
	const auto counted = [&](T x) { if (++calls > 100000) { check(false, k + ".termination", "no end"); throw 1; } check(x >= std::min(a, b) && x <= std::max(a, b), k + ".domain", "evaluated at ", x); return f(x); };
	T r;
	try { r = tol == T(-1) ? Bisect(counted, a, b) : Bisect(counted, a, b, tol); } catch (int) { return; }
	check(r >= std::min(a, b) && r <= std::max(a, b), k + ".inside", r);
	const T w = std::max(tol, T(0));
	const T lo = std::max(std::min(a, b), nudge(T(r - w), -3)), hi = std::min(std::max(a, b), nudge(T(r + w), 3));
	// a sign change (or zero) of f within the tolerance of the result
	bool change = false;
	T prev = f(lo);
	for (int i = 0; i <= 64 && !change; ++i) {
		const T x = i == 64 ? hi : lo + (hi - lo) * T(i) / T(64);
		const T y = f(x);
		change = y == 0 || prev == 0 || (y < 0) != (prev < 0);
		prev = y;
	}
	check(change, k + ".localised", "result ", r, " has no sign change nearby");
}

template <class T>
void all(const char* tn, T tol) {
	for (int i = 0; i < (thorough ? 400 : 60); ++i) {
		const T t = T(irand(-1000, 1000)) / T(irand(1, 300));
		const T l = T(irand(0, 50)) + (i % 3 ? T(1) / T(irand(1, 1000)) : T(0)), h = T(irand(0, 50)) + (i % 5 ? T(1) / T(irand(1, 1000)) : T(0));
		if (l + h == T(0)) { continue; }
		for (int dir = 0; dir < 4; ++dir) {
			const T a = dir & 1 ? t + h : t - l, b = dir & 1 ? t - l : t + h;
			const T s = dir & 2 ? T(-1) : T(1);
			if (t - l < t) { run<T>(tn, "step", [=](T x) { return x < t ? -s : s; }, a, b, tol); }
			run<T>(tn, "sign", [=](T x) { return x < t ? -s : x > t ? s : T(0); }, a, b, tol);
			run<T>(tn, "linear", [=](T x) { return s * (x - t); }, a, b, tol);
			run<T>(tn, "tiny", [=](T x) { return s * std::numeric_limits<T>::min() * (x - t); }, a, b, tol);
			run<T>(tn, "huge", [=](T x) { return s * (x - t) * std::numeric_limits<T>::max() / T(4000); }, a, b, tol);
			run<T>(tn, "cubic", [=](T x) { return s * (x - t) * (x - t) * (x - t); }, a, b, tol);
			run<T>(tn, "threeroots", [=](T x) { return s * (x - t) * (x - t - h / 3) * (x - t - h / 2); }, a, b, tol);
		}
	}
	run<T>(tn, "sin", [](T x) { return std::sin(x); }, 3, T(3.5), tol);
	run<T>(tn, "exp", [](T x) { return std::exp(x) - T(1); }, -1, 1, tol);
	run<T>(tn, "zero", [](T) { return T(0); }, -1, 1, tol);
}

int main(int argc, char** argv) {
	init(argc, argv);
	for (double tol : { -1.0, 0.0, 1e-3, 0.1, 5.0 }) { all<double>("double", tol); all<float>("float", float(tol)); }
	return finish();
}
