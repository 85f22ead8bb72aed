// Concrete replay: runs the real library code on generated inputs against a direct oracle.
// Protocol (stdout): "FAIL <key> :: <case>", "COUNT <group> <n>", "SAMPLE <text>".
#pragma once
#include <algorithm>
#include <cassert>
#include <cmath>
#include <complex>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <iomanip>
#include <map>
#include <random>
#include <set>
#include <sstream>
#include <string>
#include <unistd.h>
#include <vector>

namespace rp {

inline uint64_t seed = 1;
inline bool thorough = false;
inline std::map<std::string, long long> hints;
inline std::map<std::string, uint64_t> counts;
inline std::map<std::string, int> fails;
inline std::map<std::string, int> samples;
inline char current[4096] = "start";
inline std::string group = "main";
inline std::mt19937_64 rng;

inline void dumpCurrent(const char* what) {
	// async-signal-safe enough: only write()
	char buf[4600];
	int n = std::snprintf(buf, sizeof buf, "FAIL %s :: %s\n", what, current);
	fflush(stdout);
	[[maybe_unused]] auto r = write(1, buf, n);
}
inline void onSignal(int sig) {
	static char key[64];
	std::snprintf(key, sizeof key, "%s.crash-signal-%d", group.c_str(), sig);
	dumpCurrent(key);
	_exit(77);
}
#if defined(__SANITIZE_ADDRESS__)
extern "C" void __sanitizer_set_death_callback(void (*)(void));
inline void onDeath() {
	static char key[128];
	std::snprintf(key, sizeof key, "%s.sanitizer", group.c_str());
	dumpCurrent(key);
}
#endif

inline void init(int argc, char** argv) {
	for (int i = 1; i < argc; ++i) {
		std::string a = argv[i];
		if (a == "--thorough") { thorough = true; }
		else if (a.rfind("--seed=", 0) == 0) { seed = std::strtoull(a.c_str() + 7, nullptr, 10); }
		else if (a.rfind("--hint=", 0) == 0) {
			auto eq = a.find('=', 7);
			if (eq != std::string::npos) { hints[a.substr(7, eq - 7)] = std::strtoll(a.c_str() + eq + 1, nullptr, 10); }
		}
	}
	rng.seed(seed);
	std::signal(SIGABRT, onSignal);
	std::signal(SIGSEGV, onSignal);
	std::signal(SIGFPE, onSignal);
	std::signal(SIGALRM, onSignal);
#if defined(__SANITIZE_ADDRESS__)
	__sanitizer_set_death_callback(onDeath);
#endif
	alarm(thorough ? 800 : 400);
}

template <class... Ts>
std::string cat(const Ts&... ts) {
	std::ostringstream ss;
	ss << std::setprecision(17);
	((ss << ts), ...);
	return ss.str();
}

template <class V>
std::string vec(const V& v, size_t maxn = 40) {
	std::ostringstream ss;
	ss << std::setprecision(17) << "[";
	size_t n = 0;
	for (const auto& x : v) {
		if (n) { ss << ","; }
		if (n++ >= maxn) { ss << "..."; break; }
		ss << x;
	}
	ss << "]";
	return ss.str();
}

// announce the case about to run (so that a crash can be attributed to it)
template <class... Ts>
void begin(const std::string& g, const Ts&... ts) {
	group = g;
	std::string s = cat(g, ": ", ts...);
	std::snprintf(current, sizeof current, "%s", s.c_str());
	++counts[g];
	if (samples[g]++ < 1) { std::printf("SAMPLE %s\n", current); }
}

inline bool failed(const std::string& key, const std::string& what) {
	if (fails[key]++ < 3) {
		std::printf("FAIL %s :: %s | %s\n", key.c_str(), current, what.c_str());
		std::fflush(stdout);
	}
	return false;
}

template <class... Ts>
bool check(bool ok, const std::string& key, const Ts&... ts) {
	if (!ok) { failed(key, cat(ts...)); }
	return ok;
}

inline int finish() {
	for (auto& [g, n] : counts) { std::printf("COUNT %s %llu\n", g.c_str(), (unsigned long long)n); }
	for (auto& [g, n] : fails) { std::printf("FAILS %s %d\n", g.c_str(), n); }
	std::printf("DONE\n");
	std::fflush(stdout);
	return fails.empty() ? 0 : 3;
}

inline long long irand(long long lo, long long hi) { return std::uniform_int_distribution<long long>(lo, hi)(rng); }
inline double drand(double lo, double hi) { return std::uniform_real_distribution<double>(lo, hi)(rng); }

template <class T>
struct is_cplx : std::false_type {};
template <class T>
struct is_cplx<std::complex<T>> : std::true_type {};

// small integers: every sum and product in the checks below is exact in T
template <class T>
T small(int mag = 6) {
	if constexpr (is_cplx<T>::value) {
		using R = typename T::value_type;
		return T(R(irand(-mag, mag)), R(irand(-mag, mag)));
	}
	else {
		return T(irand(-mag, mag));
	}
}
template <class V>
void fillSmall(V& v, int mag = 6) {
	for (auto& x : v) { x = small<std::decay_t<decltype(x)>>(mag); }
}
template <class V>
void fillReal(V& v, double lo, double hi) {
	for (auto& x : v) {
		using T = std::decay_t<decltype(x)>;
		if constexpr (is_cplx<T>::value) { x = T(typename T::value_type(drand(lo, hi)), typename T::value_type(drand(lo, hi))); }
		else { x = T(drand(lo, hi)); }
	}
}

inline bool close(double a, double b, double rel, double abs_ = 0) {
	if (std::isnan(a) || std::isnan(b)) { return std::isnan(a) && std::isnan(b); }
	if (a == b) { return true; }
	return std::abs(a - b) <= abs_ + rel * std::max(std::abs(a), std::abs(b));
}
template <class T>
bool close(std::complex<T> a, std::complex<T> b, double rel, double abs_ = 0) {
	return double(std::abs(a - b)) <= abs_ + rel * std::max<double>(std::abs(a), std::abs(b));
}

// sizes worth trying for vectorised code: everything small, then around powers of two, then hints
inline std::vector<size_t> sizes(size_t dense, std::initializer_list<size_t> extra = {}) {
	std::vector<size_t> s;
	for (size_t i = 0; i <= dense; ++i) { s.push_back(i); }
	for (size_t e : extra) { s.push_back(e); }
	if (extra.size()) { for (size_t e : { 1500, 2047, 3001, 4096, 5003, 8191 }) { s.push_back(e); } }
	return s;
}

} // namespace rp
