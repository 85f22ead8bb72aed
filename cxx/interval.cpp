// instantiation unit: intervals
#include <dspbb/Utility/Interval.hpp>
using namespace dspbb;
#define ALL(T, S) \
	extern "C" T size_##S(const Interval<T>* a) { return a->size(); } \
	extern "C" void ctor_##S(Interval<T>* r, T f, T l) { *r = Interval<T>(f, l); } \
	extern "C" void plus_##S(Interval<T>* r, const Interval<T>* a, T x) { *r = *a + x; } \
	extern "C" void minus_##S(Interval<T>* r, const Interval<T>* a, T x) { *r = *a - x; } \
	extern "C" void pluseq_##S(Interval<T>* r, Interval<T>* a, T x) { *r = (*a += x); } \
	extern "C" void minuseq_##S(Interval<T>* r, Interval<T>* a, T x) { *r = (*a -= x); } \
	extern "C" bool equal_##S(const Interval<T>* a, const Interval<T>* b) { return *a == *b; } \
	extern "C" bool unequal_##S(const Interval<T>* a, const Interval<T>* b) { return *a != *b; } \
	extern "C" bool disjoint_##S(const Interval<T>* a, const Interval<T>* b) { return IsDisjoint(*a, *b); } \
	extern "C" void intersection_##S(Interval<T>* r, const Interval<T>* a, const Interval<T>* b) { *r = Intersection(*a, *b); } \
	extern "C" void encompassing_##S(Interval<T>* r, const Interval<T>* a, const Interval<T>* b) { *r = EncompassingUnion(*a, *b); } \
	extern "C" bool union_##S(Interval<T>* r, const Interval<T>* a, const Interval<T>* b) { auto u = Union(*a, *b); if (u) { *r = *u; } return u.has_value(); }
ALL(long long, l)
ALL(double, d)
ALL(int, i)
ALL(unsigned long long, u)
