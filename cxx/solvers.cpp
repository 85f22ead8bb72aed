// instantiation unit: bisection of an arbitrary function
#include <cmath>
#include <limits>
#include <dspbb/Math/Solvers.hpp>
extern "C" double F(double x);
extern "C" float Ff(float x);
extern "C" double bisect_d(double a, double b, double tol) { return dspbb::Bisect([](double x) { return F(x); }, a, b, tol); }
extern "C" double bisect0_d(double a, double b) { return dspbb::Bisect([](double x) { return F(x); }, a, b); }
extern "C" float bisect_f(float a, float b, float tol) { return dspbb::Bisect([](float x) { return Ff(x); }, a, b, tol); }
