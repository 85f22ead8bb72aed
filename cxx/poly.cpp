// instantiation unit: polynomials
#include <dspbb/Math/Polynomials.hpp>
#include <new>
using namespace dspbb;
using T = double;
using Z = std::complex<T>;
using P = Polynomial<T>;
using F = FactoredPolynomial<T>;
using V = BasicSignalView<T, eSignalDomain::DOMAINLESS>;
using VZ = BasicSignalView<Z, eSignalDomain::DOMAINLESS>;
extern "C" {
double poly_eval(const P* p, const T* x) { return (*p)(*x); }
void poly_evalc(Z* r, const P* p, const Z* x) { *r = (*p)(*x); }
size_t poly_order(const P* p) { return p->order(); }
size_t poly_size(const P* p) { return p->size(); }
void poly_resize(P* p, size_t n, T v) { p->resize(n, v); }
void poly_make(P* r, const T* a, size_t n) { new (r) P(a, a + n); }
void poly_copy(P* r, const P* a) { new (r) P(*a); }
void mul1(T* a, size_t n, T c) { impl::MultiplyPolynomialBy1stOrder(V(a, n), c); }
void mul1c(Z* a, size_t n, const Z* c) { impl::MultiplyPolynomialBy1stOrder(VZ(a, n), *c); }
void mul2(T* a, size_t n, T c0, T c1) { impl::MultiplyPolynomialBy2ndOrder(V(a, n), c0, c1); }
void expand(P* r, const F* f) { new (r) P(ExpandPolynomial(*f)); }
double fac_eval(const F* f, const T* x) { return (*f)(*x); }
void fac_evalc(Z* r, const F* f, const Z* x) { *r = (*f)(*x); }
void fac_copy(F* r, const F* a) { new (r) F(*a); }
void fac_move(F* r, F* a) { new (r) F(std::move(*a)); }
void fac_assign(F* r, const F* a) { *r = *a; }
void fac_massign(F* r, F* a) { *r = std::move(*a); }
void fac_resize(F* r, size_t nr, size_t nc, T v, const Z* z) { r->resize(nr, nc, v, *z); }
void fac_regroup(F* r, size_t nr, T v, const Z* z) { r->regroup(nr, v, *z); }
void fac_make(F* r, const Z* a, size_t n) { new (r) F(a, a + n); }
bool are_pairs(const Z* a, size_t n) { return impl::AreRootsConjugatePairs(a, a + n); }
size_t fac_counts(const F* f, size_t* o) { o[0] = f->num_roots(); o[1] = f->num_real_roots(); o[2] = f->num_complex_roots(); o[3] = f->num_complex_pairs(); return f->order(); }
}
