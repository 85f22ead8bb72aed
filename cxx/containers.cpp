// instantiation unit: signals and views
#include <dspbb/Primitives/Signal.hpp>
#include <dspbb/Primitives/SignalView.hpp>
using namespace dspbb;
#ifdef A_C
using T = std::complex<double>;
#else
using T = double;
#endif
using V = SignalView<T>;
using CV = SignalView<const T>;
using S = Signal<T>;
extern "C" {
#ifdef VIEWS
void v_ptr_size(V* r, T* p, size_t n) { new (r) V(p, n); }
void v_iters(V* r, T* p, size_t n) { new (r) V(p, p + n); }
void v_signal(V* r, S* s) { new (r) V(*s); }
void v_csignal(CV* r, const S* s) { new (r) CV(*s); }
void v_cview(CV* r, V* v) { new (r) CV(*v); }
void v_copy(V* r, V* v) { V w = *v; V x; x = w; new (r) V(std::move(x)); }
void v_siter(V* r, S* s) { new (r) V(s->begin(), s->end()); }
void v_siter_size(V* r, S* s) { new (r) V(s->begin(), s->size()); }
void as_view_s(V* r, S* s) { new (r) V(AsView(*s)); }
void as_view_cs(CV* r, const S* s) { new (r) CV(AsView(*s)); }
void as_view_v(V* r, V* v) { new (r) V(AsView(*v)); }
void as_view_cv(CV* r, CV* v) { new (r) CV(AsView(*v)); }
void as_cview_s(CV* r, const S* s) { new (r) CV(AsConstView(*s)); }
void as_cview_v(CV* r, V* v) { new (r) CV(AsConstView(*v)); }
void as_cview_cv(CV* r, CV* v) { new (r) CV(AsConstView(*v)); }
void as_view_it(V* r, T* p, size_t n) { new (r) V(AsView<TIME_DOMAIN>(p, p + n)); }
void as_view_ps(V* r, T* p, size_t n) { new (r) V(AsView<TIME_DOMAIN>(p, n)); }
void as_cview_it(CV* r, T* p, size_t n) { new (r) CV(AsConstView<TIME_DOMAIN>(p, p + n)); }
void as_cview_ps(CV* r, T* p, size_t n) { new (r) CV(AsConstView<TIME_DOMAIN>(p, n)); }
void v_sub2(V* r, V* v, size_t a, size_t n) { new (r) V(v->subsignal(a, n)); }
void v_sub1(V* r, V* v, size_t a) { new (r) V(v->subsignal(a)); }
void v_first(V* r, V* v, size_t n) { new (r) V(v->first(n)); }
void v_last(V* r, V* v, size_t n) { new (r) V(v->last(n)); }
size_t v_size(V* v) { return v->size(); }
size_t v_bytes(V* v) { return v->size_bytes(); }
bool v_empty(V* v) { return v->empty(); }
const T* v_front(V* v) { return &v->front(); }
const T* v_back(V* v) { return &v->back(); }
const T* v_data(V* v) { return v->data(); }
const T* v_at(V* v, size_t i) { return &(*v)[i]; }
void v_set(V* v, size_t i, const T* x) { (*v)[i] = *x; }
const T* v_begin(V* v, size_t i) { return &*(v->begin() + i); }
const T* v_cbegin(V* v, size_t i) { return &*(v->cbegin() + i); }
const T* v_end(V* v, size_t i) { return &*(v->end() - 1 - i); }
const T* v_cend(V* v, size_t i) { return &*(v->cend() - 1 - i); }
const T* v_rbegin(V* v, size_t i) { return &v->rbegin()[i]; }
const T* v_crbegin(V* v, size_t i) { return &v->crbegin()[i]; }
const T* v_rend(V* v, size_t i) { return &*(v->rend() - 1 - i); }
const T* v_crend(V* v, size_t i) { return &*(v->crend() - 1 - i); }
size_t v_dist(V* v) { return size_t(v->end() - v->begin()); }
size_t v_rdist(V* v) { return size_t(v->rend() - v->rbegin()); }
void v_fill(V* v, const T* x) { for (auto& e : *v) { e = *x; } }
void v_copy_rev(T* o, V* v) { for (auto it = v->rbegin(); it != v->rend(); ++it) { *o = *it; ++o; } }
#endif
#ifdef SIGNALS
void s_default(S* r) { new (r) S(); }
void s_count(S* r, size_t n) { new (r) S(n); }
void s_value(S* r, size_t n, const T* x) { new (r) S(n, *x); }
void s_copy(S* r, const S* a) { new (r) S(*a); }
void s_move(S* r, S* a) { new (r) S(std::move(*a)); }
void s_ptr(S* r, const T* p, size_t n) { new (r) S(n, p); }
void s_iter(S* r, const T* p, size_t n) { new (r) S(p, p + n); }
void s_assign(S* r, const S* a) { *r = *a; }
void s_move_assign(S* r, S* a) { *r = std::move(*a); }
void s_self_assign(S* r) { auto& x = *r; *r = x; }
#ifndef A_C
void s_conv(S* r, const Signal<float>* a) { new (r) S(*a); }
void s_conv_assign(S* r, const Signal<float>* a) { *r = *a; }
#endif
size_t s_size(const S* s) { return s->size(); }
size_t s_capacity(const S* s) { return s->capacity(); }
bool s_empty(const S* s) { return s->empty(); }
const T* s_data(S* s) { return s->data(); }
const T* s_cdata(const S* s) { return s->data(); }
const T* s_at(S* s, size_t i) { return &(*s)[i]; }
const T* s_cat(const S* s, size_t i) { return &(*s)[i]; }
const T* s_begin(S* s, size_t i) { return &*(s->begin() + i); }
const T* s_bbegin(const S* s, size_t i) { return &*(s->begin() + i); }
const T* s_cbegin(const S* s, size_t i) { return &*(s->cbegin() + i); }
const T* s_end(S* s, size_t i) { return &*(s->end() - 1 - i); }
const T* s_bend(const S* s, size_t i) { return &*(s->end() - 1 - i); }
const T* s_cend(const S* s, size_t i) { return &*(s->cend() - 1 - i); }
const T* s_rbegin(S* s, size_t i) { return &s->rbegin()[i]; }
const T* s_brbegin(const S* s, size_t i) { return &s->rbegin()[i]; }
const T* s_crbegin(const S* s, size_t i) { return &s->crbegin()[i]; }
const T* s_rend(S* s, size_t i) { return &*(s->rend() - 1 - i); }
const T* s_brend(const S* s, size_t i) { return &*(s->rend() - 1 - i); }
const T* s_crend(const S* s, size_t i) { return &*(s->crend() - 1 - i); }
void s_reserve(S* s, size_t n) { s->reserve(n); }
void s_resize(S* s, size_t n) { s->resize(n); }
void s_resize_v(S* s, size_t n, const T* x) { s->resize(n, *x); }
void s_clear(S* s) { s->clear(); }
void s_append(S* s, const S* b) { s->append(*b); }
void s_prepend(S* s, const S* b) { s->prepend(*b); }
void s_push_back(S* s, const T* x) { s->push_back(*x); }
void s_front(S* r, S* s, size_t n) { new (r) S(s->extract_front(n)); }
void s_back(S* r, S* s, size_t n) { new (r) S(s->extract_back(n)); }
void s_insert(S* s, size_t i, const S* b) { s->insert(i, *b); }
void s_insert_it(S* s, size_t i, const S* b) { s->insert(s->cbegin() + i, *b); }
void s_insert_rg(S* s, size_t i, const T* p, size_t n) { s->insert(s->cbegin() + i, p, p + n); }
void s_erase(S* s, size_t i) { s->erase(s->cbegin() + i); }
void s_erase_rg(S* s, size_t i, size_t j) { s->erase(s->cbegin() + i, s->cbegin() + j); }
#endif
}
