// Ring buffers observed through their public interface.
#include <edsp/types/ring_buffer.hpp>
#include <edsp/types/fixed_ring_buffer.hpp>
using span = nonstd::ring_span<double>;
// size, emptiness, fullness and capacity into w, the elements in order into y, the ends into z
template <typename R> static inline void observe(R& r, double* y, double* z, long* w) {
    w[0] = r.size(); w[1] = r.empty(); w[2] = r.full(); w[3] = r.capacity();
    for (auto it = r.begin(); it != r.end(); ++it) *y++ = *it;
    if (r.size() > 0) { z[0] = r.front(); z[1] = r.back(); }
}
template <typename R> static inline void observe(const R& r, double* y, double* z, long* w) {
    w[0] = r.size(); w[1] = r.empty(); w[2] = r.full(); w[3] = r.capacity();
    for (auto it = r.begin(); it != r.end(); ++it) *y++ = *it;
    if (r.size() > 0) { z[0] = r.front(); z[1] = r.back(); }
}
extern "C" {
// a span in an arbitrary state: s elements from position f of the c cells
#define SPAN span r(d, d + c, d + f, s);
void h_span(double* d, long c, long f, long s, double* y, double* z, long* w) { SPAN observe(r, y, z, w); }
void h_span_const(double* d, long c, long f, long s, double* y, double* z, long* w) { SPAN const span& q = r; observe(q, y, z, w); }
void h_span_push_back(double* d, long c, long f, long s, double v, double* y, double* z, long* w) { SPAN r.push_back(v); observe(r, y, z, w); }
void h_span_push_back_copy(double* d, long c, long f, long s, const double* v, double* y, double* z, long* w) { SPAN r.push_back(*v); observe(r, y, z, w); }
void h_span_emplace_back(double* d, long c, long f, long s, double v, double* y, double* z, long* w) { SPAN r.emplace_back(v); observe(r, y, z, w); }
void h_span_push_front(double* d, long c, long f, long s, double v, double* y, double* z, long* w) { SPAN r.push_front(v); observe(r, y, z, w); }
void h_span_push_front_copy(double* d, long c, long f, long s, const double* v, double* y, double* z, long* w) { SPAN r.push_front(*v); observe(r, y, z, w); }
void h_span_emplace_front(double* d, long c, long f, long s, double v, double* y, double* z, long* w) { SPAN r.emplace_front(v); observe(r, y, z, w); }
double h_span_pop_front(double* d, long c, long f, long s, double* y, double* z, long* w) { SPAN double x = r.pop_front(); observe(r, y, z, w); return x; }
double h_span_pop_back(double* d, long c, long f, long s, double* y, double* z, long* w) { SPAN double x = r.pop_back(); observe(r, y, z, w); return x; }
long h_span_swap(double* d, long c, long f, long s, double* e, long c2, long f2, long s2, double* y, double* z, long* w) { SPAN span q(e, e + c2, e + f2, s2); r.swap(q); observe(r, y, z, w); return q.size(); }
void h_span_reverse(double* d, long c, long f, long s, double* y) { SPAN for (auto it = r.rbegin(); it != r.rend(); ++it) *y++ = *it; }
double h_span_random_access(double* d, long c, long f, long s, int i, int j) { SPAN auto it = r.begin() + i; it -= j; return *it; }
long h_span_distance(double* d, long c, long f, long s) { SPAN return r.end() - r.begin(); }
}
// n pushes, f < n pops from the front and b <= f more pushes: every position of the oldest element, every size from n-f on
template <typename R> static inline void build(R& r, const double* x, long n, long f, long b) {
    for (long i = 0; i < n; ++i) r.push_back(x[i]);
    for (long i = 0; i < f; ++i) r.pop_front();
    for (long i = 0; i < b; ++i) r.push_back(x[n + i]);
}
using ring = edsp::ring_buffer<double>;
extern "C" {
#define RING ring r(n); build(r, x, n, f, b);
#define STATE const double* x, long n, long f, long b
#define OUT double* y, double* z, long* w
void h_ring_new(long n, OUT) { ring r(n); observe(r, y, z, w); }
void h_ring_fill(long n, double v, OUT) { ring r(n, v); observe(r, y, z, w); }
void h_ring(STATE, OUT) { RING observe(r, y, z, w); }
void h_ring_const(STATE, OUT) { RING const ring& q = r; observe(q, y, z, w); }
void h_ring_full(const double* x, long n, long g, OUT) { ring r(n); for (long i = 0; i < n; ++i) r.push_back(x[i]); for (long i = 0; i < g; ++i) r.push_back(x[n + i]); observe(r, y, z, w); }
void h_ring_push_back(STATE, double v, OUT) { RING r.push_back(v); observe(r, y, z, w); }
void h_ring_emplace_back(STATE, double v, OUT) { RING r.emplace_back(v); observe(r, y, z, w); }
void h_ring_emplace_front(STATE, double v, OUT) { RING r.emplace_front(v); observe(r, y, z, w); }
void h_ring_pop_front(STATE, OUT) { RING r.pop_front(); observe(r, y, z, w); }
void h_ring_pop_back(STATE, OUT) { RING r.pop_back(); observe(r, y, z, w); }
void h_ring_clear(STATE, OUT) { RING r.clear(); observe(r, y, z, w); }
void h_ring_resize(STATE, long m, OUT) { RING r.resize(m); observe(r, y, z, w); }
void h_ring_copy(STATE, double v, OUT) { RING ring q(r); r.push_back(v); observe(q, y, z, w); }
void h_ring_copy_source(STATE, double v, OUT) { RING ring q(r); q.push_back(v); observe(r, y, z, w); }
void h_ring_copy_assign(STATE, long m, double v, OUT) { RING ring q(m, v); q = r; r.push_back(v); observe(q, y, z, w); }
void h_ring_move(STATE, OUT) { RING ring q(std::move(r)); observe(q, y, z, w); }
void h_ring_move_assign(STATE, long m, double v, OUT) { RING ring q(m, v); q = std::move(r); observe(q, y, z, w); }
double h_ring_index(STATE, long i) { RING return r[i]; }
double h_ring_index_const(STATE, long i) { RING const ring& q = r; return q[i]; }
double h_ring_at(STATE, long i) { RING return r.at(i); }
double h_ring_at_const(STATE, long i) { RING const ring& q = r; return q.at(i); }
void h_ring_store(STATE, long i, double v, OUT) { RING r[i] = v; observe(r, y, z, w); }
void h_ring_reverse(STATE, double* y) { RING for (auto it = r.rbegin(); it != r.rend(); ++it) *y++ = *it; }

// the same with a capacity fixed at compile time
using fixed = edsp::fixed_ring_buffer<double, 5>;
#define FIXED fixed r; build(r, x, 5, f, b);
#define FSTATE const double* x, long f, long b
void h_fixed_new(OUT) { fixed r; observe(r, y, z, w); }
void h_fixed(FSTATE, OUT) { FIXED observe(r, y, z, w); }
void h_fixed_const(FSTATE, OUT) { FIXED const fixed& q = r; observe(q, y, z, w); }
void h_fixed_push_back(FSTATE, double v, OUT) { FIXED r.push_back(v); observe(r, y, z, w); }
void h_fixed_emplace_back(FSTATE, double v, OUT) { FIXED r.emplace_back(v); observe(r, y, z, w); }
void h_fixed_emplace_front(FSTATE, double v, OUT) { FIXED r.emplace_front(v); observe(r, y, z, w); }
void h_fixed_pop_front(FSTATE, OUT) { FIXED r.pop_front(); observe(r, y, z, w); }
void h_fixed_pop_back(FSTATE, OUT) { FIXED r.pop_back(); observe(r, y, z, w); }
void h_fixed_clear(FSTATE, OUT) { FIXED r.clear(); observe(r, y, z, w); }
void h_fixed_copy(FSTATE, double v, OUT) { FIXED fixed q(r); r.push_back(v); observe(q, y, z, w); }
void h_fixed_copy_source(FSTATE, double v, OUT) { FIXED fixed q(r); q.push_back(v); observe(r, y, z, w); }
void h_fixed_copy_assign(FSTATE, double v, OUT) { FIXED fixed q; q.push_back(v); q = r; r.push_back(v); observe(q, y, z, w); }
void h_fixed_self_assign(FSTATE, OUT) { FIXED const fixed& q = r; r = q; observe(r, y, z, w); }
void h_fixed_move(FSTATE, OUT) { FIXED fixed q(std::move(r)); observe(q, y, z, w); }
void h_fixed_move_assign(FSTATE, double v, OUT) { FIXED fixed q; q.push_back(v); q = std::move(r); observe(q, y, z, w); }
double h_fixed_index(FSTATE, long i) { FIXED return r[i]; }
double h_fixed_index_const(FSTATE, long i) { FIXED const fixed& q = r; return q[i]; }
double h_fixed_at(FSTATE, long i) { FIXED return r.at(i); }
double h_fixed_at_const(FSTATE, long i) { FIXED const fixed& q = r; return q.at(i); }
}
