// Instantiations of the filter classes (no logic of their own: construct, call, return).
#include <edsp/filter/biquad.hpp>
#include <edsp/filter/biquad_cascade.hpp>
using B = edsp::filter::biquad<double>;
#define COEF double a0, double a1, double a2, double b0, double b1, double b2
#define MAKE B f(a0, a1, a2, b0, b1, b2)
extern "C" {
void h_biquad_filter(COEF, const double* x, long n, double* y) { MAKE; f.filter(x, x + n, y); }
void h_biquad_inplace(COEF, double* x, long n) { MAKE; f.filter(x, x + n, x); }
void h_biquad_ticks(COEF, const double* x, long n, double* y) { MAKE; for (long i = 0; i < n; ++i) y[i] = f.tick(x[i]); }
void h_biquad_split(COEF, const double* x, long n, long m, double* y) { MAKE; f.filter(x, x + m, y); f.filter(x + m, x + n, y + m); }
void h_biquad_reset(COEF, const double* x, long n, long m, double* y) { MAKE; f.filter(x, x + m, y); f.reset(); f.filter(x + m, x + n, y + m); }
void h_biquad_copy(COEF, const double* x, long n, double* y) { MAKE; B g(f); B h; h = g; h.filter(x, x + n, y); }
void h_biquad_default(const double* x, long n, double* y) { B f; f.filter(x, x + n, y); }
#define SETTER(c) void h_biquad_set_##c(COEF, double v, const double* x, long n, long m, double* y) { MAKE; f.filter(x, x + m, y); f.set_##c(v); f.filter(x + m, x + n, y + m); }
SETTER(a0) SETTER(a1) SETTER(a2) SETTER(b0) SETTER(b1) SETTER(b2)
#define GETTER(c) double h_biquad_get_##c(COEF) { MAKE; return f.c(); } double h_biquad_getset_##c(COEF, double v) { MAKE; f.set_##c(v); return f.c(); }
GETTER(a0) GETTER(a1) GETTER(a2) GETTER(b0) GETTER(b1) GETTER(b2)
int h_biquad_stable(COEF) { MAKE; return f.stability(); }
int h_biquad_bool(COEF) { MAKE; return static_cast<bool>(f); }
void h_biquad_poles(double pr, double zr, double* o) { B f(std::complex<double>(pr, 0), std::complex<double>(zr, 0)); o[0] = f.a0(); o[1] = f.a1(); o[2] = f.a2(); o[3] = f.b0(); o[4] = f.b1(); o[5] = f.b2(); }
void h_biquad_conj(double pr, double pi, double zr, double zi, double* o) { B f(std::complex<double>(pr, pi), std::complex<double>(zr, zi), std::complex<double>(pr, -pi), std::complex<double>(zr, -zi)); o[0] = f.a0(); o[1] = f.a1(); o[2] = f.a2(); o[3] = f.b0(); o[4] = f.b1(); o[5] = f.b2(); }
void h_biquad_real2(double p, double z, double q, double w, double* o) { B f(std::complex<double>(p, 0), std::complex<double>(z, 0), std::complex<double>(q, 0), std::complex<double>(w, 0)); o[0] = f.a0(); o[1] = f.a1(); o[2] = f.a2(); o[3] = f.b0(); o[4] = f.b1(); o[5] = f.b2(); }
#define CO(k) double a0##k, double a1##k, double a2##k, double b0##k, double b1##k, double b2##k
#define CV(k) a0##k, a1##k, a2##k, b0##k, b1##k, b2##k
using C3 = edsp::filter::biquad_cascade<double, 3>;
// a cascade next to the same sections applied one after the other
#define ONE B f(CV(_1)); C3 c; c.push_back(f)
#define TWO B f(CV(_1)), g(CV(_2)); C3 c; c.push_back(f); c.push_back(g)
#define SIG const double* x, long n, double* y, double* z
#define SIG2 const double* x, long n, long m, double* y, double* z
#define EACH(lo, hi) for (long i = lo; i < hi; ++i)
void h_cascade0(const double* x, long n, double* y) { C3 c; c.filter(x, x + n, y); }
void h_cascade1(CO(_1), SIG) { ONE; EACH(0, n) { y[i] = c.tick(x[i]); z[i] = f.tick(x[i]); } }
void h_cascade2(CO(_1), CO(_2), SIG) { TWO; EACH(0, n) { y[i] = c.tick(x[i]); z[i] = g.tick(f.tick(x[i])); } }
void h_cascade3(CO(_1), CO(_2), CO(_3), SIG) { B h(CV(_3)); TWO; c.push_back(h); EACH(0, n) { y[i] = c.tick(x[i]); z[i] = h.tick(g.tick(f.tick(x[i]))); } }
void h_cascade_emplace(CO(_1), CO(_2), SIG) { B f(CV(_1)), g(CV(_2)); C3 c; c.emplace_back(CV(_1)); c.emplace_back(CV(_2)); EACH(0, n) { y[i] = c.tick(x[i]); z[i] = g.tick(f.tick(x[i])); } }
void h_cascade_block(CO(_1), CO(_2), SIG2) { TWO; C3 d(c); c.filter(x, x + m, y); c.filter(x + m, x + n, y + m); EACH(0, m) z[i] = d.tick(x[i]); EACH(m, n) z[i] = d.tick(x[i]); }
void h_cascade_inplace(CO(_1), CO(_2), double* x, long n, double* z) { TWO; C3 d(c); EACH(0, n) z[i] = d.tick(x[i]); c.filter(x, x + n, x); }
void h_cascade_reset(CO(_1), CO(_2), SIG2) { TWO; C3 d(c); EACH(0, m) y[i] = c.tick(x[i]); c.reset(); EACH(0, m) z[i] = y[i]; EACH(m, n) { y[i] = c.tick(x[i]); z[i] = d.tick(x[i]); } }
void h_cascade_clear(CO(_1), CO(_2), SIG2) { TWO; EACH(0, m) y[i] = c.tick(x[i]); c.clear(); c.push_back(g); EACH(0, m) z[i] = y[i]; EACH(m, n) { y[i] = c.tick(x[i]); z[i] = g.tick(x[i]); } }
void h_cascade_append(CO(_1), CO(_2), SIG2) { B f(CV(_1)), g(CV(_2)); C3 c; c.push_back(f); EACH(0, m) { y[i] = c.tick(x[i]); z[i] = f.tick(x[i]); } c.push_back(g); EACH(m, n) { y[i] = c.tick(x[i]); z[i] = g.tick(f.tick(x[i])); } }
void h_cascade_sizes(CO(_1), long* s) { B f(CV(_1)); C3 c; s[0] = c.size(); c.push_back(f); s[1] = c.size(); c.emplace_back(CV(_1)); s[2] = c.size(); c.push_back(f); s[3] = c.size(); s[4] = c.end() - c.begin(); s[5] = c.capacity(); s[6] = c.max_size(); c.reset(); s[7] = c.size(); c.clear(); s[8] = c.size(); s[9] = c.cend() - c.cbegin(); }
#define PUT(o, f) o[0] = f.a0(); o[1] = f.a1(); o[2] = f.a2(); o[3] = f.b0(); o[4] = f.b1(); o[5] = f.b2()
void h_cascade_items(CO(_1), CO(_2), double* o, double* p) { TWO; const C3& k = c; PUT(o, c[0]); PUT(p, k[1]); }
void h_cascade_iter(CO(_1), CO(_2), double* o, double* p) { TWO; const C3& k = c; PUT(o, (*c.begin())); PUT(p, (*(k.end() - 1))); }
// a cascade filled to its capacity
using C2 = edsp::filter::biquad_cascade<double, 2>;
#define FULL B f(CV(_1)), g(CV(_2)); C2 c; c.push_back(f); c.push_back(g)
void h_cascade_full(CO(_1), CO(_2), SIG) { FULL; EACH(0, n) { y[i] = c.tick(x[i]); z[i] = g.tick(f.tick(x[i])); } }
void h_cascade_full_block(CO(_1), CO(_2), SIG2) { FULL; c.filter(x, x + m, y); c.filter(x + m, x + n, y + m); EACH(0, m) z[i] = g.tick(f.tick(x[i])); EACH(m, n) z[i] = g.tick(f.tick(x[i])); }
void h_cascade_full_copy(CO(_1), CO(_2), SIG2) { FULL; EACH(0, m) { y[i] = c.tick(x[i]); z[i] = g.tick(f.tick(x[i])); } C2 d(c); EACH(m, n) { y[i] = d.tick(x[i]); z[i] = g.tick(f.tick(x[i])); } }
void h_cascade_full_reset(CO(_1), CO(_2), SIG2) { FULL; EACH(0, m) y[i] = c.tick(x[i]); c.reset(); EACH(0, m) z[i] = y[i]; EACH(m, n) { y[i] = c.tick(x[i]); z[i] = g.tick(f.tick(x[i])); } }
void h_cascade_full_clear(CO(_1), CO(_2), SIG2) { FULL; EACH(0, m) y[i] = c.tick(x[i]); c.clear(); c.push_back(g); EACH(0, m) z[i] = y[i]; EACH(m, n) { y[i] = c.tick(x[i]); z[i] = g.tick(x[i]); } }
void h_cascade_one_reset(CO(_1), SIG2) { ONE; EACH(0, m) y[i] = c.tick(x[i]); c.reset(); EACH(0, m) z[i] = y[i]; EACH(m, n) { y[i] = c.tick(x[i]); z[i] = f.tick(x[i]); } }
}
