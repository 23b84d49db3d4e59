// Moving filters observed through their public interface.
#include <edsp/filter/moving_average_filter.hpp>
#include <edsp/filter/moving_rms_filter.hpp>
#define EACH(lo, hi) for (long i = lo; i < hi; ++i)
#define FILTER(P, C) \
    long h_##P##_size(long n) { C f(n); return f.size(); } \
    long h_##P##_resized(long n, long m) { C f(n); f.resize(m); return f.size(); } \
    long h_##P##_reset_size(long n) { C f(n); f.reset(); return f.size(); } \
    void h_##P##_first(long n, const double* x, long g, double* y) { C f(n); EACH(0, g) y[i] = f(x[i]); } \
    void h_##P##_block(long n, const double* x, long g, double* y) { C f(n); f.filter(x, x + g, y); } \
    void h_##P##_inplace(long n, double* x, long g) { C f(n); f.filter(x, x + g, x); } \
    void h_##P##_blocks(long n, const double* x, long m, long g, double* y) { C f(n); f.filter(x, x + m, y); f.filter(x + m, x + g, y + m); } \
    void h_##P##_second(long n, const double* x, long g, double* y) { C f(n); EACH(0, n) y[i] = f(x[i]); EACH(n, n + g) y[i] = f(x[i]); } \
    void h_##P##_third(long n, const double* x, long g, double* y) { C f(n); EACH(0, n) y[i] = f(x[i]); EACH(n, 2 * n) y[i] = f(x[i]); EACH(2 * n, 2 * n + g) y[i] = f(x[i]); } \
    void h_##P##_reset(long n, const double* x, long m, long g, double* y) { C f(n); EACH(0, m) y[i] = f(x[i]); f.reset(); EACH(m, m + g) y[i] = f(x[i]); } \
    void h_##P##_resize(long n, const double* x, long m, long k, long g, double* y) { C f(n); EACH(0, m) y[i] = f(x[i]); f.resize(k); EACH(m, m + g) y[i] = f(x[i]); }
extern "C" {
FILTER(avg, edsp::filter::moving_average<double>)
FILTER(rms, edsp::filter::moving_rms<double>)
}
