// Instantiations of the median.
#include <edsp/statistics/median.hpp>
#include <edsp/filter/moving_median_filter.hpp>
#include <edsp/types/ring_buffer.hpp>
using M = edsp::filter::moving_median<double>;
extern "C" {
double h_median(const double* x, long n) { return edsp::statistics::median(x, x + n); }
double h_median_once(double* x, long n) { return edsp::statistics::median(x, x + n); }
double h_median_ring(const double* x, long n, long f) { edsp::ring_buffer<double> r(n); for (long i = 0; i < n; ++i) r.push_back(x[i]); for (long i = 0; i < f; ++i) r.push_back(x[n + i]); return edsp::statistics::median(r.cbegin(), r.cend()); }
long h_med_size(long n) { M f(n); return f.size(); }
long h_med_reset_size(long n) { M f(n); f.reset(); return f.size(); }
long h_med_resized(long n, long m) { M f(n); f.resize(m); return f.size(); }
double h_med_one(long n, double x) { M f(n); return f(x); }
double h_med_reset_one(long n, double x, double y) { M f(n); f(x); f.reset(); return f(y); }
double h_med_resized_one(long n, long m, double x, double y) { M f(n); f(x); f.resize(m); return f(y); }
double h_med_two(long n, double x, double y) { M f(n); f(x); return f(y); }
}
