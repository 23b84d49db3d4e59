// Instantiations of the numeric helpers.
#include <edsp/math/numeric.hpp>
#include <edsp/math/complex.hpp>
namespace em = edsp::math;
#define INTS(S, T) \
T h_is_negative_##S(T x) { return em::is_negative(x); } \
T h_is_odd_##S(T x) { return em::is_odd(x); } \
T h_is_even_##S(T x) { return em::is_even(x); } \
T h_is_power_two_##S(T x) { return em::is_power_two(x); } \
T h_next_power_two_##S(T x) { return em::next_power_two(x); } \
T h_is_prime_##S(T x) { return em::is_prime(x); } \
T h_sign_##S(T x) { return em::sign(x); } \
T h_square_##S(T x) { return em::square(x); }
extern "C" {
INTS(i, int)
INTS(l, long)
long h_is_odd_u(unsigned x) { return em::is_odd(x); }
long h_is_even_u(unsigned x) { return em::is_even(x); }
long h_is_negative_d(double x) { return em::is_negative(x); }
double h_sign_d(double x) { return em::sign(x); }
double h_square_d(double x) { return em::square(x); }
double h_fract_d(double x) { return em::fract(x); }
double h_inv_d(double x) { return em::inv(x); }
double h_half_d(double x) { return em::half(x); }
double h_manhattan(double x, double y) { return em::distance<em::distances::manhattan>(x, y); }
double h_euclidean(double x, double y) { return em::distance<em::distances::euclidean>(x, y); }
double h_logarithmic(double x, double y) { return em::distance<em::distances::logarithmic>(x, y); }
int h_manhattan_i(int x, int y) { return em::distance<em::distances::manhattan>(x, y); }
double h_magnitude(double re, double im) { return em::magnitude(std::complex<double>(re, im)); }
double h_phase(double re, double im) { return em::phase(std::complex<double>(re, im)); }
double h_real(double re, double im) { return em::real(std::complex<double>(re, im)); }
double h_imag(double re, double im) { return em::imag(std::complex<double>(re, im)); }
void h_conj(double re, double im, double* w) { auto z = em::conj(std::complex<double>(re, im)); w[0] = z.real(); w[1] = z.imag(); }
}
