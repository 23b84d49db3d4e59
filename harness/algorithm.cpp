// Instantiations of the header-only algorithms of /repo/include/edsp/algorithm (no logic of its own).
#include <edsp/algorithm.hpp>
#include <edsp/algorithm/silence.hpp>
#include <edsp/algorithm/derivative.hpp>
#include <edsp/auditory/melspace.hpp>
#include <edsp/auditory/barkspace.hpp>
#include <edsp/auditory/erbspace.hpp>
#include <edsp/auditory/centspace.hpp>
extern "C" {
void h_normalize_rms(const double* x, long n, double* y) { edsp::normalize_rms(x, x + n, y); }
void h_derivative(const double* x, long n, double* y) { edsp::derivative(x, x + n, y); }
bool h_silence(const double* x, long n, double t) { return edsp::silence(x, x + n, t); }
bool h_equal2(const double* a, long n, const double* b, long m) { return edsp::equal(a, a + n, b, b + m); }
void h_melspace(double* y, long n, double a, double b) { edsp::auditory::melspace(y, y + n, a, b); }
void h_barkspace(double* y, long n, double a, double b) { edsp::auditory::barkspace(y, y + n, a, b); }
void h_erbspace(double* y, long n, double a, double b) { edsp::auditory::erbspace(y, y + n, a, b); }
void h_centspace(double* y, long n, double a, double b) { edsp::auditory::centspace(y, y + n, a, b); }
}
