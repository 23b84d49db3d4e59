// Instantiations of the header-only statistical and spectral features (no logic of their own).
#include <edsp/meta/iterator.hpp>
#include <numeric>
#include <edsp/feature/spectral/spectral_centroid.hpp>
#include <edsp/feature/spectral/spectral_crest.hpp>
#include <edsp/feature/spectral/spectral_decrease.hpp>
#include <edsp/feature/spectral/spectral_entropy.hpp>
#include <edsp/feature/spectral/spectral_flatness.hpp>
#include <edsp/feature/spectral/spectral_flux.hpp>
#include <edsp/feature/spectral/spectral_irregularity.hpp>
#include <edsp/feature/spectral/spectral_rolloff.hpp>
#include <edsp/feature/spectral/spectral_slope.hpp>
#include <edsp/feature/spectral/spectral_spread.hpp>
#include <edsp/feature/spectral/spectral_variation.hpp>
namespace f = edsp::feature;
namespace s = edsp::feature::statistics;
namespace p = edsp::feature::spectral;
extern "C" {
double h_centroid(const double* x, long n) { return s::centroid(x, x + n); }
double h_weighted_centroid(const double* x, long n, const double* w) { return s::weighted_centroid(x, x + n, w); }
double h_spectral_centroid(const double* x, long n, const double* w) { return p::spectral_centroid(x, x + n, w); }
double h_spread(const double* x, long n) { return s::spread(x, x + n); }
double h_weighted_spread(const double* x, long n, const double* w) { return s::weighted_spread(x, x + n, w); }
double h_spectral_spread(const double* x, long n, const double* w) { return p::spectral_spread(x, x + n, w); }
double h_slope(const double* x, long n, const double* w) { return s::slope(x, x + n, w); }
double h_spectral_slope(const double* x, long n, const double* w) { return p::spectral_slope(x, x + n, w); }
double h_decrease(const double* x, long n) { return s::decrease(x, x + n); }
double h_spectral_decrease(const double* x, long n) { return p::spectral_decrease(x, x + n); }
double h_crest(const double* x, long n) { return s::crest(x, x + n); }
double h_spectral_crest(const double* x, long n) { return p::spectral_crest(x, x + n); }
double h_flatness(const double* x, long n) { return s::flatness(x, x + n); }
double h_spectral_flatness(const double* x, long n) { return p::spectral_flatness(x, x + n); }
double h_entropy(const double* x, long n) { return s::entropy(x, x + n); }
double h_spectral_entropy(const double* x, long n) { return p::spectral_entropy(x, x + n); }
double h_flux_manhattan(const double* x, long n, const double* w) { return s::flux<edsp::math::distances::manhattan>(x, x + n, w); }
double h_flux_euclidean(const double* x, long n, const double* w) { return s::flux<edsp::math::distances::euclidean>(x, x + n, w); }
double h_flux_logarithmic(const double* x, long n, const double* w) { return s::flux<edsp::math::distances::logarithmic>(x, x + n, w); }
double h_spectral_flux(const double* x, long n, const double* w) { return p::spectral_flux(x, x + n, w); }
double h_variation(const double* x, long n, const double* w) { return s::variation(x, x + n, w); }
double h_spectral_variation(const double* x, long n, const double* w) { return p::spectral_variation(x, x + n, w); }
double h_irregularity(const double* x, long n) { return p::spectral_irregularity(x, x + n); }
double h_rolloff(const double* x, long n, double q) { return s::rolloff(x, x + n, q); }
double h_spectral_rolloff(const double* x, long n, double q) { return p::spectral_rolloff(x, x + n, q); }
}
