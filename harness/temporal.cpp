// Instantiations of the header-only temporal features (no logic of their own).
#include <edsp/meta/iterator.hpp>
#include <edsp/feature/temporal/energy.hpp>
#include <edsp/feature/temporal/power.hpp>
#include <edsp/feature/temporal/rms.hpp>
#include <edsp/feature/temporal/rssq.hpp>
#include <edsp/feature/temporal/leq.hpp>
#include <edsp/feature/temporal/duration.hpp>
#include <edsp/feature/temporal/amdf.hpp>
#include <edsp/feature/temporal/asdf.hpp>
#include <edsp/feature/temporal/azcr.hpp>
#include <edsp/feature/temporal/snr.hpp>
namespace t = edsp::feature::temporal;
extern "C" {
double h_energy(const double* x, long n) { return t::energy(x, x + n); }
double h_power(const double* x, long n) { return t::power(x, x + n); }
double h_rms(const double* x, long n) { return t::rms(x, x + n); }
double h_rssq(const double* x, long n) { return t::rssq(x, x + n); }
double h_leq(const double* x, long n) { return t::leq(x, x + n); }
double h_duration(const double* x, long n, double fs) { return t::duration(x, x + n, fs); }
double h_effective_duration(const double* x, long n, double fs, double th) { return t::effective_duration(x, x + n, fs, th); }
void h_amdf(const double* x, long n, double* y) { t::amdf(x, x + n, y); }
void h_asdf(const double* x, long n, double* y) { t::asdf(x, x + n, y); }
double h_azcr(const double* x, long n) { return t::azcr(x, x + n); }
double h_snr(const double* x, long n, const double* r) { return t::snr(x, x + n, r); }
}
