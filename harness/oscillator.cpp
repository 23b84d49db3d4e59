// Instantiations of the oscillator classes (no logic of their own: construct, call, return).
#include <edsp/oscillator.hpp>
using namespace edsp::oscillators;
using S = sin_oscillator<double>; using Q = square_oscillator<double>; using W = sawtooth_oscillator<double>; using R = triangular_oscillator<double>;
#define EACH(lo, hi) for (long i = lo; i < hi; ++i)
#define KIND(name, T, PAR, ARG) \
void h_##name(PAR, long n, double* y) { T o ARG; EACH(0, n) y[i] = o(); } \
void h_##name##_make(PAR, long n, double* y) { auto o = make_oscillator<double, OscillatorType::T##_TYPE> ARG; EACH(0, n) y[i] = o(); } \
void h_##name##_at(PAR, double t0, long n, double* y) { T o ARG; o.set_timestamp(t0); EACH(0, n) y[i] = o(); } \
void h_##name##_reset(PAR, long n, long m, double* y) { T o ARG; EACH(0, m) y[i] = o(); o.reset(); EACH(m, n) y[i] = o(); } \
void h_##name##_copy(PAR, long n, long m, double* y) { T o ARG; EACH(0, m) y[i] = o(); T q(o); EACH(m, n) y[i] = q(); } \
void h_##name##_amplitude(PAR, double v, long n, long m, double* y) { T o ARG; EACH(0, m) y[i] = o(); o.set_amplitude(v); EACH(m, n) y[i] = o(); } \
void h_##name##_frequency(PAR, double v, long n, long m, double* y) { T o ARG; EACH(0, m) y[i] = o(); o.set_frequency(v); EACH(m, n) y[i] = o(); } \
void h_##name##_sample_rate(PAR, double v, long n, long m, double* y) { T o ARG; EACH(0, m) y[i] = o(); o.set_sample_rate(v); EACH(m, n) y[i] = o(); } \
void h_##name##_get(PAR, double* g) { T o ARG; g[0] = o.amplitude(); g[1] = o.sample_rate(); g[2] = o.frequency(); g[3] = o.timestamp(); g[4] = o.sampling_period(); } \
void h_##name##_getset(PAR, double a, double s, double q, double t, double* g) { T o ARG; o.set_amplitude(a); o.set_sample_rate(s); o.set_frequency(q); o.set_timestamp(t); g[0] = o.amplitude(); g[1] = o.sample_rate(); g[2] = o.frequency(); g[3] = o.timestamp(); g[4] = o.sampling_period(); } \
double h_##name##_time(PAR, long n, double* y) { T o ARG; EACH(0, n) y[i] = o(); return o.timestamp(); } \
double h_##name##_time0(PAR, long n, double* y) { T o ARG; EACH(0, n) y[i] = o(); o.reset(); return o.timestamp(); }
#define S_TYPE Sinusoidal
#define Q_TYPE Square
#define W_TYPE Sawtooth
#define R_TYPE Triangular
#define P4 double A, double sr, double f, double p
#define P3 double A, double sr, double f
extern "C" {
KIND(sin, S, P4, (A, sr, f, p))
KIND(square, Q, P4, (A, sr, f, p))
KIND(saw, W, P4, (A, sr, f, p))
KIND(tri, R, P3, (A, sr, f))
void h_sin_phase(P4, double v, long n, long m, double* y) { S o(A, sr, f, p); EACH(0, m) y[i] = o(); o.set_phase(v); EACH(m, n) y[i] = o(); }
void h_square_duty(P4, double v, long n, long m, double* y) { Q o(A, sr, f, p); EACH(0, m) y[i] = o(); o.set_duty(v); EACH(m, n) y[i] = o(); }
void h_saw_width(P4, double v, long n, long m, double* y) { W o(A, sr, f, p); EACH(0, m) y[i] = o(); o.set_width(v); EACH(m, n) y[i] = o(); }
double h_sin_get_phase(P4) { S o(A, sr, f, p); return o.phase(); }
double h_sin_getset_phase(P4, double v) { S o(A, sr, f, p); o.set_phase(v); return o.phase(); }
double h_square_get_duty(P4) { Q o(A, sr, f, p); return o.duty(); }
double h_square_getset_duty(P4, double v, double q) { Q o(A, sr, f, p); o.set_frequency(q); o.set_duty(v); return o.duty(); }
double h_saw_get_width(P4) { W o(A, sr, f, p); return o.width(); }
double h_saw_getset_width(P4, double v) { W o(A, sr, f, p); o.set_width(v); return o.width(); }
double h_tri_get_width(P3) { R o(A, sr, f); return o.width(); }
}
