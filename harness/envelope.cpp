// Instantiations of the envelope classes (no logic of their own: construct, call, return).
#include <edsp/experimental/envelope/ar.hpp>
#include <edsp/experimental/envelope/adsr.hpp>
using A = edsp::envelope::ar<double>;
using D = edsp::envelope::adsr<double>;
#define EACH(lo, hi) for (long i = lo; i < hi; ++i)
#define AP double fs, double at, double rt, int rect
#define AM A e(fs, at, rt, rect != 0)
#define OP3(ops) y[0] = e(x[0]); ops; y[1] = e(x[1]); y[2] = e(x[2]);
extern "C" {
void h_ar(AP, const double* x, long n, double* y) { AM; EACH(0, n) y[i] = e(x[i]); }
void h_ar_default(double fs, double at, double rt, const double* x, long n, double* y) { A e(fs, at, rt); EACH(0, n) y[i] = e(x[i]); }
void h_ar_apply(AP, const double* x, long n, double* y) { AM; e.apply(x, x + n, y); }
void h_ar_inplace(AP, double* x, long n) { AM; e.apply(x, x + n, x); }
void h_ar_copy(AP, const double* x, double* y) { AM; y[0] = e(x[0]); A f(e); y[1] = f(x[1]); y[2] = f(x[2]); y[3] = e(x[3]); }
void h_ar_reset(AP, const double* x, double* y) { AM; OP3(e.reset()) }
void h_ar_attack(AP, double v, const double* x, double* y) { AM; OP3(e.set_attack_time(v)) }
void h_ar_release(AP, double v, const double* x, double* y) { AM; OP3(e.set_release_time(v)) }
void h_ar_rate(AP, double v, const double* x, double* y) { AM; OP3(e.set_sample_rate(v)) }
void h_ar_rectify(AP, int v, const double* x, double* y) { AM; OP3(e.set_rectification(v != 0)) }
void h_ar_get(AP, double* g) { AM; g[0] = e.sample_rate(); g[1] = e.attack_time(); g[2] = e.release_time(); g[3] = e.rectification(); }
void h_ar_getset(AP, double s, double a, double r, int v, double* g) { AM; e.set_sample_rate(s); e.set_attack_time(a); e.set_release_time(r); e.set_rectification(v != 0); g[0] = e.sample_rate(); g[1] = e.attack_time(); g[2] = e.release_time(); g[3] = e.rectification(); }

// ---- ADSR: setters and key events bring the envelope to any segment at any level
#define DM(s) D e; e.set_sustain_level(s)
#define ATTACKING(v) e.set_attack_rate(v); e.key_on(); e(1)
#define DECAYING(w) e.set_attack_rate(1); e.key_on(); e(1); e.set_decay_rate(1 - (w)); e(1)
#define SUSTAINING e.set_attack_rate(1); e.key_on(); e(1); e.set_decay_rate(1); e(1)
#define TWO y[0] = e(x[0]); y[1] = e(x[1])
void h_adsr_attack(double s, double v, double a, double d, const double* x, double* y) { DM(s); ATTACKING(v); e.set_attack_rate(a); e.set_decay_rate(d); TWO; }
void h_adsr_decay(double s, double w, double d, const double* x, double* y) { DM(s); DECAYING(w); e.set_decay_rate(d); TWO; }
void h_adsr_sustain(double s, double d, const double* x, long n, double* y) { DM(s); SUSTAINING; e.set_decay_rate(d); EACH(0, n) y[i] = e(x[i]); }
void h_adsr_idle(double s, const double* x, long n, double* y) { DM(s); EACH(0, n) y[i] = e(x[i]); }
void h_adsr_release_attack(double s, double v, double r, const double* x, double* y) { DM(s); ATTACKING(v); e.key_off(); e.set_release_rate(r); TWO; }
void h_adsr_release_decay(double s, double w, double r, const double* x, double* y) { DM(s); DECAYING(w); e.key_off(); e.set_release_rate(r); TWO; }
void h_adsr_release_sustain(double s, double r, const double* x, double* y) { DM(s); SUSTAINING; e.key_off(); e.set_release_rate(r); TWO; }
void h_adsr_released(double s, const double* x, long n, double* y) { DM(s); SUSTAINING; e.key_off(); e.set_release_rate(1); e(1); EACH(0, n) y[i] = e(x[i]); }
void h_adsr_retrigger(double s, double v, double r, double a, const double* x, double* y) { DM(s); ATTACKING(v); e.key_off(); e.set_release_rate(r); y[0] = e(x[0]); e.set_attack_rate(a); e.key_on(); y[1] = e(x[1]); }
void h_adsr_times(double s, double fs, double at, double dt, double rt, const double* x, double* y) { DM(s); e.set_sample_rate(fs); e.set_attack_time(at); e.set_decay_time(dt); e.set_release_time(rt); e.key_on(); y[0] = e(x[0]); e.set_attack_rate(1); e(1); y[1] = e(x[1]); e.key_off(); y[2] = e(x[2]); }
void h_adsr_rate(double s, double fs, double g, double a, double d, double r, const double* x, double* y) { DM(s); e.set_sample_rate(fs); e.set_attack_rate(a); e.set_decay_rate(d); e.set_release_rate(r); e.set_sample_rate(g); e.key_on(); y[0] = e(x[0]); e.set_attack_rate(1); e(1); y[1] = e(x[1]); e.key_off(); y[2] = e(x[2]); }
void h_adsr_apply(double s, double v, double a, double d, const double* x, double* y) { DM(s); ATTACKING(v); e.set_attack_rate(a); e.set_decay_rate(d); e.apply(x, x + 2, y); }
void h_adsr_get(double s, double a, double d, double r, double fs, double* g) { DM(s); e.set_attack_rate(a); e.set_decay_rate(d); e.set_release_rate(r); g[0] = e.sustain_level(); g[1] = e.attack_rate(); g[2] = e.decay_rate(); g[3] = e.release_rate(); e.set_sample_rate(fs); g[4] = e.sample_rate(); }
}
