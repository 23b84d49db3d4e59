// The spectral functions of the C interface and the FFT engine.  FFTW is replaced by a recorder that states its assumed
// contract: an execution reads the whole input, writes the whole output (any values), and never runs without a live plan
// of its own kind and length.
#include <bindings/c/src/spectral.c>
namespace {
    // r[0] misuse of a plan, r[1] plans made, r[2] plans destroyed, r[3] length and r[4] kind of the last plan, r[5] executions,
    // r[6] plannings that may overwrite a buffer
    long* r;
    enum { forward = 1, backward, r2c, c2r, dht, dct2, dct3 };
    double* sr[3]; fftw_complex* sc[3];                // what execution k was given
    const double* ar[3]; const fftw_complex* ac[3];    // what execution k answers
    char handle[4]; bool live[4]; int length[4], kind[4];
    void start(long* w) { r = w; for (int i = 0; i < 4; ++i) live[i] = false; for (int i = 0; i < 7; ++i) r[i] = 0; }
    fftw_plan make(int n, int k, unsigned flags) {
        long h = r[1]++;
        r[3] = n; r[4] = k;
        if (!(flags & FFTW_ESTIMATE) || !(flags & FFTW_PRESERVE_INPUT)) r[6]++;
        live[h] = true; length[h] = n; kind[h] = k;
        return reinterpret_cast<fftw_plan>(&handle[h]);
    }
    long id(fftw_plan p) { return reinterpret_cast<char*>(p) - handle; }
    int use(fftw_plan p, int k, int k2) {
        if (p == nullptr) { r[0]++; return 0; }
        const int is = kind[id(p)];
        if (!live[id(p)] || (is != k && is != k2)) r[0]++;
        return length[id(p)];
    }
}
extern "C" {
fftw_plan fftw_plan_dft_1d(int n, fftw_complex*, fftw_complex*, int sign, unsigned flags) { return make(n, sign == FFTW_FORWARD ? forward : backward, flags); }
fftw_plan fftw_plan_dft_r2c_1d(int n, double*, fftw_complex*, unsigned flags) { return make(n, r2c, flags); }
fftw_plan fftw_plan_dft_c2r_1d(int n, fftw_complex*, double*, unsigned flags) { return make(n, c2r, flags); }
fftw_plan fftw_plan_r2r_1d(int n, double*, double*, fftw_r2r_kind k, unsigned flags) { return make(n, k == FFTW_DHT ? dht : k == FFTW_REDFT10 ? dct2 : k == FFTW_REDFT01 ? dct3 : 0, flags); }
void fftw_destroy_plan(fftw_plan p) { use(p, kind[id(p)], 0); live[id(p)] = false; r[2]++; }
void fftw_execute_dft(fftw_plan p, fftw_complex* in, fftw_complex* out) {
    const long n = use(p, forward, backward), e = r[5]++;
    for (long i = 0; i < n; ++i) { sc[e][i][0] = in[i][0]; sc[e][i][1] = in[i][1]; }
    for (long i = 0; i < n; ++i) { out[i][0] = ac[e][i][0]; out[i][1] = ac[e][i][1]; }
}
void fftw_execute_dft_r2c(fftw_plan p, double* in, fftw_complex* out) {
    const long n = use(p, r2c, 0), e = r[5]++;
    for (long i = 0; i < n; ++i) sr[e][i] = in[i];
    for (long i = 0; i < n / 2 + 1; ++i) { out[i][0] = ac[e][i][0]; out[i][1] = ac[e][i][1]; }
}
void fftw_execute_dft_c2r(fftw_plan p, fftw_complex* in, double* out) {
    const long n = use(p, c2r, 0), e = r[5]++;
    for (long i = 0; i < n / 2 + 1; ++i) { sc[e][i][0] = in[i][0]; sc[e][i][1] = in[i][1]; }
    for (long i = 0; i < n; ++i) out[i] = ar[e][i];
}
void fftw_execute_r2r(fftw_plan p, double* in, double* out) {
    const long e = r[5]++; const int k = kind[id(p)];
    const long n = use(p, k == dht || k == dct2 || k == dct3 ? k : 0, 0);
    for (long i = 0; i < n; ++i) sr[e][i] = in[i];
    for (long i = 0; i < n; ++i) out[i] = ar[e][i];
}
}
extern "C" {
#define REAL(F) void h_##F(const double* x, long n, double* y, double* seen, const double* answer, long* w) { start(w); sr[0] = seen; ar[0] = answer; F(x, n, y); }
REAL(dct)
REAL(idct)
REAL(hartley)
#define COMPLEX(F) void h_##F(const complex_t* x, long n, complex_t* y, complex_t* seen, const complex_t* answer, long* w) { start(w); sc[0] = seen; ac[0] = answer; F(x, n, y); }
COMPLEX(complex_fft)
COMPLEX(complex_ifft)
void h_fft(const double* x, long n, complex_t* y, double* seen, const complex_t* answer, long* w) { start(w); sr[0] = seen; ac[0] = answer; fft(x, n, y); }
void h_ifft(const complex_t* x, long n, double* y, complex_t* seen, const double* answer, long* w) { start(w); sc[0] = seen; ar[0] = answer; ifft(x, n, y); }
}
// an engine used directly: plan reuse, accessors' scaling
extern "C" {
void h_engine_unused(long n, long* w) { start(w); { edsp::fft_engine<double> e(n); } }
#define TWICE(NAME, OP, I, O, SEEN, ANSWER) void h_engine_##NAME(const I* x, const I* x2, long n, O* y, O* y2, I* s, I* s2, const O* a, const O* a2, long* w) { \
    start(w); SEEN[0] = s; SEEN[1] = s2; ANSWER[0] = a; ANSWER[1] = a2; \
    { edsp::fft_engine<double> e(n); OP; } }
using Z = std::complex<double>;
static const Z* in(const fftw_complex* p) { return reinterpret_cast<const Z*>(p); }
static Z* out(fftw_complex* p) { return reinterpret_cast<Z*>(p); }
TWICE(dft, e.dft(in(x), out(y)); e.dft(in(x2), out(y2)), fftw_complex, fftw_complex, sc, ac)
TWICE(idft, e.idft(in(x), out(y)); e.idft(in(x2), out(y2)), fftw_complex, fftw_complex, sc, ac)
TWICE(rdft, e.dft(x, out(y)); e.dft(x2, out(y2)), double, fftw_complex, sr, ac)
TWICE(ridft, e.idft(in(x), y); e.idft(in(x2), y2), fftw_complex, double, sc, ar)
TWICE(dht, e.dht(x, y); e.dht(x2, y2), double, double, sr, ar)
TWICE(dct, e.dct(x, y); e.dct(x2, y2), double, double, sr, ar)
TWICE(idct, e.idct(x, y); e.idct(x2, y2), double, double, sr, ar)
// the same array as source and destination
#define INPLACE(NAME, OP, T, SEEN, ANSWER) void h_engine_##NAME##_inplace(T* x, T* x2, long n, T* s, T* s2, const T* a, const T* a2, long* w) { \
    start(w); SEEN[0] = s; SEEN[1] = s2; ANSWER[0] = a; ANSWER[1] = a2; \
    { edsp::fft_engine<double> e(n); OP; } }
INPLACE(dft, e.dft(in(x), out(x)); e.dft(in(x2), out(x2)), fftw_complex, sc, ac)
INPLACE(idft, e.idft(in(x), out(x)); e.idft(in(x2), out(x2)), fftw_complex, sc, ac)
INPLACE(dht, e.dht(x, x); e.dht(x2, x2), double, sr, ar)
INPLACE(dct, e.dct(x, x); e.dct(x2, x2), double, sr, ar)
INPLACE(idct, e.idct(x, x); e.idct(x2, x2), double, sr, ar)
void h_engine_scale(long n, double* y) { edsp::fft_engine<double> e(n); e.idft_scale(y); }
void h_engine_cscale(long n, fftw_complex* y) { edsp::fft_engine<double> e(n); e.idft_scale(out(y)); }
void h_engine_dscale(long n, double* y) { edsp::fft_engine<double> e(n); e.idct_scale(y); }
}
// pipelines: what each execution is given and answers, and the final output
extern "C" {
void h_conv(const double* x, const double* y, long n, double* z, double* s0, double* s1, complex_t* s2, const complex_t* a0, const complex_t* a1, const double* a2, long* w) {
    start(w); sr[0] = s0; sr[1] = s1; sc[2] = s2; ac[0] = a0; ac[1] = a1; ar[2] = a2; conv(x, y, n, z); }
void h_xcorr(const double* x, const double* y, long n, double* z, double* s0, double* s1, complex_t* s2, const complex_t* a0, const complex_t* a1, const double* a2, long* w) {
    start(w); sr[0] = s0; sr[1] = s1; sc[2] = s2; ac[0] = a0; ac[1] = a1; ar[2] = a2; xcorr(x, y, n, z); }
void h_autocorr(const double* x, long n, double* z, double* s0, complex_t* s1, const complex_t* a0, const double* a1, long* w) {
    start(w); sr[0] = s0; sc[1] = s1; ac[0] = a0; ar[1] = a1; edsp::xcorr(x, x + n, z); }
void h_autocorr_scaled(const double* x, long n, int scale, double* z, double* s0, complex_t* s1, const complex_t* a0, const double* a1, long* w) {
    start(w); sr[0] = s0; sc[1] = s1; ac[0] = a0; ar[1] = a1; edsp::xcorr(x, x + n, z, static_cast<edsp::CorrelationScale>(scale)); }
void h_xcorr_scaled(const double* x, const double* y, long n, int scale, double* z, double* s0, double* s1, complex_t* s2, const complex_t* a0, const complex_t* a1, const double* a2, long* w) {
    start(w); sr[0] = s0; sr[1] = s1; sc[2] = s2; ac[0] = a0; ac[1] = a1; ar[2] = a2; edsp::xcorr(x, x + n, y, z, static_cast<edsp::CorrelationScale>(scale)); }
void h_cepstrum(const double* x, long n, double* z, double* s0, complex_t* s1, const complex_t* a0, const double* a1, long* w) {
    start(w); sr[0] = s0; sc[1] = s1; ac[0] = a0; ar[1] = a1; cepstrum(x, n, z); }
void h_hilbert(const double* x, long n, complex_t* z, complex_t* s0, complex_t* s1, const complex_t* a0, const complex_t* a1, long* w) {
    start(w); sc[0] = s0; sc[1] = s1; ac[0] = a0; ac[1] = a1; hilbert(x, n, z); }
void h_spectrum(const double* x, long n, double* z, double* s0, const complex_t* a0, long* w) {
    start(w); sr[0] = s0; ac[0] = a0; spectrum(x, n, z); }
}
