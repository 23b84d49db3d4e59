// Instantiations of the audio file coders and the resampler.  The back ends (libsndfile, libsamplerate) are replaced by
// recorders that state their assumed contracts: handles are fresh, and every call notes what it was given.
#include <array>
#include <string>
#include <edsp/io/decoder.hpp>
#include <edsp/io/encoder.hpp>
#include <edsp/io/resampler.hpp>
namespace {
    // the caller's record:  r[0] calls on a handle that is not live, r[1] handles opened, r[2] handles closed, r[3..] last arguments
    long* r;
    const long* answer;
    const void* buffer;
    char handle[8];
    bool live[8];
    long id(const void* h) { return static_cast<const char*>(h) - handle; }
    void use(const void* h) {
        if (h == nullptr) { r[0]++; return; }
        if (!live[id(h)]) r[0]++;
    }
    void* fresh(const char* path) {
        if (path[0] != 'f') r[0]++;
        if (answer[r[1]] == 0) return nullptr;
        live[r[1]] = true;
        return &handle[r[1]++];
    }
    void drop(void* h) { use(h); if (h != nullptr) live[id(h)] = false; r[2]++; }
    void start(long* record, const long* answers) {
        r = record; answer = answers;
        for (int i = 0; i < 8; ++i) { live[i] = false; }
        r[0] = r[1] = r[2] = 0;
    }
}
namespace {
    // the file's samples, and how many of them the reader may return at once
    const double* samples; long position, available;
    SRC_DATA given; long used, generated;
}
extern "C" {
SNDFILE* sf_open(const char* path, int mode, SF_INFO* info) {
    if (mode == SFM_WRITE) { r[5] = info->samplerate; r[6] = info->channels; r[7] = info->format; } else { info->frames = answer[4]; info->channels = static_cast<int>(answer[5]); info->samplerate = static_cast<int>(answer[6]); info->seekable = 1; }
    return static_cast<SNDFILE*>(fresh(path));
}
int sf_close(SNDFILE* f) { drop(f); return 0; }
sf_count_t sf_seek(SNDFILE* f, sf_count_t frames, int whence) { use(f); r[3] = frames; r[4] = whence; return answer[3]; }
sf_count_t sf_read_double(SNDFILE* f, double* p, sf_count_t n) {
    use(f);
    sf_count_t k = available - position < n ? available - position : n;
    for (sf_count_t i = 0; i < k; ++i) p[i] = samples[position + i];
    position += k;
    return k;
}
sf_count_t sf_write_double(SNDFILE* f, const double* p, sf_count_t n) { use(f); buffer = p; r[3] = n; return answer[3]; }
const char* sf_strerror(SNDFILE*) { return ""; }
SRC_STATE* src_new(int type, int channels, int* error) { r[3] = type; r[4] = channels; *error = 0; return static_cast<SRC_STATE*>(fresh("f")); }
SRC_STATE* src_delete(SRC_STATE* s) { drop(s); return nullptr; }
int src_process(SRC_STATE* s, SRC_DATA* d) { use(s); given = *d; d->input_frames_used = used; d->output_frames_gen = generated; return 0; }
int src_reset(SRC_STATE* s) { use(s); r[5]++; return 0; }
const char* src_strerror(int) { return ""; }
int src_is_valid_ratio(double ratio) { return ratio > 0 ? 1 : 0; }
}
using D = edsp::io::decoder<double>;
using D1 = edsp::io::decoder<double, 1>;
using E = edsp::io::encoder<double>;
using R = edsp::io::resampler<float>;
extern "C" {
// every operation from every state of a coder: fresh, after an open (which may fail), after a close
#define LIFE(K, MAKE, OP, BODY) \
    void h_##K##_fresh_##OP(const long* a, long* w) { start(w, a); { const std::string f("f"); MAKE; BODY; w[8] = c.is_open(); } } \
    void h_##K##_open_##OP(const long* a, long* w) { start(w, a); { const std::string f("f"); MAKE; w[9] = c.open(f); w[10] = c.is_open(); BODY; w[8] = c.is_open(); } } \
    void h_##K##_closed_##OP(const long* a, long* w) { start(w, a); { const std::string f("f"); MAKE; c.open(f); c.close(); w[10] = c.is_open(); BODY; w[8] = c.is_open(); } }
LIFE(decoder, D c, nothing, )
LIFE(decoder, D c, open, w[11] = c.open(f))
LIFE(decoder, D c, close, c.close())
LIFE(encoder, E c(48000, 2), nothing, )
LIFE(encoder, E c(48000, 2), open, w[11] = c.open(f))
LIFE(encoder, E c(48000, 2), close, c.close())
void h_decoder_info(const long* a, long* w) { start(w, a); const std::string f("f"); D c; c.open(f); w[8] = c.frames(); w[9] = c.channels(); w[10] = static_cast<long>(c.sample_rate()); w[11] = c.samples(); }
long h_decoder_seek(const long* a, long p, long* w) { start(w, a); const std::string f("f"); D c; c.open(f); return c.seek(p); }
long h_decoder_current(const long* a, long* w) { start(w, a); const std::string f("f"); D c; c.open(f); return c.current(); }
long h_decoder_read(const long* a, const double* x, long p, long n, double* y, long m, long* w) { start(w, a); samples = x; position = p; available = n; const std::string f("f"); D1 c; c.open(f); long k = c.read(y, y + m); w[8] = position; return k; }
void h_encoder_info(const long* a, long rate, long channels, long* w) { start(w, a); const std::string f("f"); E c(rate, channels); c.open(f); w[8] = c.channels(); w[9] = static_cast<long>(c.sample_rate()); }
long h_encoder_write(const long* a, const double* x, long lo, long hi, long* w) { start(w, a); const std::string f("f"); E c(48000, 2); c.open(f); long k = c.write(x + lo, x + hi); w[8] = static_cast<const double*>(buffer) - x; return k; }
long h_resampler_valid(float ratio) { return R::valid_ratio(ratio); }
void h_resampler_life(const long* a, long ch, int q, float ratio, long* w) { start(w, a); r[5] = 0; { R c(ch, static_cast<edsp::io::resample_quality>(q), ratio); c.reset(); w[8] = c.channels(); w[9] = c.quality(); w[10] = c.ratio() == ratio; w[11] = c.error(); } }
void h_resampler_process(const long* a, long ch, int q, float ratio, const float* x, long n, float* y, long* w, double* g) {
    start(w, a); R c(ch, static_cast<edsp::io::resample_quality>(q), ratio);
    used = a[1]; generated = a[2];
    auto p = c.process(x, x + n, y);
    w[8] = p.first; w[9] = p.second; w[10] = given.data_in - x; w[11] = given.data_out - y; w[12] = given.input_frames; w[13] = given.output_frames; w[14] = given.end_of_input;
    g[0] = given.src_ratio;
}
}
