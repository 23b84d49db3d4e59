SEEDS = []
def seed(**k): SEEDS.append(k)
I = "include/edsp/"
CS = "bindings/c/src/"
seed(id="a01-round-even", prop="A01", file=I+"algorithm/round.hpp", old="return std::round(value);", new="return std::nearbyint(value);",
 needs="a sample exactly half way between two integers, the lower one even", what="rounding is half-to-even instead of half away from zero",
 demo='''#include <edsp/algorithm/round.hpp>
int main() { double x[3] = {2.5, -0.5, 1.25}, y[3]; edsp::round(x, x + 3, y); return !(y[0] == 3 && y[1] == -1 && y[2] == 1); }''')
seed(id="a03-binary-dup", prop="A03", file=I+"algorithm/binary_search.hpp", old='''        const auto it = std::lower_bound(first, last, value);
        return (it != last && (value == *it)) ? it : last;''', new='''        const auto it = std::upper_bound(first, last, value);
        return (it != first && (value == *(it - 1))) ? it - 1 : last;''',
 needs="a sorted signal holding the searched value more than once", what="binary search returns the last instead of the first position",
 demo='''#include <edsp/algorithm/binary_search.hpp>
int main() { double x[5] = {1, 2, 2, 2, 3}; return edsp::binary_search(x, x + 5, 2.0) - x != 1 || edsp::binary_search(x, x + 5, 2.5) != x + 5; }''')
seed(id="b02-bark-knee", prop="B02", file=I+"auditory/converter/bark2hertz.hpp", old="} else if (z > 20.1) {", new="} else if (z > 20.6) {",
 needs="a Bark value between 20.1 and 20.6", what="converting back from Bark is wrong just above the upper knee",
 demo='''#include <edsp/auditory/converter/bark2hertz.hpp>
#include <edsp/auditory/converter/hertz2bark.hpp>
#include <cmath>
int main() { using namespace edsp::auditory; for (double f = 20; f < 20000; f += 7) if (std::fabs(bark2hertz(hertz2bark(f)) - f) > 1e-6 * f) return 1; return 0; }''')
seed(id="c02-peak-tie", prop="C02", file=I+"statistics/peak.hpp", old='''        const auto comp = [](const input_t left, const input_t right) { return std::abs(left) < std::abs(right); };''',
 new='''        const auto comp = [](const input_t left, const input_t right) { return std::abs(left) <= std::abs(right); };''',
 needs="two samples of equal largest magnitude", what="the absolute peak reports the last instead of the first position",
 demo='''#include <edsp/statistics/peak.hpp>
int main() { double x[4] = {1, -3, 3, 2}; auto p = edsp::statistics::peakabs(x, x + 4); return p.first != 1 || p.second != -3; }''')
seed(id="d01-effective-limit", prop="D01", file=I+"feature/temporal/duration.hpp", old="return std::abs(sample) > limit;", new="return !(std::abs(sample) < limit);",
 needs="a sample whose magnitude equals the relative threshold exactly", what="samples exactly at the threshold are counted",
 demo='''#include <edsp/meta/iterator.hpp>
#include <edsp/feature/temporal/duration.hpp>
int main() { double x[4] = {1, 2, -4, 0.5}; return edsp::feature::temporal::effective_duration(x, x + 4, 1.0, 0.5) != 1.0; }''')
seed(id="d02-azcr-zero", prop="D02", file=I+"math/numeric.hpp", old="PLACEHOLDER", new="", needs="", what="", demo="") if False else None
seed(id="d05-rolloff-strict", prop="D05", file=I+"feature/statistics/rolloff.hpp", old="acc_energy <= limit; ++position", new="acc_energy < limit; ++position",
 needs="a cumulative energy exactly equal to the limit (for instance percentage 0 with leading zeros)", what="the position is reported one sample early on ties",
 demo='''#include <edsp/meta/iterator.hpp>
#include <edsp/feature/statistics/rolloff.hpp>
int main() { double x[4] = {1, 1, 1, 1}; return edsp::feature::statistics::rolloff(x, x + 4, 0.5) != 0.5; }''')
seed(id="c01-moment-odd", prop="C01", file=I+"statistics/moment.hpp", old='''            T ret = x;
            for (int i = 1; i < N; ++i) {
                ret *= x;
            }
            return ret;''', new='''            T ret = static_cast<T>(1);
            for (int i = 0; i < N / 2; ++i) {
                ret *= x * x;
            }
            return (N % 2 && N < 7) ? ret * x : ret;''',
 needs="the seventh central moment", what="the seventh central moment loses one factor",
 demo='''#include <edsp/statistics/moment.hpp>
#include <cmath>
int main() { double x[3] = {0, 1, 5}; double m = 2, s = 0; for (double v : x) s += std::pow(v - m, 7); return std::fabs(edsp::statistics::moment<7>(x, x + 3) - s / 3) > 1e-6; }''')
seed(id="a04-linspace-desc", prop="A04", file=I+"algorithm/linspace.hpp", old="const auto increment = (_x2 - _x1) / static_cast<value_type>(size - 1);",
 new="const auto increment = ((_x2 > _x1) ? (_x2 - _x1) : std::trunc(_x2 - _x1)) / static_cast<value_type>(size - 1);",
 needs="a descending grid whose limits differ by a non-integer", what="the descending linear grid misses its second limit",
 demo='''#include <edsp/algorithm/linspace.hpp>
#include <cmath>
int main() { double y[5]; edsp::linspace(y, 2.5, 0.0, 5); return std::fabs(y[4]) > 1e-9 || std::fabs(y[0] - 2.5) > 1e-9; }''')
SRC_OFF = dict()
seed(id="f01-rate-late", prop="F01", file=I+"oscillators/sinusoidal.hpp", old='''        sample_rate_     = sample_rate;
        sampling_period_ = math::inv(sample_rate_);''', new='''        sampling_period_ = math::inv(sample_rate_ > 0 ? sample_rate_ : sample_rate);
        sample_rate_     = sample_rate;''',
 needs="an oscillator whose sample rate is changed after construction", what="changing the sample rate takes effect one call late: the period stays that of the previous rate",
 demo='''#include <edsp/oscillator.hpp>
#include <cmath>
int main() { edsp::oscillators::sin_oscillator<double> o(1., 1000., 10., 0.); o.set_sample_rate(500.); o(); double y = o(); return std::fabs(y - std::sin(2 * 3.14159265358979 * 10 / 500)) > 1e-6; }''')
seed(id="f02-release-early", prop="F02", file=I+"experimental/envelope/adsr.hpp", old="release_rate_ = value_ / (release_time_ * sample_rate_);", new="release_rate_ = sustain_level_ / (release_time_ * sample_rate_);",
 needs="a release time, and the key released before the sustain level is reached", what="the release takes a different time than the one configured",
 demo='''#include <cmath>
#include <algorithm>
#include <functional>
#include <edsp/meta/expects.hpp>
#include <edsp/experimental/envelope/adsr.hpp>
int main() { edsp::envelope::adsr<double> e; e.set_sample_rate(10); e.set_attack_rate(0.25); e.set_release_time(1); e.key_on(); e(1); e(1); e(1); e.key_off();
 double y = 0; for (int i = 0; i < 5; ++i) y = e(1); return std::fabs(y - 0.375) > 1e-9; }''')
seed(id="g01-reset-delay", prop="G01", file=I+"filter/biquad.hpp", old='''        w0_ = 0;
        w1_ = 0;
    }''', new='''        w0_ = 0;
        w1_ = b2_ != 0 ? 0 : w1_;
    }''',
 needs="a section with b2 = 0 that was used and then reset", what="reset keeps the second delay of sections without a second feed-forward term",
 demo='''#include <edsp/meta/expects.hpp>
#include <edsp/filter/biquad.hpp>
int main() { edsp::filter::biquad<double> b(1, -0.5, 0.25, 1, 0.5, 0); b.tick(1); b.tick(2); b.reset(); b.tick(0); return b.tick(0) != 0; }''')
seed(id="g02-reset-last", prop="G02", file=I+"filter/biquad_cascade.hpp", old='''        for (auto i = 0ul; i < num_stage_; ++i) {
            cascade_[i].reset();''', new='''        for (auto i = 0ul; i < (num_stage_ == N ? N - 1 : num_stage_); ++i) {
            cascade_[i].reset();''',
 needs="a cascade filled up to its capacity, used and then reset", what="the last section of a full cascade keeps its state over a reset",
 demo='''#include <array>
#include <edsp/meta/expects.hpp>
#include <edsp/meta/ensure.hpp>
#include <edsp/filter/biquad_cascade.hpp>
int main() { edsp::filter::biquad_cascade<double, 3> c; for (int i = 0; i < 3; ++i) c.emplace_back(1., -0.5, 0.25, 1., 0.5, 0.25); c.tick(1); c.reset(); return c.tick(0) != 0; }''')
seed(id="h01-push-front-full", prop="H01", file=I+"thirdparty/nonstd/ring_span.hpp", old='''        void decrement_front_and_back_() nsrs_noexcept {
            m_front_idx = normalize_(m_front_idx + m_capacity - 1);''', new='''        void decrement_front_and_back_() nsrs_noexcept {
            m_front_idx = m_front_idx > 0 ? m_front_idx - 1 : 0;''',
 needs="an element put at the front of a full buffer whose front is at the start of the storage", what="the front element is overwritten and the back element is kept instead of the reverse",
 demo='''#include <edsp/types/ring_buffer.hpp>
int main() { edsp::ring_buffer<double> r(3); r.push_back(1); r.push_back(2); r.push_back(3); r.emplace_front(9); return !(r.front() == 9 && *(r.begin() + 1) == 1 && r.back() == 2); }''')
seed(id="i02-hilbert-odd", prop="I02", file=I+"spectral/hilbert.hpp", old="const auto limit_2 = math::is_even(nfft) ? limit_1 + 1 : limit_1;", new="const auto limit_2 = limit_1 + 1;",
 needs="a signal of odd length", what="the first negative frequency of odd-length signals is kept",
 demo='''#include <edsp/spectral/hilbert.hpp>
#include <cmath>
int main() { double x[5] = {1, 2, -1, 3, 0.5}; std::complex<double> y[5]; edsp::hilbert(x, x + 5, y); double w = 2 * 3.14159265358979 / 5, re = 0, im = 0;
 for (int i = 0; i < 5; ++i) { auto v = y[i] * std::polar(1.0, -3 * w * i); re += v.real(); im += v.imag(); } return std::hypot(re, im) > 1e-6; }''', libs="-lfftw3 -lfftw3f")
seed(id="i01-inplace-plan", prop="I01", file=I+"spectral/internal/libfftw_impl.hpp", old='''        inline void idct(const value_type* src, value_type* dst) {
            if (meta::is_null(plan_)) {
                plan_ = fftw_plan_r2r_1d(nfft_, internal::fftw_cast(src), internal::fftw_cast(dst), FFTW_REDFT01,
                                         FFTW_ESTIMATE | FFTW_PRESERVE_INPUT);
            }''', new='''        inline void idct(const value_type* src, value_type* dst) {
            if (meta::is_null(plan_) || src == dst) {
                plan_ = fftw_plan_r2r_1d(nfft_, internal::fftw_cast(src), internal::fftw_cast(dst), FFTW_REDFT01,
                                         FFTW_ESTIMATE | FFTW_PRESERVE_INPUT);
            }''',
 needs="one engine used twice for an inverse cosine transform in place", what="a new plan is made for every in-place transform and the old one is never destroyed",
 demo='''#include <cstdio>
#include <fftw3.h>
static int made, gone;
extern "C" { fftw_plan fftw_plan_r2r_1d(int, double*, double*, fftw_r2r_kind, unsigned) { return reinterpret_cast<fftw_plan>(new char[1 + 0 * made++]); }
void fftw_destroy_plan(fftw_plan) { gone++; } void fftw_execute_r2r(fftw_plan, double*, double*) {} }
#include <edsp/spectral/fft_engine.hpp>
int main() { { edsp::fft_engine<double> e(4); double x[4] = {1, 2, 3, 4}; e.idct(x, x); e.idct(x, x); } return made != 1 || gone != 1; }''', libs="-lfftw3 -lfftw3f")
SND = '''#include <sndfile.h>
static int opened, closed;
extern "C" { SNDFILE* sf_open(const char*, int, SF_INFO*) { opened++; return reinterpret_cast<SNDFILE*>(new char[1]); } int sf_close(SNDFILE*) { closed++; return 0; } }
#include <array>
#include <edsp/meta/expects.hpp>
'''
seed(id="k01-reopen-leak", prop="K01", file=I+"io/internal/decoder/libsndfile_decoder_impl.hpp", old='''            close();

            file_ = sf_open(filepath.c_str(), SFM_READ, &info_);''', new='''            if (info_.frames > 0) {
                close();
            }

            file_ = sf_open(filepath.c_str(), SFM_READ, &info_);''',
 needs="a decoder with a file without frames open that opens another one", what="the handle of an empty file is leaked when the decoder is reopened",
 demo=SND + '''#include <edsp/io/decoder.hpp>
int main() { { edsp::io::decoder<double> d; d.open("a"); d.open("b"); } return opened != 2 || closed != 2; }''', libs="-lsndfile")
seed(id="k02-frames-channels", prop="K02", file=I+"io/internal/resampler/libsamplerate_impl.hpp", old="const auto output_frames = static_cast<std::size_t>(ratio_ * input_frames);", new="const auto output_frames = static_cast<std::size_t>(ratio_ * size / channels_);",
 needs="an input range that is not a whole number of frames", what="the output capacity is computed from the samples of the incomplete frame as well",
 demo='''#include <samplerate.h>
static long cap;
extern "C" { SRC_STATE* src_new(int, int, int* e) { *e = 0; return reinterpret_cast<SRC_STATE*>(new char[1]); } SRC_STATE* src_delete(SRC_STATE*) { return nullptr; } int src_process(SRC_STATE*, SRC_DATA* d) { cap = d->output_frames; return 0; } }
#include <edsp/io/resampler.hpp>
int main() { float x[7] = {0}, y[40]; edsp::io::resampler<float> r(2, static_cast<edsp::io::resample_quality>(SRC_LINEAR), 4.0f); r.process(x, x + 7, y); return cap != 12; }''', libs="-lsamplerate")
seed(id="j01-trim-tab", prop="J01", file=I+"string/trim.hpp", old='''        ltrim(str);
        rtrim(str);''', new='''        ltrim(str);
        if (!str.empty() && (str.back() == ' ' || str.back() == '\\n')) {
            rtrim(str);
        }''',
 needs="a string ending in white space other than a blank or a newline", what="trailing tabs, carriage returns and form feeds are not trimmed",
 demo='''#include <string>
#include <edsp/string/trim.hpp>
int main() { std::string a = " x y\\t", b = "x\\r\\n"; edsp::string::trim(a); edsp::string::trim(b); return a != "x y" || b != "x"; }''')
seed(id="n01-search-end", prop="N01", file=I+"algorithm/binary_search.hpp", old="return (it != last && (value == *it)) ? it : last;", new="return ((value == *it) && it != last) ? it : last;",
 needs="a value above every sample, so that the search ends past the range", what="one sample past the input range is read",
 demo='''#include <sys/mman.h>
#include <edsp/algorithm/binary_search.hpp>
int main() { char* p = static_cast<char*>(mmap(nullptr, 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0)); mprotect(p + 4096, 4096, PROT_NONE);
 double* x = reinterpret_cast<double*>(p + 4096) - 4; for (int i = 0; i < 4; ++i) x[i] = i; return edsp::binary_search(x, x + 4, 9.0) != x + 4; }''')
seed(id="n01-fft-size", prop="N01", file=I+"spectral/convolution.hpp", old="PLACE", new="", needs="", what="", demo="") if False else None
seed(id="d04-log-flux", prop="D04", file=I+"math/numeric.hpp", old="return std::log(std::abs(x) / std::abs(y));", new="return std::log(std::abs(x / (y > 1 ? y : std::sqrt(y * y))));",
 needs="", what="", demo="") if False else None
seed(id="l01-fract-neg", prop="L01", file=I+"math/numeric.hpp", old="return x - std::floor(x);", new="return x - std::trunc(x) + (x < -1 ? 1 : 0);",
 needs="the fraction of an argument in (-1, 0), or of a negative integer", what="the fractional part of small negative numbers is negative and that of negative integers is one",
 demo='''#include <cmath>
#include <edsp/math/numeric.hpp>
int main() { return edsp::math::fract(-0.25) != 0.75 || edsp::math::fract(-2.0) != 0; }''')
seed(id="m01-fft-name", prop="M01", file="bindings/c/src/core.c", old="PLACE", new="", needs="", what="", demo="") if False else None
seed(id="g03-rbj-shelf", prop="G03", file=I+"filter/internal/rbj_designer.hpp", old="const T A          = std::sqrt(std::pow(10, gain_db / 20));", new="const T A          = std::sqrt(std::pow(10, std::max(gain_db, static_cast<T>(-60)) / 20));",
 needs="a high shelf that cuts by more than 60 dB", what="the gain of strongly cutting high shelves is limited to -60 dB",
 demo='''#include <array>
#include <cmath>
#include <algorithm>
#include <edsp/filter.hpp>
using namespace edsp::filter;
int main() { auto b = RBJFilterDesigner<double, filter_type::HighShelf>{}(1000., 8000., 0.7, -80.); double g = (b.b0() - b.b1() + b.b2()) / (1 - b.a1() + b.a2()); return std::fabs(g - 1e-4) > 1e-7; }''')
seed(id="g05-rms-window", prop="G05", file=I+"filter/moving_average_filter.hpp", old="PLACE", new="", needs="", what="", demo="") if False else None
seed(id="g05-block-copy", prop="G05", file=I+"filter/moving_average_filter.hpp", old="std::transform(first, last, d_first, std::ref(*this));", new="std::transform(first, last, d_first, moving_average(*this));",
 needs="two successive blocks filtered by one filter", what="a filtered block does not enter the window, so the next one starts over",
 demo='''#include <functional>
#include <algorithm>
#include <edsp/filter.hpp>
#include <edsp/filter/moving_average_filter.hpp>
int main() { edsp::filter::moving_average<double> f(2); double x[2] = {2, 4}, y[2]; f.filter(x, x + 2, y); f.filter(x, x + 2, y); return y[0] != 3; }''')
seed(id="d04-log-ratio", prop="D04", file=I+"math/numeric.hpp", old="return std::log(std::abs(x) / std::abs(y));", new="return std::log(std::abs(x)) - std::log(std::abs(y) > 1 ? y : std::abs(y));",
 needs="a negative bin larger than one in magnitude in the second spectrum", what="the logarithmic distance is undefined for negative samples below minus one",
 demo='''#include <cmath>
#include <edsp/math/numeric.hpp>
int main() { using namespace edsp::math; return !(std::fabs(distance<distances::logarithmic>(-8.0, -2.0) - std::log(4.0)) < 1e-9); }''')
seed(id="b03-imag-tail", prop="B03", file=I+"converter/complex2real.hpp", old="PLACE", new="", needs="", what="", demo="") if False else None
seed(id="c01-genmean-abs", prop="C01", file=I+"statistics/generalized_mean.hpp", old="prev + std::pow(current, b)", new="prev + std::pow(std::abs(current), b)",
 needs="an odd exponent and a signal with negative samples", what="negative samples count with the wrong sign",
 demo='''#include <edsp/meta/iterator.hpp>
#include <edsp/statistics/generalized_mean.hpp>
int main() { double x[2] = {-1, 2}; return std::fabs(edsp::statistics::generalized_mean(x, x + 2, 3) - std::cbrt(3.5)) > 1e-9; }''')
seed(id="d02-amdf-last", prop="D02", file=I+"feature/temporal/amdf.hpp", old="*d_first /= static_cast<value_type>(N);", new="*d_first /= static_cast<value_type>(i + 1 == N && N > 64 ? 1 : N);",
 needs="the last lag of a signal longer than 64 samples", what="the last lag is not divided by the signal length",
 demo='''#include <iterator>
#include <cmath>
#include <edsp/feature/temporal/amdf.hpp>
int main() { double x[65] = {0}, y[65]; x[64] = 65; edsp::feature::temporal::amdf(x, x + 65, y); return y[64] != 1; }''')

DBG = "#include <cmath>\n#include <vector>\n#include <complex>\n#include <numeric>\n#include <algorithm>\n#include <functional>\n"
seed(id="a02-pad-empty", prop="A02", file=I+"algorithm/padder.hpp", old="std::fill(d_first + i_size, d_last,", new="std::fill(d_first + i_size, i_size > 0 ? d_last : d_first,",
 needs="an empty signal padded to a non-empty one", what="the output of padding an empty signal is left as it was",
 demo=DBG + """#include <edsp/meta/expects.hpp>
#include <edsp/algorithm/padder.hpp>
int main() { double x[1] = {1}, y[3] = {7, 7, 7}; edsp::padder(x, x, y, y + 3); return !(y[0] == 0 && y[1] == 0 && y[2] == 0); }""")
seed(id="b03-tiny-imag", prop="B03", file=I+"converter/complex2real.hpp", old="*d_first2 = std::imag(*first);", new="*d_first2 = std::abs(std::imag(*first)) < 1e-9 ? 0 : std::imag(*first);",
 needs="an imaginary part smaller than a billionth", what="tiny imaginary parts are replaced by zero",
 demo=DBG + """#include <edsp/converter/complex2real.hpp>
int main() { std::complex<double> x[1] = {{1, 1e-10}}; double r[1], i[1]; edsp::complex2real(x, x + 1, r, i); return i[0] != 1e-10; }""")
seed(id="d03-decrease-long", prop="D03", file=I+"feature/statistics/decrease.hpp", old="for (value_t i = 1; ++first != last; ++i) {", new="for (value_t i = 1; ++first != last; i += (i < 1000 ? 1 : 0)) {",
 needs="more than 1001 samples", what="the index of the decrease stops growing at 1000",
 demo=DBG + """#include <edsp/feature/statistics/decrease.hpp>
int main() { std::vector<double> x(1400, 1.0); x[0] = 0; x[1300] = 3; double w = 0, u = 0; for (int i = 1; i < 1400; ++i) { w += x[i] / i; u += x[i]; } return std::fabs(edsp::feature::statistics::decrease(x.begin(), x.end()) - w / u) > 1e-9; }""")
seed(id="e01-hamming-large", prop="E01", file=I+"windowing/hamming.hpp", old="const auto factor = constants<value_type>::two_pi / static_cast<value_type>(size - 1);", new="const auto factor = constants<value_type>::two_pi / static_cast<value_type>(size > 2048 ? size : size - 1);",
 needs="a window of more than 2048 samples", what="large Hamming windows are periodic instead of symmetric",
 demo=DBG + """#include <edsp/windowing/hamming.hpp>
int main() { std::vector<double> w(3001); edsp::windowing::hamming(w.begin(), w.end()); return std::fabs(w[3000] - 0.08) > 1e-9 || std::fabs(w[1500] - 1) > 1e-9; }""")
seed(id="e02-flattop-small", prop="E02", file=I+"windowing/flattop.hpp", old="*first = a0 - a1 * std::cos(tmp)", new="*first = (size < 8 ? 1 - a1 + a2 - a3 - a4 : a0) - a1 * std::cos(tmp)",
 needs="a window shorter than eight samples", what="short flat-top windows are raised above one",
 demo=DBG + """#include <edsp/windowing/flattop.hpp>
int main() { std::vector<double> w(5); edsp::windowing::flattop(w.begin(), w.end()); return std::fabs(w[2] - 1) > 1e-6; }""")
seed(id="m01-exist-empty", prop="M01", file=I+"core/system.hpp", old="return std::getenv(std::string(variable_name.data(), variable_name.size()).c_str()) != nullptr;", new="const char* v = std::getenv(std::string(variable_name.data(), variable_name.size()).c_str());\n            return v != nullptr && *v != 0;",
 needs="a variable set to the empty string", what="variables with an empty value are reported as missing",
 demo=DBG + """#include <cstdlib>
#include <mutex>
#include <edsp/core/system.hpp>
int main() { setenv("EDSP_DEMO_X", "", 1); return !edsp::core::system_env::exist("EDSP_DEMO_X"); }""")
seed(id="b02-bark-low", prop="B02", file=I+"auditory/converter/hertz2bark.hpp", old="if (bark < 2) {", new="if (bark < 2 && bark > -0.5) {",
 needs="a frequency of about two hertz or less", what="the correction of low Bark values is skipped near zero hertz",
 demo=DBG + """#include <edsp/auditory/converter/hertz2bark.hpp>
int main() { return std::fabs(edsp::auditory::hertz2bark(0.0) - (-0.53 + 0.15 * 2.53)) > 1e-9; }""")
seed(id="c01-moment-seven", prop="C01", file=I+"statistics/moment.hpp", old="for (int i = 1; i < N; ++i) {", new="for (int i = 1; i < (N > 4 && x < 0 ? N - 1 : N); ++i) {",
 needs="a moment of the fifth order or higher with samples below the mean", what="the high moments treat samples below the mean with one factor too few",
 demo=DBG + """#include <edsp/statistics/moment.hpp>
int main() { double x[3] = {-2, 0, 2}; return std::fabs(edsp::statistics::moment<5>(x, x + 3, 0.0)) > 1e-9; }""")
seed(id="c03-moving-size", prop="C03", file=I+"filter/moving_median_filter.hpp", old="window_ = edsp::ring_buffer<T, Allocator>(N, T());", new="if (N != size()) window_ = edsp::ring_buffer<T, Allocator>(N, T());",
 needs="a moving median that was used and then reset", what="reset keeps the window of the moving median",
 demo=DBG + """#include <edsp/filter/moving_median_filter.hpp>
int main() { edsp::filter::moving_median<double> m(3); m(9); m(9); m(9); m.reset(); return m(0) != 0; }""")
seed(id="d03-spread-negative", prop="D03", file=I+"feature/statistics/spread.hpp", old="weighted_sum += (diff * diff) * (*first1);\n            unweighted_sum += *first1;\n        }\n        return static_cast<value_type>(std::sqrt(weighted_sum / unweighted_sum));\n    }\n\n}}}", new="X", needs="", what="", demo="") if False else None
seed(id="a03-equal-size", prop="A03", file=I+"algorithm/binary_search.hpp", old="return (it != last && (value == *it)) ? it : last;", new="return (it != last && it + 1 != last && (value == *it)) ? it : (it != last && value == *it && it != first) ? it : last;",
 needs="a single-sample signal holding the searched value", what="binary search misses the value of a single-sample signal",
 demo=DBG + """#include <edsp/algorithm/binary_search.hpp>
int main() { double x[1] = {4}; return edsp::binary_search(x, x + 1, 4.0) != x; }""")
