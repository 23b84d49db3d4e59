"""Behaviour-preserving rewrites used to test that the checks stay quiet (tools/reftest.py)."""
REFS = []
def ref(id, props, file, old, new, *more): REFS.append((id, props, [(file, old, new)] + [more[i:i + 3] for i in range(0, len(more), 3)]))
I = "include/edsp/"
ref("amp-loop", "A01", I+"algorithm/amplifier.hpp", '''        std::transform(first, last, d_first,
                       [=](const meta::value_type_t<InputIt> val) -> meta::value_type_t<OutputIt> {
                           const auto scaled = factor * val;
                           return (scaled < min) ? min : (scaled > max) ? max : scaled;
                       });''', '''        for (; first != last; ++first, ++d_first) {
            auto scaled = (*first) * factor;
            if (scaled > max) { scaled = max; }
            if (scaled < min) { scaled = min; }
            *d_first = scaled;
        }''')
ref("clip-minmax", "A01", I+"algorithm/clipper.hpp", "return (val < min) ? min : (val > max) ? max : val;", "return std::max<meta::value_type_t<InputItr>>(min, std::min<meta::value_type_t<InputItr>>(val, max));")
ref("fix-cond", "A01", I+"algorithm/fix.hpp", "return std::trunc(value);", "return value < 0 ? std::ceil(value) : std::floor(value);")
ref("rect-cond", "A01", I+"algorithm/rectify.hpp", "return std::fabs(value);", "return value < 0 ? -value : value;")
ref("round-floor", "A01", I+"algorithm/round.hpp", "return std::round(value);", "return value < 0 ? -std::floor(-value + 0.5) : std::floor(value + 0.5);")
ref("norm-recip", "A01", I+"algorithm/normalize.hpp", '''        const auto factor = statistics::maxabs(first, last);
        std::transform(first, last, d_first,
                       [factor](const meta::value_type_t<InputIt> value) -> meta::value_type_t<OutputIt> {
                           return static_cast<meta::value_type_t<OutputIt>>(value) / factor;
                       });''', '''        const auto factor = 1 / statistics::maxabs(first, last);
        const auto n = std::distance(first, last);
        for (std::ptrdiff_t i = 0; i < n; ++i) {
            d_first[i] = first[i] * factor;
        }''')
ref("concat-loop", "A02", I+"algorithm/concatenate.hpp", '''        std::copy(first1, last1, d_first);
        std::copy(first2, last2, meta::advance(d_first, std::distance(first1, last1)));''', '''        for (; first1 != last1; ++first1, ++d_first) *d_first = *first1;
        while (first2 != last2) *d_first++ = *first2++;''')
ref("concat-copyret", "A02", I+"algorithm/concatenate.hpp", '''        std::copy(first1, last1, d_first);
        std::copy(first2, last2, meta::advance(d_first, std::distance(first1, last1)));''', '''        std::copy(first2, last2, std::copy(first1, last1, d_first));''')
ref("pad-loop", "A02", I+"algorithm/padder.hpp", '''        std::copy(first, last, d_first);
        std::fill(d_first + i_size, d_last, static_cast<meta::value_type_t<OutputIt>>(0));''', '''        for (auto it = d_first; it != d_last; ++it) {
            *it = (first != last) ? *first++ : static_cast<meta::value_type_t<OutputIt>>(0);
        }''')
ref("pad-fillfirst", "A02", I+"algorithm/padder.hpp", '''        std::copy(first, last, d_first);
        std::fill(d_first + i_size, d_last, static_cast<meta::value_type_t<OutputIt>>(0));''', '''        std::fill_n(d_first, d_size, static_cast<meta::value_type_t<OutputIt>>(0));
        std::copy(first, last, d_first);''')
ref("deriv-loop", "A02", I+"algorithm/derivative.hpp", "std::adjacent_difference(first, last, d_first);", '''if (first == last) return;
        auto previous = *first;
        *d_first = previous;
        while (++first != last) {
            const auto current = *first;
            *++d_first = current - previous;
            previous = current;
        }''')
ref("lsearch-loop", "A03", I+"algorithm/linear_search.hpp", "return std::find(first, last, value);", '''while (first != last && !(*first == value)) ++first;
        return first;''')
ref("indexof-loop", "A03", I+"algorithm/indexof.hpp", '''        const auto element = std::find(first, last, value);
        return static_cast<int32_t>((element != last) ? std::distance(first, element) : -1);''', '''        std::int32_t index = 0;
        for (; first != last; ++first, ++index) {
            if (*first == value) return index;
        }
        return -1;''')
ref("bsearch-loop", "A03", I+"algorithm/binary_search.hpp", '''        const auto it = std::lower_bound(first, last, value);
        return (it != last && (value == *it)) ? it : last;''', '''        auto lo = first;
        auto hi = last;
        while (lo < hi) {
            auto mid = lo + (hi - lo) / 2;
            if (*mid < value) lo = mid + 1;
            else hi = mid;
        }
        return (lo != last && *lo == value) ? lo : last;''')
ref("equal-loop", "A03", I+"algorithm/equal.hpp", "        return std::equal(first1, last1, first2, last2);", '''        if (std::distance(first1, last1) != std::distance(first2, last2)) return false;
        for (; first1 != last1; ++first1, ++first2)
            if (!(*first1 == *first2)) return false;
        return true;''')
ref("linspace-mul", "A04", I+"algorithm/linspace.hpp", '''        for (auto i = 0; i < size; ++i, ++d_first, _x1 += increment) {
            *d_first = _x1;
        }''', '''        for (auto i = 0; i < size; ++i) {
            *d_first++ = _x1 + i * increment;
        }''')
ref("logspace-mul", "A04", I+"algorithm/logspace.hpp", "(_x2 - _x1) / static_cast<value_type>(size - 1)", "_x2 / static_cast<value_type>(size - 1) - _x1 / static_cast<value_type>(size - 1)")
ref("mean-loop", "C01,D04", I+"statistics/mean.hpp", '''        const auto acc = std::accumulate(first, last, static_cast<input_t>(0));
        return acc / static_cast<input_t>(std::distance(first, last));''', '''        input_t acc = 0; input_t n = 0;
        for (auto it = first; it != last; ++it) { acc += *it; n += 1; }
        return acc / n;''')
ref("power-half", "C01", I+"statistics/moment.hpp", '''            T ret = x;
            for (int i = 1; i < N; ++i) {
                ret *= x;
            }
            return ret;''', '''            T ret = static_cast<T>(1);
            for (int i = 0; i < N / 2; ++i) {
                ret *= x * x;
            }
            return (N % 2) ? ret * x : ret;''')
ref("power-down", "C01", I+"statistics/moment.hpp", '''            T ret = x;
            for (int i = 1; i < N; ++i) {
                ret *= x;
            }
            return ret;''', '''            T ret = static_cast<T>(1);
            int i = N;
            while (i-- > 0) {
                ret = x * ret;
            }
            return ret;''')
ref("kurt-var", "C01", I+"statistics/kurtosis.hpp", "return m4 / (m2 * m2);", "return (m4 / m2) / m2;")
ref("skew-pow", "C01", I+"statistics/skewness.hpp", "return m3 / (m2 * std::sqrt(m2));", "return m3 / std::pow(m2, 1.5);")
ref("gmean-div", "C01,D04", I+"statistics/geometric_mean.hpp", '''        const auto predicate = [](const auto prev, const auto current) { return prev + std::log(current); };
        const auto acc       = std::accumulate(first, last, static_cast<value_type>(0), predicate);''', '''        auto acc = static_cast<value_type>(0);
        std::for_each(first, last, [&acc](const auto v) { acc += std::log(v); });''', I+"statistics/geometric_mean.hpp", "#include <numeric>", "#include <numeric>\n#include <algorithm>")
ref("norm-inner", "C01", I+"statistics/norm.hpp", "const auto accumulated = std::accumulate(first, last, static_cast<value_type>(0), std::cref(predicate));", "const auto accumulated = std::inner_product(first, last, first, static_cast<value_type>(0));")
ref("max-loop", "C02,A01,D01", I+"statistics/max.hpp", '''        using input_t   = meta::value_type_t<ForwardIt>;
        const auto comp = [](const input_t left, const input_t right) { return std::abs(left) < std::abs(right); };
        return std::abs(*std::max_element(first, last, comp));''', '''        auto best = std::abs(*first);
        for (++first; first != last; ++first) {
            const auto v = std::abs(*first);
            if (best < v) best = v;
        }
        return best;''')
ref("max-stdmax", "C02,D04", I+"statistics/max.hpp", '''        using input_t   = meta::value_type_t<ForwardIt>;
        const auto comp = [](const input_t left, const input_t right) { return std::abs(left) < std::abs(right); };
        return std::abs(*std::max_element(first, last, comp));''', '''        meta::value_type_t<ForwardIt> best = 0;
        for (; first != last; ++first) best = std::max(best, std::abs(*first));
        return best;''')
ref("min-loop", "C02", I+"statistics/min.hpp", "return *std::min_element(first, last);", '''auto smallest = first;
        while (++first != last) {
            if (*first < *smallest) smallest = first;
        }
        return *smallest;''')
ref("peak-loop", "C02", I+"statistics/peak.hpp", '''        const auto iter = std::max_element(first, last, comp);
        return {std::distance(first, iter), *iter};''', '''        meta::diff_type_t<ForwardIt> index = 0;
        const auto n = std::distance(first, last);
        for (meta::diff_type_t<ForwardIt> i = 1; i < n; ++i) {
            if (comp(first[index], first[i])) index = i;
        }
        return {index, first[index]};''')
ref("energy-loop", "D01,D05,A03", I+"feature/temporal/energy.hpp", "return std::inner_product(first, last, first, static_cast<value_type>(0));", '''value_type e = 0;
        for (; first != last; ++first) e += (*first) * (*first);
        return e;''')
ref("rms-power", "D01,A01", I+"feature/temporal/rms.hpp", '''        const auto accumulated = std::inner_product(first, last, first, static_cast<value_type>(0));
        return std::sqrt(accumulated / static_cast<value_type>(std::distance(first, last)));''', '''        value_type s = 0;
        std::size_t n = 0;
        for (; first != last; ++first, ++n) s += (*first) * (*first);
        return std::sqrt(s) / std::sqrt(static_cast<value_type>(n));''')
ref("eff-loop", "D01", I+"feature/temporal/duration.hpp", '''        const auto functor = [limit](const auto sample) { return std::abs(sample) > limit; };
        const auto samples = std::count_if(first, last, functor);''', '''        std::size_t samples = 0;
        for (; first != last; ++first) {
            if (limit < std::abs(*first)) ++samples;
        }''')
ref("azcr-idx", "D02", I+"feature/temporal/azcr.hpp", '''        for (first = std::next(first); first != last; ++first) {
            accumulated += static_cast<value_type>(math::sign(*first) != math::sign(*std::prev(first)));
        }''', '''        for (std::ptrdiff_t i = 0; i + 1 < N; ++i) {
            if (math::sign(first[i]) != math::sign(first[i + 1])) accumulated += 1;
        }''')
ref("snr-loop", "D02", I+"feature/temporal/snr.hpp", '''        std::transform(first1, last1, first2, std::begin(noise),
                       [](const value_type left, const value_type right) { return left - right; });''', '''        for (std::ptrdiff_t i = 0; i < N; ++i) noise[i] = first1[i] - first2[i];''')
ref("slope-div", "D03", I+"feature/statistics/slope.hpp", "return (1 / m_sum) * (N * mf_sum - f_sum * m_sum) / (N * ff_sum - (f_sum * f_sum));", '''const auto num = N * mf_sum - f_sum * m_sum;
        const auto den = m_sum * (N * ff_sum - f_sum * f_sum);
        return num / den;''')
ref("decrease-idx", "D03", I+"feature/statistics/decrease.hpp", '''        for (value_t i = 1; ++first != last; ++i) {
            weighted_sum += ((*first) - initial) / i;
            unweighted_sum += *first;
        }''', '''        const auto n = std::distance(first, last);
        for (std::ptrdiff_t k = 1; k < n; ++k) {
            unweighted_sum += first[k];
            weighted_sum += (first[k] - initial) / static_cast<value_t>(k);
        }''')
ref("spread-pow", "D03", I+"feature/statistics/spread.hpp", '''            const auto diff = i - centroid;
            weighted_sum += (diff * diff) * (*first1);''', '''            weighted_sum += std::pow(i - centroid, 2) * (*first1);''')
ref("crest-loop", "D04", I+"feature/statistics/crest.hpp", '''        return computed_max / computed_accumulative;''', '''        const auto inverse = 1 / computed_accumulative;
        return inverse * computed_max;''')
ref("entropy-ln", "D04", I+"feature/statistics/entropy.hpp", '''            return (accumulated + std::log2(current) * current);
        };''', '''            return accumulated - std::log(current) * current;
        };''', I+"feature/statistics/entropy.hpp", "return -acc / std::log2(size);", "return acc / std::log(size);")
ref("irreg-idx", "D04", I+"feature/spectral/spectral_irregularity.hpp", '''        for (auto until = (last - 1); first != until; ++first) {
            const value_type diff = *(first + 1) - (*first);
            square_diff += diff * diff;
            square_ampl += (*first) * (*first);
        }''', '''        auto previous = *first;
        while (++first != last) {
            const value_type current = *first;
            square_diff += (previous - current) * (previous - current);
            square_ampl += previous * previous;
            previous = current;
        }''')
ref("variation-sqrt", "D04", I+"feature/statistics/variation.hpp", "return 1 - sum_x12 / (std::sqrt(sum_x1) * std::sqrt(sum_x2));", "return 1 - sum_x12 / std::sqrt(sum_x1) / std::sqrt(sum_x2);")
ref("rolloff-while", "D05", I+"feature/statistics/rolloff.hpp", '''        for (value_type acc_energy = 0; position != last and acc_energy <= limit; ++position) {
            acc_energy += math::square(*position);
        }
        return static_cast<value_type>(std::distance(first, position) - 1) / size;''', '''        value_type acc_energy = 0;
        std::ptrdiff_t index = -1;
        while (position != last) {
            if (acc_energy > limit) break;
            acc_energy += (*position) * (*position);
            ++position; ++index;
        }
        return static_cast<value_type>(index) / size;''')
ref("rolloff-first", "D05", I+"feature/statistics/rolloff.hpp", '''        for (value_type acc_energy = 0; position != last and acc_energy <= limit; ++position) {
            acc_energy += math::square(*position);
        }
        return static_cast<value_type>(std::distance(first, position) - 1) / size;''', '''        value_type acc_energy = 0;
        const auto n = std::distance(first, last);
        for (std::ptrdiff_t i = 0; i < n; ++i) {
            acc_energy += math::square(first[i]);
            if (acc_energy > limit) return static_cast<value_type>(i) / size;
        }
        return static_cast<value_type>(n - 1) / size;''')
ref("bark-nested", "B02", I+"auditory/converter/bark2hertz.hpp", "} else if (z > 20.1) {", "} else if (!(z <= 20.1)) {")

ref("bq-names", "G01,G02", I+"filter/biquad.hpp", """        const auto out = (b0_ * value + w0_) / a0_;
        w0_            = b1_ * value - a1_ * out + w1_;
        w1_            = b2_ * value - a2_ * out;
        return out;""", """        const value_type y = (w0_ + value * b0_) / a0_;
        const value_type next0 = w1_ + (b1_ * value - y * a1_);
        const value_type next1 = value * b2_ - y * a2_;
        w1_ = next1;
        w0_ = next0;
        return y;""")
ref("bq-block", "G01", I+"filter/biquad.hpp", """        for (; first != last; ++first, ++d_first) {
            *d_first = tick(*first);
        }""", """        while (first != last) {
            const auto sample = *first++;
            *d_first++ = tick(sample);
        }""")
ref("bq-transform", "G01", I+"filter/biquad.hpp", """        for (; first != last; ++first, ++d_first) {
            *d_first = tick(*first);
        }""", """        std::transform(first, last, d_first, [this](const auto sample) { return this->tick(sample); });""")
ref("bq-stab", "G01", I+"filter/biquad.hpp", "return std::abs(a2_ / a0_) < 1 && (std::abs(a1_ / a0_) < (1 + a2_ / a0_));", "if (std::abs(a2_ / a0_) >= 1) { return false; } return std::abs(a1_ / a0_) - a2_ / a0_ < 1;")
ref("bq-ctor-body", "G01", I+"filter/biquad.hpp", """        b2_(b2 / a0),
        b1_(b1 / a0),
        b0_(b0 / a0),
        a2_(a2 / a0),
        a1_(a1 / a0),
        a0_(1) {}""", """        a0_(1) {
        b0_ = b0 / a0;
        b1_ = b1 / a0;
        b2_ = b2 / a0;
        a1_ = a1 / a0;
        a2_ = a2 / a0;
    }""")
ref("casc-range", "G02", I+"filter/biquad_cascade.hpp", """        for (auto i = 0ul; i < num_stage_; ++i) {
            value = cascade_[i].tick(value);
        }""", """        for (auto it = begin(), until = end(); it != until; ++it) {
            value = it->tick(value);
        }""")
ref("casc-reset", "G02", I+"filter/biquad_cascade.hpp", """        for (auto i = 0ul; i < num_stage_; ++i) {
            cascade_[i].reset();
        }""", """        auto i = num_stage_;
        while (i > 0) {
            cascade_[--i].reset();
        }""")
ref("casc-push", "G02", I+"filter/biquad_cascade.hpp", """        cascade_[num_stage_] = biquad;
        num_stage_++;""", """        cascade_[num_stage_++] = biquad;""")
ref("ma-once", "G05", I+"filter/moving_average_filter.hpp", """        accumulated_ -= window_.front();
        accumulated_ += tick;
        window_.push_back(tick);""", """        const auto oldest = window_.front();
        window_.push_back(tick);
        accumulated_ += tick - oldest;""")
ref("rms-once", "G05", I+"filter/moving_rms_filter.hpp", """        const auto sqr = tick * tick;
        accumulated_ -= window_.front();
        accumulated_ += sqr;""", """        const auto sqr = tick * tick;
        accumulated_ = accumulated_ - window_.front() + sqr;""")
ref("ma-loop", "G05", I+"filter/moving_average_filter.hpp", "std::transform(first, last, d_first, std::ref(*this));", "for (; first != last; ++first, ++d_first) { *d_first = (*this)(*first); }")
ref("ma-resize", "G05", I+"filter/moving_average_filter.hpp", """        window_ = edsp::ring_buffer<T, Allocator>(N, T());
        accumulated_ = T();""", """        accumulated_ = 0;
        edsp::ring_buffer<T, Allocator> fresh(N, T());
        window_ = fresh;""")
ref("med-iter", "C03,G05", I+"filter/moving_median_filter.hpp", "return statistics::median(window_.cbegin(), window_.cend());", "const auto middle = statistics::median(window_.begin(), window_.end()); return middle;")
ref("sq-temp", "F01", I+"oscillators/square.hpp", """        return (current_t < duty_ * oscillator<T>::inverse_frequency_ ? 1 : -1) * oscillator<T>::amplitude_;""", """        const auto high = duty_ * oscillator<T>::inverse_frequency_;
        if (current_t < high) {
            return oscillator<T>::amplitude_;
        }
        return -oscillator<T>::amplitude_;""")
ref("saw-else", "F01", I+"oscillators/sawtooth.hpp", """        if (width_ != 0 and t < width_) {
            return oscillator<T>::amplitude_ * (2 * t / width_ - 1);
        } else if (width_ != 1 and t >= width_) {
            return oscillator<T>::amplitude_ * (-2 * (t - width_) / (1 - width_) + 1);
        }
        return 0;""", """        const auto A = this->amplitude();
        if (t < width_ && width_ != 0) {
            return A * (2 * t / width_ - 1);
        }
        if (t >= width_ && width_ != 1) {
            return A * (1 - 2 * (t - width_) / (1 - width_));
        }
        return 0;""")
ref("sin-temp", "F01", I+"oscillators/sinusoidal.hpp", """        const value_type result =
            std::sin(constants<value_type>::two_pi * oscillator<T>::frequency_ * oscillator<T>::timestamp_ +
                     oscillator<T>::phase_);
        oscillator<T>::set_timestamp(oscillator<T>::timestamp_ + oscillator<T>::sampling_period_);
        return result * oscillator<T>::amplitude_;""", """        const value_type omega = constants<value_type>::two_pi * this->frequency();
        const value_type angle = omega * this->timestamp() + this->phase();
        this->timestamp_ += this->sampling_period();
        return this->amplitude() * std::sin(angle);""")
ref("ar-if", "F02", I+"experimental/envelope/ar.hpp", """        const auto current   = (last_ < rectified) ? (1 - attack_gain_) * rectified + attack_gain_ * last_
                                                 : (1 - release_gain_) * rectified + release_gain_ * last_;""", """        const auto gain    = (rectified > last_) ? attack_gain_ : release_gain_;
        const auto current = rectified - gain * rectified + gain * last_;""")
ref("adsr-if", "F02", I+"experimental/envelope/adsr.hpp", """                    value_ += attack_rate_;
                    if (value_ >= target_) {
                        value_  = target_;
                        target_ = sustain_level_;
                        state_  = adsr_state::decay;
                    }
                    break;""", """                    if (const auto next = value_ + attack_rate_; next < target_) {
                        value_ = next;
                    } else {
                        state_  = adsr_state::decay;
                        value_  = target_;
                        target_ = sustain_level_;
                    }
                    break;""")
ref("hil-fill", "I02", I+"spectral/hilbert.hpp", """        for (auto i = limit_2; i < nfft; ++i) {
            complex_data[i] = std::complex<value_type>(0, 0);
        }""", """        std::fill(std::begin(complex_data) + limit_2, std::end(complex_data), std::complex<value_type>(0, 0));""")
ref("hil-half", "I02", I+"spectral/hilbert.hpp", """        const auto limit_1 = math::is_even(nfft) ? nfft / 2 : (nfft + 1) / 2;
        const auto limit_2 = math::is_even(nfft) ? limit_1 + 1 : limit_1;""", """        const auto limit_1 = (nfft + 1) / 2;
        const auto limit_2 = nfft / 2 + 1;""")
ref("xc-copyloop", "I02", I+"spectral/correlation.hpp", """        std::copy(first, last, std::begin(temp_input));""", """        auto it = std::begin(temp_input);
        while (first != last) {
            *it++ = *first++;
        }""")
ref("xc-terms", "I02", I+"spectral/correlation.hpp", """            const auto terms =
                scale == CorrelationScale::Biased ? size : scale == CorrelationScale::Unbiased ? size - lag : 1;
            *d_first = temp_output[lag] / (static_cast<value_type>(nfft) * static_cast<value_type>(terms));""", """            auto divisor = static_cast<value_type>(nfft);
            if (scale == CorrelationScale::Unbiased) {
                divisor *= static_cast<value_type>(size - lag);
            } else if (scale == CorrelationScale::Biased) {
                divisor *= static_cast<value_type>(size);
            }
            *d_first = temp_output[lag] / divisor;""")
ref("conv-loop", "I02", I+"spectral/convolution.hpp", "std::copy(std::cbegin(temp_output), std::cbegin(temp_output) + size, d_first);", "for (std::ptrdiff_t k = 0; k < size; ++k, ++d_first) { *d_first = temp_output[k]; }")
ref("trim-order", "J01", I+"string/trim.hpp", """        ltrim(str);
        rtrim(str);""", """        rtrim(str);
        ltrim(str);""")
ref("ltrim-loop", "J01", I+"string/trim.hpp", """        str.erase(
            std::begin(str), std::find_if(std::begin(str), std::end(str),
                                [](auto character) { return !std::isspace(static_cast<unsigned char>(character)); }));""", """        auto until = std::begin(str);
        while (until != std::end(str) && std::isspace(static_cast<unsigned char>(*until))) {
            ++until;
        }
        str.erase(std::begin(str), until);""")
ref("ham-idx", "E01,E02", I+"windowing/hamming.hpp", """        for (size_type i = 0; i < size; ++i, ++first) {
            const value_type tmp = factor * i;
            *first               = a0 - a1 * std::cos(tmp);
        }""", """        size_type i = 0;
        while (first != last) {
            *first++ = a0 - a1 * std::cos(factor * static_cast<value_type>(i++));
        }""")
ref("ham-div", "E01", I+"windowing/hamming.hpp", "const value_type tmp = factor * i;", "const value_type tmp = constants<value_type>::two_pi * i / static_cast<value_type>(size - 1);")
ref("bart-one", "E01", I+"windowing/bartlett.hpp", """        for (size_type i = 0; i < middle; ++i, ++first) {
            *first = 2 * i * factor;
        }
        for (size_type i = middle; i < size; ++i, ++first) {
            *first = 2 - 2 * i * factor;
        }""", """        for (size_type i = 0; i < size; ++i, ++first) {
            const value_type up = 2 * i * factor;
            *first = (i < middle) ? up : 2 - up;
        }""")
ref("tri-idx", "E01", I+"windowing/triangular.hpp", """            *first = 1 - std::abs(initial / rem);
            initial += 2;""", """            *first = 1 - std::abs(initial + 2 * i) / rem;""")
ref("welch-sq", "E01", I+"windowing/welch.hpp", "*first = 1 - math::square(static_cast<value_type>(i - L) / L);", "const auto u = (static_cast<value_type>(i) - L) / L; *first = (1 - u) * (1 + u);")
ref("ring-at", "H01", I+"types/ring_buffer.hpp", """            if (i >= ring_.size()) {
                throw std::out_of_range("ring_buffer::at");
            }
            return (*this)[i];""", """            if (i < ring_.size()) {
                return (*this)[i];
            }
            throw std::out_of_range("ring_buffer::at");""")
ref("src-frames", "K02", I+"io/internal/resampler/libsamplerate_impl.hpp", """            const auto size          = std::distance(first, last);
            const auto input_frames  = size / channels_;
            const auto output_frames = static_cast<std::size_t>(ratio_ * input_frames);
            data_.input_frames       = input_frames;
            data_.output_frames      = output_frames;
            data_.data_in            = const_cast<value_type*>(&(*first));
            data_.data_out           = &(*d_first);
            data_.src_ratio          = ratio_;
            data_.end_of_input       = 0;""", """            data_.end_of_input       = 0;
            data_.src_ratio          = ratio_;
            data_.data_out           = &*d_first;
            data_.data_in            = const_cast<value_type*>(&*first);
            data_.input_frames       = std::distance(first, last) / channels_;
            data_.output_frames      = static_cast<std::size_t>(data_.input_frames * ratio_);""")
ref("dec-close", "K01", I+"io/internal/decoder/libsndfile_decoder_impl.hpp", """            if (!is_open()) {
                return;
            }

            sf_close(file_);
            file_ = nullptr;""", """            if (is_open()) {
                auto* handle = file_;
                file_ = nullptr;
                sf_close(handle);
            }""")
ref("dec-while", "K01,K02", I+"io/internal/decoder/libsndfile_decoder_impl.hpp", """            do {
                const auto counter = (remaining > N) ? N : remaining;
                samples_read       = internal::reader<T>{}.read(file_, meta::data(buffer_), counter);
                remaining -= samples_read;
                first = std::copy(std::cbegin(buffer_), std::cbegin(buffer_) + samples_read, first);
            } while (remaining > 0 && samples_read > 0);
            return total - remaining;""", """            while (true) {
                const auto counter = std::min<index_type>(N, remaining);
                samples_read       = internal::reader<T>{}.read(file_, meta::data(buffer_), counter);
                first = std::copy(std::cbegin(buffer_), std::cbegin(buffer_) + samples_read, first);
                remaining -= samples_read;
                if (samples_read <= 0 || remaining <= 0) {
                    break;
                }
            }
            return total - remaining;""")
ref("prime-bool", "L01", I+"math/numeric.hpp", """        else if (!(n & 1))
            return 0;
        else if (!(n % 3))
            return 0;
        std::uint64_t r = 5;""", """        if (n % 2 == 0 || n % 3 == 0)
            return false;

        std::uint64_t r = 5;""")
ref("pow2-and", "L01", I+"math/numeric.hpp", "return tmp > 0 && !(tmp & (tmp - 1));", "if (tmp <= 0) { return false; } return (tmp & -tmp) == tmp;")
ref("odd-even", "L01,E01,I02,D04", I+"math/numeric.hpp", "return !is_odd(x);", "return x % 2 == 0;")
ref("half-div", "L01", I+"math/numeric.hpp", "return 0.5 * x;", "return x / 2.0;")
ref("env-order", "M01", I+"core/system.hpp", """            const char* env_p = std::getenv(std::string(variable_name.data(), variable_name.size()).c_str());
            if (meta::empty(variable_name)) {
                return edsp::make_unexpected(error::empty);
            } else {
                if (env_p != nullptr) {
                    return env_p;
                } else {
                    return edsp::make_unexpected(error::not_found);
                }
            }""", """            if (meta::empty(variable_name)) {
                return edsp::make_unexpected(error::empty);
            }
            const std::string name(variable_name.data(), variable_name.size());
            const char* env_p = std::getenv(name.c_str());
            if (env_p == nullptr) {
                return edsp::make_unexpected(error::not_found);
            }
            return env_p;""")
ref("env-exist", "M01", I+"core/system.hpp", "return std::getenv(std::string(variable_name.data(), variable_name.size()).c_str()) != nullptr;", "const auto name = std::string(variable_name.data(), variable_name.size()); const char* value = std::getenv(name.c_str()); return value ? true : false;")
ref("rbj-lp", "G03", I+"filter/internal/rbj_designer.hpp", """            b[0] = static_cast<T>((1 - omega_c) / 2);
            b[1] = static_cast<T>(1 - omega_c);
            b[2] = b[0];""", """            const auto gap = 1 - omega_c;
            b[1] = static_cast<T>(gap);
            b[0] = static_cast<T>(gap / 2);
            b[2] = static_cast<T>(gap / 2);""")
ref("rbj-shelf", "G03", I+"filter/internal/rbj_designer.hpp", "const T A          = std::sqrt(std::pow(10., gain_db / 20));", "const T A          = std::pow(10., gain_db / 40);")
ref("rbj-bp", "G03", I+"filter/internal/rbj_designer.hpp", "b[0] = static_cast<T>(Q * alpha);", "b[0] = static_cast<T>(omega_s / 2);")
ref("cep-norm", "I02", I+"spectral/cepstrum.hpp", "return std::complex<value_type>(std::log(std::abs(val)), 0);", "const auto magnitude = std::abs(val); return {std::log(magnitude), 0};")
ref("spec-loop", "I02", I+"spectral/spectrum.hpp", """        std::transform(std::cbegin(fft_data_), std::cend(fft_data_), d_first,
                       [](const auto val) { return math::square(std::abs(val)); });""", """        for (const auto& bin : fft_data_) {
            const auto magnitude = std::abs(bin);
            *d_first++ = magnitude * magnitude;
        }""")
ref("dct-data", "I02,I01", I+"spectral/dct.hpp", """        plan.idct(&(*first), &(*d_first));
        plan.idct_scale(&(*d_first));""", """        auto* output = &*d_first;
        plan.idct(&*first, output);
        plan.idct_scale(output);""")
ref("asdf-acc", "D02", I+"feature/temporal/asdf.hpp", """            *d_first = static_cast<value_type>(0);
            for (auto j = 0; j < (N - i); ++j) {
                *d_first += math::square(array[j] - array[j + i]);
            }
            *d_first /= static_cast<value_type>(N);""", """            value_type sum = 0;
            for (auto j = i; j < N; ++j) {
                const auto difference = array[j - i] - array[j];
                sum += difference * difference;
            }
            *d_first = sum / static_cast<value_type>(N);""")
ref("flux-idx", "D04", I+"feature/statistics/flux.hpp", """        for (; first1 != last1; ++first1, ++first2) {
            accumulated += distance<d>(*first1 / current_sum, *first2 / previous_sum);
        }""", """        while (first1 != last1) {
            const auto current = *first1++ / current_sum;
            const auto previous = *first2++ / previous_sum;
            accumulated = accumulated + distance<d>(current, previous);
        }""")
ref("median-sort", "C03", I+"statistics/median.hpp", """        std::nth_element(values.begin(), middle, values.end());
        const auto upper = *middle;
        if (values.size() % 2 == 1) {
            return upper;
        }

        std::nth_element(values.begin(), middle - 1, values.end());
        return (*(middle - 1) + upper) / 2;""", """        std::sort(values.begin(), values.end());
        if (values.size() % 2 == 1) {
            return *middle;
        }
        return (*(middle - 1) + *middle) / 2;""")
ref("median-max", "C03", I+"statistics/median.hpp", """        std::nth_element(values.begin(), middle - 1, values.end());
        return (*(middle - 1) + upper) / 2;""", """        const auto lower = *std::max_element(values.begin(), middle);
        return (lower + upper) / 2;""")
ref("dur-loop", "D01", I+"feature/temporal/duration.hpp", """        const auto samples = std::count_if(first, last, functor);""", """        std::ptrdiff_t samples = 0;
        for (; first != last; ++first) {
            if (functor(*first)) {
                ++samples;
            }
        }""")
ref("amdf-acc", "D02", I+"feature/temporal/amdf.hpp", """array[j] - array[j + i]""", """array[j + i] - array[j]""")
RS = I+"thirdparty/nonstd/ring_span.hpp"
ref("rs-wrap", "H01,G05,C03", RS, """            return idx % m_capacity;""", """            return idx >= m_capacity ? idx % m_capacity : idx;""")
ref("rs-wrapsub", "H01,G05", RS, """        void increment_front_and_back_() nsrs_noexcept {
            m_front_idx = normalize_(m_front_idx + 1);
        }""", """        void increment_front_and_back_() nsrs_noexcept {
            m_front_idx = (m_front_idx + 1 == m_capacity) ? 0 : m_front_idx + 1;
        }""")
ref("rs-push", "H01,G05", RS, """            if (full())
                increment_front_and_back_();
            else
                increment_back_();

            back_() = value;
        }""", """            if (!full()) {
                increment_back_();
            } else {
                increment_front_and_back_();
            }
            auto& slot = back_();
            slot = value;
        }""")
ref("rs-pop", "H01", RS, """            reference element = front_();
            increment_front_();

            return m_popper(element);""", """            const auto idx = m_front_idx;
            --m_size;
            m_front_idx = normalize_(idx + 1);
            return m_popper(m_data[idx]);""")
FW = I+"spectral/internal/libfftw_impl.hpp"
ref("fft-scale", "I01,I02", FW, "static_cast<T>(nfft_)", "static_cast<T>(nfft_)") if False else None
