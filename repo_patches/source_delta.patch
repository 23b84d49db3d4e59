From fedd34a8caccd9bf3706a76ac1f8056dafa3f71e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:30:04 +0000
Subject: [PATCH 01/34] fix: derivative(): drop the template parameter that
 could not be deduced

---
 include/edsp/algorithm/derivative.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/edsp/algorithm/derivative.hpp b/include/edsp/algorithm/derivative.hpp
index fd394f3..71025cf 100644
--- a/include/edsp/algorithm/derivative.hpp
+++ b/include/edsp/algorithm/derivative.hpp
@@ -42,7 +42,7 @@ namespace edsp { inline namespace algorithm {
          * @param last Forward iterator defining the end of the range to examine.
          * @param d_first Output iterator defining the beginning of the destination range.
          */
-    template <typename InputItr, typename OutputIt, typename Numeric>
+    template <typename InputItr, typename OutputIt>
     constexpr void derivative(InputItr first, InputItr last, OutputIt d_first) {
         std::adjacent_difference(first, last, d_first);
     }
-- 
2.43.0


From 7f216084e295c796925d3b6b1b80049b52e6bcce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:30:04 +0000
Subject: [PATCH 02/34] fix: silence(): drop the template parameter that could
 not be deduced

---
 include/edsp/algorithm/silence.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/edsp/algorithm/silence.hpp b/include/edsp/algorithm/silence.hpp
index dfccec9..41523db 100644
--- a/include/edsp/algorithm/silence.hpp
+++ b/include/edsp/algorithm/silence.hpp
@@ -36,7 +36,7 @@ namespace edsp { inline namespace algorithm {
      * @param last Input iterator defining the ending of the input range.
      * @param threshold Threshold .
      */
-    template <typename InputIt, typename OutputIt, typename Numeric>
+    template <typename InputIt, typename Numeric>
     constexpr bool silence(InputIt first, InputIt last, Numeric threshold) {
         return feature::temporal::power(first, last) < threshold;
     }
-- 
2.43.0


From 5fefe9be9e7c8ce42f83a4c0804acf5f2832209c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:30:04 +0000
Subject: [PATCH 03/34] fix: rms(): start the sum of squares at zero

---
 include/edsp/feature/temporal/rms.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/edsp/feature/temporal/rms.hpp b/include/edsp/feature/temporal/rms.hpp
index 8249985..ac287f7 100644
--- a/include/edsp/feature/temporal/rms.hpp
+++ b/include/edsp/feature/temporal/rms.hpp
@@ -42,7 +42,7 @@ namespace edsp { namespace feature { inline namespace temporal {
     template <typename ForwardIt>
     constexpr auto rms(ForwardIt first, ForwardIt last) {
         using value_type       = typename std::iterator_traits<ForwardIt>::value_type;
-        const auto accumulated = std::inner_product(first, last, first, static_cast<value_type>(1));
+        const auto accumulated = std::inner_product(first, last, first, static_cast<value_type>(0));
         return std::sqrt(accumulated / static_cast<value_type>(std::distance(first, last)));
     }
 }}} // namespace edsp::feature::temporal
-- 
2.43.0


From d579ff8eb861d0b98dfdf71e0f8c8c14ccb99b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:36:30 +0000
Subject: [PATCH 04/34] fix: peak2peak(): return maximum minus minimum for
 signals with negative samples

---
 include/edsp/converter/peak2peak.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/edsp/converter/peak2peak.hpp b/include/edsp/converter/peak2peak.hpp
index 25b35b0..9f09569 100644
--- a/include/edsp/converter/peak2peak.hpp
+++ b/include/edsp/converter/peak2peak.hpp
@@ -36,7 +36,7 @@ namespace edsp { inline namespace converter {
     template <typename ForwardIt>
     constexpr auto peak2peak(ForwardIt first, ForwardIt last) {
         const auto pair = std::minmax_element(first, last);
-        return std::abs(*pair.second) - std::abs(*pair.first);
+        return *pair.second - *pair.first;
     }
 
 }} // namespace edsp::converter
-- 
2.43.0


From 423a339943c7e3a5d0c953a1ba324349d5dacfeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:36:30 +0000
Subject: [PATCH 05/34] fix: peak_abs(): report the absolute peak instead of
 the signed maximum

---
 bindings/c/src/statistics.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/c/src/statistics.c b/bindings/c/src/statistics.c
index 74f23ef..9e106c7 100644
--- a/bindings/c/src/statistics.c
+++ b/bindings/c/src/statistics.c
@@ -99,7 +99,7 @@ Peak peak(const real_t* data, int size) {
 }
 
 Peak peak_abs(const real_t* data, int size) {
-    const auto peak = edsp::statistics::peak(data, data + size);
+    const auto peak = edsp::statistics::peakabs(data, data + size);
     return Peak{static_cast<int>(peak.first), peak.second};
 }
 
-- 
2.43.0


From 2dd54301d09974357db89312605bb73d96839875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:33 +0000
Subject: [PATCH 06/34] fix: snr(): take the signal variance over the signal
 range

---
 include/edsp/feature/temporal/snr.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/edsp/feature/temporal/snr.hpp b/include/edsp/feature/temporal/snr.hpp
index 2ec7912..23b3166 100644
--- a/include/edsp/feature/temporal/snr.hpp
+++ b/include/edsp/feature/temporal/snr.hpp
@@ -56,7 +56,7 @@ namespace edsp { namespace feature { inline namespace temporal {
         std::transform(first1, last1, first2, std::begin(noise),
                        [](const value_type left, const value_type right) { return left - right; });
 
-        const auto var_ref   = statistics::variance(first1, first2);
+        const auto var_ref   = statistics::variance(first1, last1);
         const auto var_noise = statistics::variance(std::cbegin(noise), std::cend(noise));
         return converter::pow2db(var_ref / var_noise);
     }
-- 
2.43.0


From 97983845c6a0da778a189ffdc95fb18691f90580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:33 +0000
Subject: [PATCH 07/34] fix: slope(): count the bins before the iterator is
 consumed

---
 include/edsp/feature/statistics/slope.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/edsp/feature/statistics/slope.hpp b/include/edsp/feature/statistics/slope.hpp
index 3789591..446aec8 100644
--- a/include/edsp/feature/statistics/slope.hpp
+++ b/include/edsp/feature/statistics/slope.hpp
@@ -65,13 +65,13 @@ namespace edsp { namespace feature { inline namespace statistics {
         auto f_sum       = static_cast<value_type>(0);
         auto ff_sum      = static_cast<value_type>(0);
         auto mf_sum      = static_cast<value_type>(0);
+        const auto N     = static_cast<value_type>(std::distance(first1, last1));
         for (; first1 != last1; ++first1, ++first2) {
             m_sum += *first1;
             f_sum += *first2;
             mf_sum += (*first1) * (*first2);
             ff_sum += (*first2) * (*first2);
         }
-        const auto N = static_cast<value_type>(std::distance(first1, last1));
         return (1 / m_sum) * (N * mf_sum - f_sum * m_sum) / (N * ff_sum - (f_sum * f_sum));
     }
 
-- 
2.43.0


From 3bd97cc4202dbea7b5b49943fa25083eebf60266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:33 +0000
Subject: [PATCH 08/34] fix: flux(): sum the second spectrum over its own range

---
 include/edsp/feature/statistics/flux.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/edsp/feature/statistics/flux.hpp b/include/edsp/feature/statistics/flux.hpp
index d9ecc30..be01426 100644
--- a/include/edsp/feature/statistics/flux.hpp
+++ b/include/edsp/feature/statistics/flux.hpp
@@ -49,7 +49,7 @@ namespace edsp { namespace feature { inline namespace statistics {
         using value_type        = meta::value_type_t<InputIt>;
         const auto size         = std::distance(first1, last1);
         const auto current_sum  = std::accumulate(first1, last1, static_cast<value_type>(0));
-        const auto previous_sum = std::accumulate(first1, meta::advance(first2, size), static_cast<value_type>(0));
+        const auto previous_sum = std::accumulate(first2, meta::advance(first2, size), static_cast<value_type>(0));
         auto accumulated        = static_cast<value_type>(0);
         for (; first1 != last1; ++first1, ++first2) {
             accumulated += distance<d>(*first1 / current_sum, *first2 / previous_sum);
-- 
2.43.0


From 6e8a197272b72fa0fb6f6a6fa667257292821670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:33 +0000
Subject: [PATCH 09/34] fix: variation(): use the inner product of the spectra
 as numerator

---
 include/edsp/feature/statistics/variation.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/edsp/feature/statistics/variation.hpp b/include/edsp/feature/statistics/variation.hpp
index 5847d51..7cc48e8 100644
--- a/include/edsp/feature/statistics/variation.hpp
+++ b/include/edsp/feature/statistics/variation.hpp
@@ -65,7 +65,7 @@ namespace edsp { namespace feature { inline namespace statistics {
             sum_x2 += *first2;
             sum_x12 += *first1 * *first2;
         }
-        return 1 - sum_x2 / (std::sqrt(sum_x1) * std::sqrt(sum_x2));
+        return 1 - sum_x12 / (std::sqrt(sum_x1) * std::sqrt(sum_x2));
     }
 
 }}} // namespace edsp::feature::statistics
-- 
2.43.0


From 1fc56a496e061ee94dc32ded13c33ec0c53f2db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:33 +0000
Subject: [PATCH 10/34] fix: spectral_irregularity(): compare adjoining bins

---
 include/edsp/feature/spectral/spectral_irregularity.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/edsp/feature/spectral/spectral_irregularity.hpp b/include/edsp/feature/spectral/spectral_irregularity.hpp
index 6063c46..e4a9abd 100644
--- a/include/edsp/feature/spectral/spectral_irregularity.hpp
+++ b/include/edsp/feature/spectral/spectral_irregularity.hpp
@@ -52,7 +52,7 @@ namespace edsp { namespace feature { inline namespace spectral {
         using value_type       = typename std::iterator_traits<ForwardIt>::value_type;
         value_type square_diff = 0, square_ampl = 0;
         for (auto until = (last - 1); first != until; ++first) {
-            const value_type diff = (*first + 1) - (*first);
+            const value_type diff = *(first + 1) - (*first);
             square_diff += diff * diff;
             square_ampl += (*first) * (*first);
         }
-- 
2.43.0


From d0c280941e512c8806a068b1c98797afad6e273b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:33 +0000
Subject: [PATCH 11/34] fix: decrease(): start the sums at the second bin,
 avoiding the division by bin zero

---
 include/edsp/feature/statistics/decrease.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/edsp/feature/statistics/decrease.hpp b/include/edsp/feature/statistics/decrease.hpp
index 6ad28d6..b037190 100644
--- a/include/edsp/feature/statistics/decrease.hpp
+++ b/include/edsp/feature/statistics/decrease.hpp
@@ -51,7 +51,8 @@ namespace edsp { namespace feature { inline namespace statistics {
         using value_t       = typename std::iterator_traits<ForwardIt>::value_type;
         auto weighted_sum   = static_cast<value_t>(0);
         auto unweighted_sum = static_cast<value_t>(0);
-        for (value_t i = 0, initial = *first; first != last; ++first, ++i) {
+        const auto initial  = *first;
+        for (value_t i = 1; ++first != last; ++i) {
             weighted_sum += ((*first) - initial) / i;
             unweighted_sum += *first;
         }
-- 
2.43.0


From 6ea57fe6cf46944aa56fb924da4a22153e5c1338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:08 +0000
Subject: [PATCH 12/34] fix: manhattan distance is an absolute difference

---
 include/edsp/math/numeric.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/edsp/math/numeric.hpp b/include/edsp/math/numeric.hpp
index f54e39c..f48b79b 100644
--- a/include/edsp/math/numeric.hpp
+++ b/include/edsp/math/numeric.hpp
@@ -288,7 +288,7 @@ namespace edsp { inline namespace math {
         struct distance<distances::manhattan> {
             template <typename T>
             constexpr T operator()(T x, T y) noexcept {
-                return x - y;
+                return std::abs(x - y);
             }
         };
 
-- 
2.43.0


From 1b15cd386bda25161a1ee0e241325aaa16932fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:46 +0000
Subject: [PATCH 13/34] fix: triangular window of length 4k+3 uses the
 odd-length divisor

---
 include/edsp/windowing/triangular.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/edsp/windowing/triangular.hpp b/include/edsp/windowing/triangular.hpp
index 415b0af..73d0f79 100644
--- a/include/edsp/windowing/triangular.hpp
+++ b/include/edsp/windowing/triangular.hpp
@@ -45,7 +45,7 @@ namespace edsp { namespace windowing {
         using value_type     = meta::value_type_t<OutputIt>;
         using size_type      = meta::diff_type_t<OutputIt>;
         const auto size      = static_cast<size_type>(std::distance(first, last));
-        const value_type rem = size + std::remainder(size, 2);
+        const value_type rem = size + size % 2;
         value_type initial   = -(size - 1);
         for (size_type i = 0; i < size; ++i, ++first) {
             *first = 1 - std::abs(initial / rem);
-- 
2.43.0


From 79ea25e7561b6d8e9e4d8721b004709a40a068fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:46 +0000
Subject: [PATCH 14/34] fix: Welch window is centred at (N-1)/2 for even
 lengths too

---
 include/edsp/windowing/welch.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/edsp/windowing/welch.hpp b/include/edsp/windowing/welch.hpp
index bbc3461..c7d5e14 100644
--- a/include/edsp/windowing/welch.hpp
+++ b/include/edsp/windowing/welch.hpp
@@ -45,7 +45,7 @@ namespace edsp { namespace windowing {
         using value_type   = meta::value_type_t<OutputIt>;
         using size_type    = meta::diff_type_t<OutputIt>;
         const auto size    = static_cast<size_type>(std::distance(first, last));
-        const value_type L = size / 2;
+        const value_type L = static_cast<value_type>(size - 1) / 2;
         for (size_type i = 0; i < size; ++i, ++first) {
             *first = 1 - math::square(static_cast<value_type>(i - L) / L);
         }
-- 
2.43.0


From 78b64686e9e178a516b1a836312a2e17c6f67438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:02 +0000
Subject: [PATCH 15/34] fix: biquad honours a0 set through set_a0

---
 include/edsp/filter/biquad.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/edsp/filter/biquad.hpp b/include/edsp/filter/biquad.hpp
index 52b5be2..d6fb1f1 100644
--- a/include/edsp/filter/biquad.hpp
+++ b/include/edsp/filter/biquad.hpp
@@ -275,7 +275,7 @@ namespace edsp { namespace filter {
 
     template <typename T>
     constexpr bool biquad<T>::stability() const noexcept {
-        return std::abs(a2_) < 1 && (std::abs(a1_) < (1 + a2_));
+        return std::abs(a2_ / a0_) < 1 && (std::abs(a1_ / a0_) < (1 + a2_ / a0_));
     }
 
     template <typename T>
@@ -324,7 +324,7 @@ namespace edsp { namespace filter {
 
     template <typename T>
     constexpr typename biquad<T>::value_type biquad<T>::tick(const value_type value) noexcept {
-        const auto out = b0_ * value + w0_;
+        const auto out = (b0_ * value + w0_) / a0_;
         w0_            = b1_ * value - a1_ * out + w1_;
         w1_            = b2_ * value - a2_ * out;
         return out;
-- 
2.43.0


From 115ff80ecce715fdcbe7183e32ededb21149311e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:52 +0000
Subject: [PATCH 16/34] fix: Zoelzer shelves cut when the gain is negative

---
 include/edsp/filter/internal/zoelzer_designer.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/edsp/filter/internal/zoelzer_designer.hpp b/include/edsp/filter/internal/zoelzer_designer.hpp
index acaab1d..3fd9a26 100644
--- a/include/edsp/filter/internal/zoelzer_designer.hpp
+++ b/include/edsp/filter/internal/zoelzer_designer.hpp
@@ -82,7 +82,7 @@ namespace edsp { namespace filter {
     struct ZoelzerFilterDesigner<T, filter_type::LowShelf> {
         constexpr biquad<T> operator()(T fc, T sample_rate, T Q, T gain_db = 1) const {
             meta::unused(Q);
-            const auto V = db2mag(gain_db);
+            const auto V = db2mag(std::abs(gain_db));
             const auto K = std::tan(constants<T>::pi * fc / sample_rate);
             if (gain_db >= 0) { // boost
                 const auto norm = 1 / (1 + constants<T>::root_two * K + K * K);
@@ -108,7 +108,7 @@ namespace edsp { namespace filter {
     struct ZoelzerFilterDesigner<T, filter_type::HighShelf> {
         constexpr biquad<T> operator()(T fc, T sample_rate, T Q, T gain_db = 1) const {
             meta::unused(Q);
-            const auto V = db2mag(gain_db);
+            const auto V = db2mag(std::abs(gain_db));
             const auto K = std::tan(constants<T>::pi * fc / sample_rate);
             if (gain_db >= 0) { // boost
                 const auto norm = 1 / (1 + constants<T>::root_two * K + K * K);
@@ -125,7 +125,7 @@ namespace edsp { namespace filter {
                 const auto b2   = (1 - constants<T>::root_two * K + K * K) * norm;
                 const auto a1   = 2 * (K * K - V) * norm;
                 const auto a2   = (V - std::sqrt(2 * V) * K + K * K) * norm;
-                return biquad<T>(b0, b1, b2, a1, a1, a2);
+                return biquad<T>(1, a1, a2, b0, b1, b2);
             }
         }
     };
-- 
2.43.0


From c05449d9a073d181f306637c79b17b3941505901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:22 +0000
Subject: [PATCH 17/34] fix: square oscillator is active during the duty
 fraction and follows set_frequency

---
 include/edsp/oscillators/sinusoidal.hpp | 3 ++-
 include/edsp/oscillators/square.hpp     | 6 +++---
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/edsp/oscillators/sinusoidal.hpp b/include/edsp/oscillators/sinusoidal.hpp
index aa93f17..90562c3 100644
--- a/include/edsp/oscillators/sinusoidal.hpp
+++ b/include/edsp/oscillators/sinusoidal.hpp
@@ -183,7 +183,8 @@ namespace edsp { namespace oscillators {
 
     template <typename T>
     constexpr void oscillator<T>::set_frequency(value_type frequency) noexcept {
-        frequency_ = frequency;
+        frequency_         = frequency;
+        inverse_frequency_ = math::inv(frequency_);
     }
 
     template <typename T>
diff --git a/include/edsp/oscillators/square.hpp b/include/edsp/oscillators/square.hpp
index af62169..7a6c9de 100644
--- a/include/edsp/oscillators/square.hpp
+++ b/include/edsp/oscillators/square.hpp
@@ -98,19 +98,19 @@ namespace edsp { namespace oscillators {
     template <typename T>
     constexpr void square_oscillator<T>::set_duty(value_type duty) noexcept {
         meta::expects(duty >= 0 && duty <= 1, "duty must be a real number between 0 and 1.");
-        duty_ = duty * oscillator<T>::inverse_frequency_;
+        duty_ = duty;
     }
 
     template <typename T>
     constexpr typename square_oscillator<T>::value_type square_oscillator<T>::duty() const noexcept {
-        return duty_ * oscillator<T>::frequency_;
+        return duty_;
     }
 
     template <typename T>
     constexpr typename square_oscillator<T>::value_type square_oscillator<T>::operator()() {
         const auto current_t = std::fmod(oscillator<T>::timestamp_, oscillator<T>::inverse_frequency_);
         oscillator<T>::set_timestamp(oscillator<T>::timestamp_ + oscillator<T>::sampling_period_);
-        return (current_t >= duty_ ? 1 : -1) * oscillator<T>::amplitude_;
+        return (current_t < duty_ * oscillator<T>::inverse_frequency_ ? 1 : -1) * oscillator<T>::amplitude_;
     }
 
 }} // namespace edsp::oscillators
-- 
2.43.0


From 8b38430d8dd62c1f601c5be07ebef54fcd0a2697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:09:49 +0000
Subject: [PATCH 18/34] fix: AR follower gains follow the attack and release
 times (in msecs)

---
 include/edsp/experimental/envelope/ar.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/edsp/experimental/envelope/ar.hpp b/include/edsp/experimental/envelope/ar.hpp
index 1333b07..d27e55f 100644
--- a/include/edsp/experimental/envelope/ar.hpp
+++ b/include/edsp/experimental/envelope/ar.hpp
@@ -197,9 +197,9 @@ namespace edsp { namespace envelope {
 
     template <typename T>
     constexpr void ar<T>::reset() noexcept {
-        attack_gain_ = (attack_gain_ > 0) ? static_cast<value_type>(std::exp(-1 / (attack_time_ * sample_rate_))) : 0;
+        attack_gain_ = (attack_time_ > 0) ? static_cast<value_type>(std::exp(-1000 / (attack_time_ * sample_rate_))) : 0;
         release_gain_ =
-            (release_gain_ > 0) ? static_cast<value_type>(std::exp(-1 / (release_time_ * sample_rate_))) : 0;
+            (release_time_ > 0) ? static_cast<value_type>(std::exp(-1000 / (release_time_ * sample_rate_))) : 0;
         last_ = 0;
     }
 
-- 
2.43.0


From a039c9d8740c58e959da52ce2f248260b7e7d25c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:13 +0000
Subject: [PATCH 19/34] fix: ADSR release_rate() returns the release rate

---
 include/edsp/experimental/envelope/adsr.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/edsp/experimental/envelope/adsr.hpp b/include/edsp/experimental/envelope/adsr.hpp
index d7b0659..a625fc9 100644
--- a/include/edsp/experimental/envelope/adsr.hpp
+++ b/include/edsp/experimental/envelope/adsr.hpp
@@ -68,7 +68,7 @@ namespace edsp { namespace envelope {
         }
 
         constexpr value_type release_rate() const {
-            return release_time_;
+            return release_rate_;
         }
 
         constexpr value_type decay_rate() const {
-- 
2.43.0


From 21b185d7d33e69a535226cf9b4cbc5f1c368d27a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:58 +0000
Subject: [PATCH 20/34] fix: closing an encoder or decoder drops its file
 handle

---
 include/edsp/io/internal/decoder/libsndfile_decoder_impl.hpp | 1 +
 include/edsp/io/internal/encoder/libsndfile_encoder_impl.hpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/include/edsp/io/internal/decoder/libsndfile_decoder_impl.hpp b/include/edsp/io/internal/decoder/libsndfile_decoder_impl.hpp
index 328cb8f..dd9b05c 100644
--- a/include/edsp/io/internal/decoder/libsndfile_decoder_impl.hpp
+++ b/include/edsp/io/internal/decoder/libsndfile_decoder_impl.hpp
@@ -105,6 +105,7 @@ namespace edsp { namespace io {
             }
 
             sf_close(file_);
+            file_ = nullptr;
         }
 
         const edsp::string_view& error() const {
diff --git a/include/edsp/io/internal/encoder/libsndfile_encoder_impl.hpp b/include/edsp/io/internal/encoder/libsndfile_encoder_impl.hpp
index c84c887..c0c9cbc 100644
--- a/include/edsp/io/internal/encoder/libsndfile_encoder_impl.hpp
+++ b/include/edsp/io/internal/encoder/libsndfile_encoder_impl.hpp
@@ -121,6 +121,7 @@ namespace edsp { namespace io {
             }
 
             sf_close(file_);
+            file_ = nullptr;
         }
 
         const edsp::string_view& error() const {
-- 
2.43.0


From 45e0c091fe968b615b2d318fd9721c018423bdcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:19 +0000
Subject: [PATCH 21/34] fix: encoder writes pass the exact length of ranges
 longer than INT_MAX

---
 .../edsp/io/internal/encoder/libsndfile_encoder_impl.hpp  | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/edsp/io/internal/encoder/libsndfile_encoder_impl.hpp b/include/edsp/io/internal/encoder/libsndfile_encoder_impl.hpp
index c0c9cbc..e8c4d84 100644
--- a/include/edsp/io/internal/encoder/libsndfile_encoder_impl.hpp
+++ b/include/edsp/io/internal/encoder/libsndfile_encoder_impl.hpp
@@ -46,7 +46,7 @@ namespace edsp { namespace io {
             using value_type            = float;
             static constexpr int FORMAT = SF_FORMAT_FLOAT;
 
-            std::ptrdiff_t write(SNDFILE* file, const float* buffer, int length) {
+            std::ptrdiff_t write(SNDFILE* file, const float* buffer, sf_count_t length) {
                 return sf_write_float(file, buffer, length);
             }
         };
@@ -56,7 +56,7 @@ namespace edsp { namespace io {
             using value_type            = double;
             static constexpr int FORMAT = SF_FORMAT_DOUBLE;
 
-            std::ptrdiff_t write(SNDFILE* file, const double* buffer, int length) {
+            std::ptrdiff_t write(SNDFILE* file, const double* buffer, sf_count_t length) {
                 return sf_write_double(file, buffer, length);
             }
         };
@@ -66,7 +66,7 @@ namespace edsp { namespace io {
             using value_type            = int;
             static constexpr int FORMAT = SF_FORMAT_PCM_32;
 
-            std::ptrdiff_t write(SNDFILE* file, const int* buffer, int length) {
+            std::ptrdiff_t write(SNDFILE* file, const int* buffer, sf_count_t length) {
                 return sf_write_int(file, buffer, length);
             }
         };
@@ -76,7 +76,7 @@ namespace edsp { namespace io {
             using value_type            = short;
             static constexpr int FORMAT = SF_FORMAT_PCM_16;
 
-            std::ptrdiff_t write(SNDFILE* file, const short* buffer, int length) {
+            std::ptrdiff_t write(SNDFILE* file, const short* buffer, sf_count_t length) {
                 return sf_write_short(file, buffer, length);
             }
         };
-- 
2.43.0


From 364d66a563edf9178d8a730b2c278dadd9f4096b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:50 +0000
Subject: [PATCH 22/34] fix: biased and unbiased correlation estimates are
 scaled by the sample and overlap counts

---
 include/edsp/spectral/correlation.hpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/include/edsp/spectral/correlation.hpp b/include/edsp/spectral/correlation.hpp
index b67dfeb..cc8b34e 100644
--- a/include/edsp/spectral/correlation.hpp
+++ b/include/edsp/spectral/correlation.hpp
@@ -75,9 +75,11 @@ namespace edsp { inline namespace spectral {
             [](const std::complex<value_type>& val) -> std::complex<value_type> { return val * std::conj(val); });
 
         ifft_.idft(meta::data(fft_data_), meta::data(temp_output));
-        const auto factor = static_cast<value_type>(nfft * (scale == CorrelationScale::Biased ? nfft : 1));
-        std::transform(std::cbegin(temp_output), std::cbegin(temp_output) + size, d_first,
-                       [factor](value_type val) { return val / factor; });
+        for (std::ptrdiff_t lag = 0; lag < size; ++lag, ++d_first) {
+            const auto terms =
+                scale == CorrelationScale::Biased ? size : scale == CorrelationScale::Unbiased ? size - lag : 1;
+            *d_first = temp_output[lag] / (static_cast<value_type>(nfft) * static_cast<value_type>(terms));
+        }
     }
 
     /**
@@ -126,9 +128,11 @@ namespace edsp { inline namespace spectral {
                            -> std::complex<value_type> { return left * std::conj(right); });
 
         ifft_.idft(meta::data(fft_data1), meta::data(temp_output));
-        const auto factor = static_cast<value_type>(nfft * (scale == CorrelationScale::Biased ? nfft : 1));
-        std::transform(std::cbegin(temp_output), std::cbegin(temp_output) + size, d_first,
-                       [factor](value_type val) { return val / factor; });
+        for (std::ptrdiff_t lag = 0; lag < size; ++lag, ++d_first) {
+            const auto terms =
+                scale == CorrelationScale::Biased ? size : scale == CorrelationScale::Unbiased ? size - lag : 1;
+            *d_first = temp_output[lag] / (static_cast<value_type>(nfft) * static_cast<value_type>(terms));
+        }
     }
 
 }}     // namespace edsp::spectral
-- 
2.43.0


From 8b94809ab656c898770fbac32a53c90942836d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:16:12 +0000
Subject: [PATCH 23/34] fix: major_version reports the major version

---
 include/edsp/core/library_info.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/edsp/core/library_info.hpp b/include/edsp/core/library_info.hpp
index dbea03a..92a95ee 100644
--- a/include/edsp/core/library_info.hpp
+++ b/include/edsp/core/library_info.hpp
@@ -79,7 +79,7 @@ namespace edsp { inline namespace core {
         }
 
         static constexpr std::int32_t major_version() noexcept {
-            return E_VERSION_MINOR;
+            return E_VERSION_MAJOR;
         }
 
         static constexpr std::int32_t patch_version() noexcept {
-- 
2.43.0


From 9654feaa2648918c1af53b25085756ceac58ccf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:16:12 +0000
Subject: [PATCH 24/34] fix: get_build_date reports the build date

---
 bindings/c/src/core.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/c/src/core.c b/bindings/c/src/core.c
index a9c6dcc..008c021 100644
--- a/bindings/c/src/core.c
+++ b/bindings/c/src/core.c
@@ -43,7 +43,7 @@ const char *get_version() {
 }
 
 const char *get_build_date() {
-    return edsp::library_info::build_time();
+    return edsp::library_info::build_date();
 }
 
 const char *get_build_time() {
-- 
2.43.0


From 9f488b12f7c3fad0e006a33afb98b13484245e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:16:12 +0000
Subject: [PATCH 25/34] fix: environment queries use exactly the given name and
 find empty values

---
 include/edsp/core/system.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/edsp/core/system.hpp b/include/edsp/core/system.hpp
index 05b9a14..efa1fae 100644
--- a/include/edsp/core/system.hpp
+++ b/include/edsp/core/system.hpp
@@ -30,6 +30,7 @@
 #include <edsp/meta/is_null.hpp>
 #include <edsp/meta/empty.hpp>
 #include <mutex>
+#include <string>
 
 namespace edsp { inline namespace core {
 
@@ -184,11 +185,11 @@ namespace edsp { inline namespace core {
         static edsp::expected<edsp::string_view, error>
             get_env(const edsp::string_view& variable_name) noexcept {
             std::lock_guard<std::mutex> lock(mutex());
-            const char* env_p = std::getenv(variable_name.data());
+            const char* env_p = std::getenv(std::string(variable_name.data(), variable_name.size()).c_str());
             if (meta::empty(variable_name)) {
                 return edsp::make_unexpected(error::empty);
             } else {
-                if (!meta::is_null(env_p)) {
+                if (env_p != nullptr) {
                     return env_p;
                 } else {
                     return edsp::make_unexpected(error::not_found);
@@ -209,7 +210,8 @@ namespace edsp { inline namespace core {
             if (meta::empty(variable_name)) {
                 return error::empty;
             } else {
-                const auto result = setenv(meta::data(variable_name), meta::data(variable_value), overwrite);
+                const auto result = setenv(std::string(variable_name.data(), variable_name.size()).c_str(),
+                                           std::string(variable_value.data(), variable_value.size()).c_str(), overwrite);
                 return static_cast<error>(result);
             }
         }
@@ -221,7 +223,7 @@ namespace edsp { inline namespace core {
         */
         static bool exist(const edsp::string_view& variable_name) noexcept {
             std::lock_guard<std::mutex> lock(mutex());
-            return !meta::is_null(std::getenv(meta::data(variable_name)));
+            return std::getenv(std::string(variable_name.data(), variable_name.size()).c_str()) != nullptr;
         }
 
     private:
-- 
2.43.0


From 87572740fa0773000de1655397f8ef15f81a490b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:16:12 +0000
Subject: [PATCH 26/34] fix: get_environment returns an empty text for an unset
 variable

---
 bindings/python/src/core.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/python/src/core.cpp b/bindings/python/src/core.cpp
index 18de363..1e24e99 100644
--- a/bindings/python/src/core.cpp
+++ b/bindings/python/src/core.cpp
@@ -27,7 +27,7 @@
 bp::tuple get_environment_python(const char* tag) {
     int error = 0;
     const char* data = get_environment(tag, &error);
-    return bp::make_tuple(std::string(data), error);
+    return bp::make_tuple(std::string(data != nullptr ? data : ""), error);
 }
 
 void add_core_package() {
-- 
2.43.0


From 26511867c9ec4dfa08e024b954bdf9f767cd8a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:19:17 +0000
Subject: [PATCH 27/34] fix: is_odd recognises negative odd numbers

---
 include/edsp/math/numeric.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/edsp/math/numeric.hpp b/include/edsp/math/numeric.hpp
index f48b79b..ed21359 100644
--- a/include/edsp/math/numeric.hpp
+++ b/include/edsp/math/numeric.hpp
@@ -47,7 +47,7 @@ namespace edsp { inline namespace math {
      */
     template <typename T>
     constexpr bool is_odd(T x) {
-        return (x % 2) == 1;
+        return (x % 2) != 0;
     }
 
     /**
-- 
2.43.0


From 6e877cf6d79e7e72fd0b42c07d1a0ca4fb83480a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:19:17 +0000
Subject: [PATCH 28/34] fix: is_prime accepts primes above three and rejects
 negative numbers

---
 include/edsp/math/numeric.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/edsp/math/numeric.hpp b/include/edsp/math/numeric.hpp
index ed21359..96a607f 100644
--- a/include/edsp/math/numeric.hpp
+++ b/include/edsp/math/numeric.hpp
@@ -128,6 +128,8 @@ namespace edsp { inline namespace math {
      */
     template <typename T>
     constexpr bool is_prime(T x) {
+        if (is_negative(x))
+            return 0;
         auto n = static_cast<std::uint64_t>(x);
         if (n <= 1)
             return 0;
@@ -143,7 +145,7 @@ namespace edsp { inline namespace math {
                 return 0;
             r += 6;
         }
-        return false;
+        return true;
     }
 
     /**
-- 
2.43.0


From af95797db1190e799495418a38cdcd459d10d6d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:19:17 +0000
Subject: [PATCH 29/34] fix: power of two helpers cover 64-bit and negative
 arguments

---
 include/edsp/math/numeric.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/edsp/math/numeric.hpp b/include/edsp/math/numeric.hpp
index 96a607f..55854f3 100644
--- a/include/edsp/math/numeric.hpp
+++ b/include/edsp/math/numeric.hpp
@@ -67,8 +67,8 @@ namespace edsp { inline namespace math {
      */
     template <typename T>
     constexpr bool is_power_two(T x) {
-        const auto tmp = static_cast<std::int32_t>(x);
-        return tmp != 0 && !(tmp & (tmp - 1));
+        const auto tmp = static_cast<std::int64_t>(x);
+        return tmp > 0 && !(tmp & (tmp - 1));
     }
 
     /**
@@ -170,13 +170,14 @@ namespace edsp { inline namespace math {
         } else if (is_power_two(x)) {
             return x;
         } else {
-            auto _x = static_cast<int32_t>(x);
+            auto _x = static_cast<std::int64_t>(x);
             --_x;
             _x |= _x >> 1;
             _x |= _x >> 2;
             _x |= _x >> 4;
             _x |= _x >> 8;
             _x |= _x >> 16;
+            _x |= _x >> 32;
             return static_cast<T>(_x + 1);
         }
     }
-- 
2.43.0


From 49200638426405fbe73481f85162cc9b8bbad4a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:09 +0000
Subject: [PATCH 30/34] fix: character functions are called on unsigned
 character values

---
 include/edsp/string/to_lower.hpp | 2 +-
 include/edsp/string/to_upper.hpp | 2 +-
 include/edsp/string/trim.hpp     | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/edsp/string/to_lower.hpp b/include/edsp/string/to_lower.hpp
index 9dc97f7..d990727 100644
--- a/include/edsp/string/to_lower.hpp
+++ b/include/edsp/string/to_lower.hpp
@@ -36,7 +36,7 @@ namespace edsp { namespace string {
      */
     template <typename InputIt, typename OutputIt>
     constexpr void tolower(InputIt first, InputIt last, OutputIt d_first) {
-        std::transform(first, last, d_first, [](const auto element) { return std::tolower(element); });
+        std::transform(first, last, d_first, [](const auto element) { return std::tolower(static_cast<unsigned char>(element)); });
     }
 
 }} // namespace edsp::string
diff --git a/include/edsp/string/to_upper.hpp b/include/edsp/string/to_upper.hpp
index 0149fe0..264035d 100644
--- a/include/edsp/string/to_upper.hpp
+++ b/include/edsp/string/to_upper.hpp
@@ -38,7 +38,7 @@ namespace edsp { namespace string {
      */
     template <typename InputIt, typename OutputIt>
     constexpr void toupper(InputIt first, InputIt last, OutputIt d_first) {
-        std::transform(first, last, d_first, [](const auto element) { return std::toupper(element); });
+        std::transform(first, last, d_first, [](const auto element) { return std::toupper(static_cast<unsigned char>(element)); });
     }
 
 }} // namespace edsp::string
diff --git a/include/edsp/string/trim.hpp b/include/edsp/string/trim.hpp
index 16fffa9..bf0ea1a 100644
--- a/include/edsp/string/trim.hpp
+++ b/include/edsp/string/trim.hpp
@@ -36,7 +36,7 @@ namespace edsp { namespace string {
     inline void ltrim(String& str) {
         str.erase(
             std::begin(str), std::find_if(std::begin(str), std::end(str),
-                                [](auto character) { return !std::isspace(character); }));
+                                [](auto character) { return !std::isspace(static_cast<unsigned char>(character)); }));
     }
 
     /**
@@ -47,7 +47,7 @@ namespace edsp { namespace string {
     inline void rtrim(String& str) {
         str.erase(
             std::find_if(std::rbegin(str), std::rend(str),
-                         [](auto character) { return !std::isspace(character); })
+                         [](auto character) { return !std::isspace(static_cast<unsigned char>(character)); })
                 .base(), std::end(str));
     }
 
-- 
2.43.0


From 7875648b2875eca9ebec5ff0b4a1fe9e17d77bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:01 +0000
Subject: [PATCH 31/34] fix: ring buffers: indexed access and data() compile;
 at() is checked

---
 include/edsp/types/fixed_ring_buffer.hpp | 18 +++++++++++++-----
 include/edsp/types/ring_buffer.hpp       | 18 +++++++++++++-----
 2 files changed, 26 insertions(+), 10 deletions(-)

diff --git a/include/edsp/types/fixed_ring_buffer.hpp b/include/edsp/types/fixed_ring_buffer.hpp
index 726b8c1..f1af058 100644
--- a/include/edsp/types/fixed_ring_buffer.hpp
+++ b/include/edsp/types/fixed_ring_buffer.hpp
@@ -25,7 +25,9 @@
 
 #include <edsp/meta/unused.hpp>
 #include <edsp/types/ring_span.hpp>
+#include <algorithm>
 #include <array>
+#include <stdexcept>
 
 namespace edsp { inline namespace types {
 
@@ -266,7 +268,7 @@ namespace edsp { inline namespace types {
          *  see at().)
          */
         reference operator[](std::size_t i) {
-            return ring_[i];
+            return *(ring_.begin() + static_cast<int>(i));
         }
 
         /**
@@ -281,7 +283,7 @@ namespace edsp { inline namespace types {
          *  see at().)
          */
         const_reference operator[](std::size_t i) const {
-            return ring_[i];
+            return *(ring_.begin() + static_cast<int>(i));
         }
 
         /**
@@ -296,7 +298,10 @@ namespace edsp { inline namespace types {
          *  function throws out_of_range if the check fails.
          */
         reference at(std::size_t i) {
-            return ring_.at(i);
+            if (i >= ring_.size()) {
+                throw std::out_of_range("fixed_ring_buffer::at");
+            }
+            return (*this)[i];
         }
 
         /**
@@ -311,7 +316,10 @@ namespace edsp { inline namespace types {
          *  function throws out_of_range if the check fails.
          */
         const_reference at(std::size_t i) const {
-            return ring_.at(i);
+            if (i >= ring_.size()) {
+                throw std::out_of_range("fixed_ring_buffer::at");
+            }
+            return (*this)[i];
         }
 
         /**
@@ -426,7 +434,7 @@ namespace edsp { inline namespace types {
          * @brief Returns a const pointer to the underlying data of the internal buffer
          * @return Array holding the internal data.
          */
-        const_pointer* data() const {
+        const value_type* data() const {
             return buffer_.data();
         }
 
diff --git a/include/edsp/types/ring_buffer.hpp b/include/edsp/types/ring_buffer.hpp
index f3e6da6..215ca44 100644
--- a/include/edsp/types/ring_buffer.hpp
+++ b/include/edsp/types/ring_buffer.hpp
@@ -28,6 +28,8 @@
 
 #include <edsp/meta/unused.hpp>
 #include <edsp/types/ring_span.hpp>
+#include <algorithm>
+#include <stdexcept>
 #include <vector>
 
 namespace edsp { inline namespace types {
@@ -304,7 +306,7 @@ namespace edsp { inline namespace types {
          *  see at().)
          */
         reference operator[](std::size_t i) {
-            return ring_[i];
+            return *(ring_.begin() + static_cast<int>(i));
         }
 
         /**
@@ -319,7 +321,7 @@ namespace edsp { inline namespace types {
          *  see at().)
          */
         const_reference operator[](std::size_t i) const {
-            return ring_[i];
+            return *(ring_.begin() + static_cast<int>(i));
         }
 
         /**
@@ -334,7 +336,10 @@ namespace edsp { inline namespace types {
          *  function throws out_of_range if the check fails.
          */
         reference at(std::size_t i) {
-            return ring_.at(i);
+            if (i >= ring_.size()) {
+                throw std::out_of_range("ring_buffer::at");
+            }
+            return (*this)[i];
         }
 
         /**
@@ -349,7 +354,10 @@ namespace edsp { inline namespace types {
          *  function throws out_of_range if the check fails.
          */
         const_reference at(std::size_t i) const {
-            return ring_.at(i);
+            if (i >= ring_.size()) {
+                throw std::out_of_range("ring_buffer::at");
+            }
+            return (*this)[i];
         }
 
         /**
@@ -463,7 +471,7 @@ namespace edsp { inline namespace types {
          * @brief Returns a const pointer to the underlying data of the internal buffer
          * @return Array holding the internal data.
          */
-        const_pointer* data() const {
+        const value_type* data() const {
             return buffer_.data();
         }
 
-- 
2.43.0


From 4ce5f1b7d403ea5618692e69412a0ced1ec35351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:13 +0000
Subject: [PATCH 32/34] fix: ring buffers: copies own their storage

---
 include/edsp/types/fixed_ring_buffer.hpp | 27 +++++++++++++++++++-----
 include/edsp/types/ring_buffer.hpp       | 20 +++++++++++++++---
 2 files changed, 39 insertions(+), 8 deletions(-)

diff --git a/include/edsp/types/fixed_ring_buffer.hpp b/include/edsp/types/fixed_ring_buffer.hpp
index f1af058..5929fac 100644
--- a/include/edsp/types/fixed_ring_buffer.hpp
+++ b/include/edsp/types/fixed_ring_buffer.hpp
@@ -60,11 +60,28 @@ namespace edsp { inline namespace types {
         typedef std::ptrdiff_t difference_type;
         typedef std::array<T, MaxSize> container_type;
 
-        fixed_ring_buffer()                             = default;
-        fixed_ring_buffer(const fixed_ring_buffer&)     = default;
-        fixed_ring_buffer(fixed_ring_buffer&&) noexcept = default;
-        fixed_ring_buffer& operator=(const fixed_ring_buffer&) = default;
-        fixed_ring_buffer& operator=(fixed_ring_buffer&&) noexcept = default;
+        fixed_ring_buffer() = default;
+
+        /**
+         *  @brief Creates a %fixed_ring_buffer with the same elements as another one.
+         *  @param other The %fixed_ring_buffer to copy.
+         */
+        fixed_ring_buffer(const fixed_ring_buffer& other)
+            : ring_(std::begin(buffer_), std::end(buffer_), std::begin(buffer_), other.size()) {
+            std::copy(other.begin(), other.end(), begin());
+        }
+
+        /**
+         *  @brief Replaces the elements with those of another %fixed_ring_buffer.
+         *  @param other The %fixed_ring_buffer to copy.
+         */
+        fixed_ring_buffer& operator=(const fixed_ring_buffer& other) {
+            if (this != &other) {
+                ring_ = edsp::ring_span<T>(std::begin(buffer_), std::end(buffer_), std::begin(buffer_), other.size());
+                std::copy(other.begin(), other.end(), begin());
+            }
+            return *this;
+        }
 
         /**
          *  @brief Default destructor.
diff --git a/include/edsp/types/ring_buffer.hpp b/include/edsp/types/ring_buffer.hpp
index 215ca44..0a85dce 100644
--- a/include/edsp/types/ring_buffer.hpp
+++ b/include/edsp/types/ring_buffer.hpp
@@ -47,7 +47,6 @@ namespace edsp { inline namespace types {
      * @tparam T  Type of element.
      * @tparam Allocator  Allocator type, defaults to std::allocator<T>.
      */
-    // TODO: Check why the default copy constructor is disabled!
     template <typename T, typename Allocator = std::allocator<T>>
     class ring_buffer {
     public:
@@ -65,11 +64,26 @@ namespace edsp { inline namespace types {
         typedef std::vector<T, Allocator> container_type;
 
         constexpr ring_buffer()                       = default;
-        constexpr ring_buffer(const ring_buffer&)     = default;
         constexpr ring_buffer(ring_buffer&&) noexcept = default;
-        constexpr ring_buffer& operator=(const ring_buffer&) = default;
         constexpr ring_buffer& operator=(ring_buffer&&) noexcept = default;
 
+        /**
+         *  @brief Creates a %ring_buffer with the same capacity and elements as another one.
+         *  @param other The %ring_buffer to copy.
+         */
+        ring_buffer(const ring_buffer& other) : buffer_(other.capacity()) {
+            ring_ = edsp::ring_span<T>(std::begin(buffer_), std::end(buffer_), std::begin(buffer_), other.size());
+            std::copy(other.begin(), other.end(), begin());
+        }
+
+        /**
+         *  @brief Replaces the capacity and elements with those of another %ring_buffer.
+         *  @param other The %ring_buffer to copy.
+         */
+        ring_buffer& operator=(const ring_buffer& other) {
+            return *this = ring_buffer(other);
+        }
+
         /**
          *  @brief Creates a %ring_buffer with default constructed elements.
          *  @param N The number of elements to initially create.
-- 
2.43.0


From 6649977ed542eae00f8f18bf1ba119039d7ee445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:13 +0000
Subject: [PATCH 33/34] fix: moving filters: reset and resize start a fresh
 window

---
 include/edsp/filter/moving_average_filter.hpp | 5 +++--
 include/edsp/filter/moving_median_filter.hpp  | 4 ++--
 include/edsp/filter/moving_rms_filter.hpp     | 5 +++--
 3 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/include/edsp/filter/moving_average_filter.hpp b/include/edsp/filter/moving_average_filter.hpp
index 1df4456..8f94aa0 100644
--- a/include/edsp/filter/moving_average_filter.hpp
+++ b/include/edsp/filter/moving_average_filter.hpp
@@ -105,7 +105,7 @@ namespace edsp { namespace filter {
 
     template <typename T, typename Allocator>
     void moving_average<T, Allocator>::reset() {
-        window_.clear();
+        resize(size());
     }
 
     template <typename T, typename Allocator>
@@ -116,7 +116,8 @@ namespace edsp { namespace filter {
 
     template <typename T, typename Allocator>
     void moving_average<T, Allocator>::resize(size_type N) {
-        window_.resize(N);
+        window_ = edsp::ring_buffer<T, Allocator>(N, T());
+        accumulated_ = T();
     }
 
     template <typename T, typename Allocator>
diff --git a/include/edsp/filter/moving_median_filter.hpp b/include/edsp/filter/moving_median_filter.hpp
index a8251b7..74147a2 100644
--- a/include/edsp/filter/moving_median_filter.hpp
+++ b/include/edsp/filter/moving_median_filter.hpp
@@ -100,7 +100,7 @@ namespace edsp { namespace filter {
 
     template <typename T, typename Allocator>
     void moving_median<T, Allocator>::reset() {
-        window_.clear();
+        resize(size());
     }
 
     template <typename T, typename Allocator>
@@ -111,7 +111,7 @@ namespace edsp { namespace filter {
 
     template <typename T, typename Allocator>
     void moving_median<T, Allocator>::resize(size_type N) {
-        window_.resize(N);
+        window_ = edsp::ring_buffer<T, Allocator>(N, T());
     }
 
     template <typename T, typename Allocator>
diff --git a/include/edsp/filter/moving_rms_filter.hpp b/include/edsp/filter/moving_rms_filter.hpp
index 92dde0f..1801246 100644
--- a/include/edsp/filter/moving_rms_filter.hpp
+++ b/include/edsp/filter/moving_rms_filter.hpp
@@ -106,7 +106,7 @@ namespace edsp { namespace filter {
 
     template <typename T, typename Allocator>
     void moving_rms<T, Allocator>::reset() {
-        window_.clear();
+        resize(size());
     }
 
     template <typename T, typename Allocator>
@@ -117,7 +117,8 @@ namespace edsp { namespace filter {
 
     template <typename T, typename Allocator>
     void moving_rms<T, Allocator>::resize(size_type N) {
-        window_.resize(N);
+        window_ = edsp::ring_buffer<T, Allocator>(N, T());
+        accumulated_ = T();
     }
 
     template <typename T, typename Allocator>
-- 
2.43.0


From bcdd6d3859403a034ad2b0dbafbde85b87950d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:54 +0000
Subject: [PATCH 34/34] fix: median: return the middle order statistic

---
 include/edsp/statistics/median.hpp | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/include/edsp/statistics/median.hpp b/include/edsp/statistics/median.hpp
index 2da6ad5..044b0d2 100644
--- a/include/edsp/statistics/median.hpp
+++ b/include/edsp/statistics/median.hpp
@@ -23,9 +23,8 @@
 #define EDSP_STATISTICAL_MEDIANT_HPP
 
 #include <edsp/meta/iterator.hpp>
-#include <edsp/meta/unused.hpp>
 #include <algorithm>
-#include <numeric>
+#include <vector>
 
 namespace edsp { namespace statistics {
 
@@ -41,11 +40,22 @@ namespace edsp { namespace statistics {
      * @returns The median of the input range.
      */
     template <typename ForwardIt>
-    constexpr meta::value_type_t<ForwardIt> median(ForwardIt first, ForwardIt last) {
-        // TODO: implement the median: do not use sorting algorithm.
-        meta::unused(first);
-        meta::unused(last);
-        return 0;
+    meta::value_type_t<ForwardIt> median(ForwardIt first, ForwardIt last) {
+        using value_type = meta::value_type_t<ForwardIt>;
+        std::vector<value_type> values(first, last);
+        if (values.empty()) {
+            return value_type();
+        }
+
+        const auto middle = values.begin() + values.size() / 2;
+        std::nth_element(values.begin(), middle, values.end());
+        const auto upper = *middle;
+        if (values.size() % 2 == 1) {
+            return upper;
+        }
+
+        std::nth_element(values.begin(), middle - 1, values.end());
+        return (*(middle - 1) + upper) / 2;
     }
 
 }} // namespace edsp::statistics
-- 
2.43.0

