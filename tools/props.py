#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (the single place where the property texts are edited)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})
I = "include/edsp/"

prop("A01", "Sample-wise operations compute the documented map on every element",
 "For every signal of any length (including empty) and every sample value, scaling, scaling with clipping, clipping, ceiling, floor, rounding half away from zero, truncation and rectification write, at every output position, exactly the documented function of the input sample at the same position; normalisation divides every sample by the largest absolute sample, and RMS normalisation by the RMS value. The result is the same when the destination is the source buffer, the input is otherwise left unchanged, and nothing outside the destination range is written.",
 ["inputs"], "every length n >= 0, every finite real sample, every factor and every limits pair min <= max, for disjoint and for in-place destinations",
 "The Python tests draw random samples from [0,1) of a fixed range of lengths and never run in place, at the clip limits, on negative samples or on empty input.",
 [I+"algorithm/amplifier.hpp", I+"algorithm/clipper.hpp", I+"algorithm/ceil.hpp", I+"algorithm/floor.hpp", I+"algorithm/round.hpp", I+"algorithm/fix.hpp", I+"algorithm/rectify.hpp", I+"algorithm/normalize.hpp", "bindings/c/src/algorithm.c"],
 [("std::transform with a per-sample lambda", I+"algorithm/amplifier.hpp"), ("max-abs denominator", I+"algorithm/normalize.hpp"), ("C entry points array_*", "bindings/c/src/algorithm.c")],
 observe=["output buffer of each call"])

prop("A02", "Concatenation, zero-padding and differencing lay the samples out exactly",
 "Concatenating two signals yields the first followed immediately by the second; padding copies the input and fills every remaining output position with zero; the first derivative yields the first sample followed by consecutive differences. Each writes every position of its output range, nothing else, and leaves its inputs unchanged, for all lengths including empty ones.",
 ["inputs"], "all pairs of lengths n, m >= 0 (output length >= input length for padding) and all sample values",
 "Tests use equal or fixed non-empty lengths and compare only the returned array, so a stray write or a wrong boundary at length 0 or 1 goes unseen; the derivative is not compiled by any test.",
 [I+"algorithm/concatenate.hpp", I+"algorithm/padder.hpp", I+"algorithm/derivative.hpp", "bindings/c/src/algorithm.c"],
 [("two copies with an offset destination", I+"algorithm/concatenate.hpp"), ("copy then fill", I+"algorithm/padder.hpp"), ("adjacent difference", I+"algorithm/derivative.hpp")],
 observe=["output buffer"])

prop("A03", "Searches report the first matching position or a miss, exactly",
 "For every signal and value, linear search and index-of report the smallest index holding that value, or a miss exactly when no sample equals it, and membership agrees with them; binary search does the same on every non-decreasing signal; range equality holds exactly when the two ranges have the same length and equal samples everywhere. The silence test answers whether the mean square of the frame is below the threshold.",
 ["inputs"], "every length n >= 0, every sample and searched value; binary search over every sorted signal",
 "Tests search a handful of random arrays with mostly distinct elements; the first-of-several-duplicates rule, the empty range and the last-element miss cannot be settled by sampling.",
 [I+"algorithm/linear_search.hpp", I+"algorithm/indexof.hpp", I+"algorithm/binary_search.hpp", I+"algorithm/equal.hpp", I+"algorithm/silence.hpp", "bindings/c/src/algorithm.c"],
 [("std::find / lower_bound", I+"algorithm/binary_search.hpp"), ("index conversion and -1 on a miss", "bindings/c/src/algorithm.c")],
 observe=["returned index / flag"])

prop("A04", "Linear, logarithmic and auditory grids hit every point of their formula",
 "Asked for N >= 2 points between two limits, the linear grid's k-th point is x1 + k(x2-x1)/(N-1), the logarithmic grid's is ten to that power, and the k-th point of the mel, Bark, ERB and cent grids is the auditory-scale value of the k-th point of the linear hertz grid between the same limits; the first and last points are therefore the (mapped) limits. Exactly N positions are written.",
 ["inputs"], "every N >= 2 and every pair of limits (positive audible frequencies for the auditory grids)",
 "The tests compare a few sizes with numpy at a loose tolerance; an error that needs a particular N or limit order is missed.",
 [I+"algorithm/linspace.hpp", I+"algorithm/logspace.hpp", I+"auditory/melspace.hpp", I+"auditory/barkspace.hpp", I+"auditory/erbspace.hpp", I+"auditory/centspace.hpp", "bindings/c/src/algorithm.c"],
 [("accumulated increment", I+"algorithm/linspace.hpp"), ("scale, linspace, inverse scale", I+"auditory/melspace.hpp")],
 observe=["output buffer"])

prop("B01", "Level, power and angle conversions follow their formulas and invert",
 "Magnitude/decibel (20 log10), power/decibel (10 log10) and degree/radian conversions equal their mathematical definition for every value in their domain, and each pair of conversions is mutually inverse.",
 ["inputs"], "every real value (positive for logarithmic conversions)",
 "Tests check random values in [0,1) in one direction; inverse-ness and the rest of the domain are not sampled.",
 [I+"converter/mag2db.hpp", I+"converter/db2mag.hpp", I+"converter/pow2db.hpp", I+"converter/db2pow.hpp", I+"converter/deg2rad.hpp", I+"converter/rad2deg.hpp", "bindings/c/src/converter.cpp"],
 [("closed-form scalar conversions", I+"converter/mag2db.hpp")], observe=["returned value"])

prop("B02", "Auditory scales follow their formulas and are inverse to hertz",
 "Hertz to mel, Bark (Traunmueller, with its low and high corrections), ERB-rate and cent conversions equal their published formulas at every frequency of their domain, and converting back returns the original frequency across all pieces of the piecewise scales.",
 ["inputs"], "every positive frequency (every frequency for mel; every frequency in the audible domain for Bark and ERB; frequencies whose cent value is positive, above about 16.35 Hz, for cent)",
 "Tests round-trip random frequencies; the piece boundaries of the Bark scale are single points a sample never hits.",
 [I+"auditory/converter/hertz2mel.hpp", I+"auditory/converter/mel2hertz.hpp", I+"auditory/converter/hertz2bark.hpp", I+"auditory/converter/bark2hertz.hpp", I+"auditory/converter/hertz2erb.hpp", I+"auditory/converter/erb2hertz.hpp", I+"auditory/converter/hertz2cent.hpp", I+"auditory/converter/cent2hertz.hpp"],
 [("piecewise correction below 2 and above 20.1 Bark", I+"auditory/converter/hertz2bark.hpp")], observe=["returned value"])

prop("B03", "Complex/real conversions keep every sample and its position",
 "Splitting a complex signal into real parts returns the real part of each sample in order, building a complex signal from reals sets the given real (and imaginary) parts with zero imaginary part otherwise; converting reals to complex and back is the identity. Exactly the destination range is written for every length.",
 ["inputs"], "every length n >= 0, every sample value",
 "The tests cover one random array per function and cannot see writes past the end.",
 [I+"converter/complex2real.hpp", I+"converter/real2complex.hpp"],
 [("std::transform over complex samples", I+"converter/complex2real.hpp")], observe=["output buffer"])

prop("C01", "Means, moments and norms equal their mathematical definitions",
 "For every non-empty signal the arithmetic, geometric, harmonic and generalised means, the central moments, variance, standard deviation, skewness, kurtosis and Euclidean norm equal their mathematical definitions over all samples (population normalisation), whatever the length.",
 ["inputs"], "every length n >= 1 and every sample value in the domain of the formula (positive for geometric and harmonic means; non-constant signals for standardised moments)",
 "Tests compare random arrays with scipy at one tolerance; a dependence on length parity, sign or order is not excluded.",
 [I+"statistics/mean.hpp", I+"statistics/geometric_mean.hpp", I+"statistics/harmonic_mean.hpp", I+"statistics/generalized_mean.hpp", I+"statistics/moment.hpp", I+"statistics/variance.hpp", I+"statistics/skewness.hpp", I+"statistics/kurtosis.hpp", I+"statistics/norm.hpp", "bindings/c/src/statistics.c"],
 [("accumulate with per-sample lambda then normalise", I+"statistics/moment.hpp"), ("moment order dispatch", "bindings/c/src/statistics.c")], observe=["returned value"])

prop("C02", "Extremes and peaks return the true extreme and its first position",
 "Over every non-empty signal, maximum, minimum, maximum-absolute and minimum-absolute return a value that some sample attains and no sample exceeds (or undercuts); the peak functions return that sample (for the absolute peak, the sample of largest magnitude) together with the first index where it occurs; peak-to-peak is maximum minus minimum.",
 ["inputs"], "every length n >= 1, every sample value, ties included",
 "Tests compare random, almost surely distinct positive samples, so ties, negative signals and single-element signals are not settled.",
 [I+"statistics/max.hpp", I+"statistics/min.hpp", I+"statistics/peak.hpp", I+"converter/peak2peak.hpp", "bindings/c/src/statistics.c"],
 [("std::max_element / min_element with magnitude comparator", I+"statistics/max.hpp")], observe=["returned value and index"])

prop("C03", "The median is the middle order statistic",
 "For every non-empty signal the median is the middle sample of the sorted signal, or the mean of the two middle samples when the length is even, and computing it leaves the signal unchanged.",
 ["inputs"], "every length n >= 1, every sample value",
 "No test exists for the median.",
 [I+"statistics/median.hpp", I+"filter/moving_median_filter.hpp"], [("median", I+"statistics/median.hpp")], observe=["returned value"])

prop("D01", "Energy, power, RMS and level features equal their definitions",
 "Over every signal, energy is the sum of squares, power is energy over length, RMS its square root, root-sum-of-squares the square root of energy, the equivalent level ten times the decimal logarithm of power, and peak-to-RMS the largest absolute sample over the RMS; duration is length over sample rate and effective duration counts exactly the samples whose magnitude exceeds the relative threshold.",
 ["inputs"], "every length n >= 1 and every sample value (non-silent where a logarithm or quotient needs it)",
 "Random positive samples compared with numpy at one size cannot settle silent, negative or single-sample signals, and a constant offset hides in the tolerance for long inputs.",
 [I+"feature/temporal/energy.hpp", I+"feature/temporal/power.hpp", I+"feature/temporal/rms.hpp", I+"feature/temporal/rssq.hpp", I+"feature/temporal/leq.hpp", I+"feature/temporal/duration.hpp", I+"converter/peak2rms.hpp"],
 [("inner product with itself", I+"feature/temporal/energy.hpp")], observe=["returned value"])

prop("D02", "Difference functions, zero crossings and SNR equal their definitions",
 "The average magnitude and square difference functions give, for every lag, the summed absolute (squared) difference of the signal with itself shifted by that lag, over the signal length; the zero-crossing rate is the number of adjacent sign changes over n-1; the signal-to-noise ratio is the level of signal variance over the variance of the difference of the two signals. Outputs cover exactly one value per lag.",
 ["inputs"], "every length n >= 1 (n >= 2 for the rate), every lag, every sample value including zeros",
 "Tests use random positive samples, for which there are no sign changes at all, and one size.",
 [I+"feature/temporal/amdf.hpp", I+"feature/temporal/asdf.hpp", I+"feature/temporal/azcr.hpp", I+"feature/temporal/snr.hpp", I+"math/numeric.hpp"],
 [("nested lag loop", I+"feature/temporal/amdf.hpp"), ("sign comparison of neighbours", I+"feature/temporal/azcr.hpp")], observe=["output buffer / returned value"])

prop("D03", "Centroid, spread, slope and decrease features equal their formulas",
 "Centroid and weighted centroid are the weighted mean of the index (or given frequency), spread is the square root of the weighted variance around it, slope is the normalised linear-regression coefficient of amplitude over frequency, and decrease is the normalised sum of amplitude differences to the first bin over the bin index; the values are finite whenever the formula's denominators are non-zero.",
 ["inputs"], "every spectrum length n >= 2 and every amplitude and frequency value with non-zero denominators",
 "Several of these are exercised by no stable test and the rest on random positive spectra only.",
 [I+"feature/statistics/centroid.hpp", I+"feature/statistics/spread.hpp", I+"feature/statistics/slope.hpp", I+"feature/statistics/decrease.hpp", I+"feature/spectral/spectral_centroid.hpp", I+"feature/spectral/spectral_spread.hpp", I+"feature/spectral/spectral_slope.hpp", I+"feature/spectral/spectral_decrease.hpp"],
 [("single-pass weighted sums", I+"feature/statistics/centroid.hpp")], observe=["returned value"])

prop("D04", "Crest, flatness, entropy, flux, variation and irregularity equal their formulas",
 "Crest is the largest magnitude over the sum of magnitudes, flatness the geometric over the arithmetic mean, entropy the Shannon entropy over the logarithm of the length, flux the summed distance (Manhattan, squared Euclidean or logarithmic) between the two sum-normalised spectra, variation one minus the inner product of the two spectra over the product of the square roots of their sums, and irregularity the summed squared difference of adjoining bins over the summed squares of all bins but the last, for every spectrum in the formula's domain; no feature modifies its inputs.",
 ["inputs"], "every spectrum length n >= 1 (n >= 2 for irregularity and entropy) and every positive spectrum",
 "Stable tests sample random spectra for some of the features and do not exercise flux or irregularity.",
 [I+"feature/statistics/crest.hpp", I+"feature/statistics/flatness.hpp", I+"feature/statistics/entropy.hpp", I+"feature/statistics/flux.hpp", I+"feature/statistics/variation.hpp", I+"feature/spectral/spectral_entropy.hpp", I+"feature/spectral/spectral_irregularity.hpp", I+"feature/spectral/spectral_flux.hpp"],
 [("accumulate over normalised bins", I+"feature/statistics/flux.hpp")], observe=["returned value"])

prop("D05", "The roll-off index is where cumulative energy first exceeds the percentage",
 "For every signal and percentage, the roll-off is the relative position of the first sample at which the cumulative energy exceeds the given fraction of the total energy, and of the last sample when it never does.",
 ["inputs"], "every length n >= 1, every sample value and every percentage in [0,1]",
 "The tests sample one percentage on random spectra; the boundary cases (percentage 0 and 1, silent prefix) are points.",
 [I+"feature/statistics/rolloff.hpp", I+"feature/spectral/spectral_rolloff.hpp"],
 [("cumulative energy loop with early exit", I+"feature/statistics/rolloff.hpp")], observe=["returned value"])

prop("E01", "Every window function equals its formula at every position",
 "Each window (rectangular, boxcar, triangular, Bartlett, Hann, Hamming, Blackman, Blackman-Harris, Blackman-Nuttall, flat-top, Welch) writes at position n the value of its published formula for the requested length, writes exactly that many values, and does so for every length of at least two (one for rectangular windows), even or odd.",
 ["inputs"], "every length N >= 2 (N >= 1 for rectangular and boxcar) and every position 0 <= n < N",
 "Tests compare a few random sizes per window; a formula can be wrong for one residue of N only (as the triangular window's is).",
 [I+"windowing/"+w+".hpp" for w in ["rectangular","boxcar","triangular","bartlett","hanning","hamming","blackman","blackman_harris","blackman_nuttall","flattop","welch"]]+["bindings/c/src/windowing.c"],
 [("closed-form cosine sums", I+"windowing/blackman.hpp"), ("run-time dispatch by window type", I+"windowing.hpp")], observe=["output buffer"])

prop("E02", "Windows are symmetric, bounded and peak at their centre value",
 "Every window is symmetric (position n equals position N-1-n), never exceeds one (flat-top: the sum of its published coefficients, 1 + 3e-9), every window but flat-top is never negative, and the centre of an odd-length window holds that peak value, for every length of at least two.",
 ["inputs"], "every length N >= 2 and every position",
 "Symmetry at all lengths cannot be established by comparing a few sizes.",
 [I+"windowing/"+w+".hpp" for w in ["triangular","bartlett","hanning","hamming","blackman","blackman_harris","blackman_nuttall","flattop","welch"]],
 [("cosine terms in multiples of the fundamental", I+"windowing/hanning.hpp")], observe=["output buffer"])

prop("F01", "Oscillators emit the documented waveform sample by sample",
 "Successive samples of the sinusoidal, sawtooth, square and triangular oscillators are the documented periodic waveform of amplitude A at the requested frequency and sample rate (initial phase for the sinusoid; duty or width where applicable), for every number of samples already drawn; reset restarts the waveform at its initial phase.",
 ["histories", "inputs"], "every configuration (amplitude, rate, frequency, phase, duty/width) and every number of samples drawn since construction or reset, including setter calls in between",
 "The tests compare one second of one configuration; parameter changes, reset and long runs are not exercised.",
 [I+"oscillators/sinusoidal.hpp", I+"oscillators/square.hpp", I+"oscillators/sawtooth.hpp", I+"oscillators/triangular.hpp"],
 [("phase accumulator advanced per sample", I+"oscillators/sinusoidal.hpp")],
 state=[("timestamp / phase accumulator", "time of the next sample", I+"oscillators/sinusoidal.hpp")], observe=["returned sample"])

prop("F02", "Envelope followers obey their difference equation and stay within bounds",
 "The attack-release follower moves its output towards the rectified input with the attack coefficient when rising and the release coefficient when falling, so its output always lies between its previous value and the input magnitude; the ADSR envelope rises, decays to the sustain level, holds and releases as documented, always within [0,1]; reset returns the follower to its initial state and the accessors read back the settings. (Keying the ADSR on again while it is still held is left unspecified.)",
 ["histories", "inputs"], "every sequence of inputs, gate changes and parameter settings",
 "No test compiles the envelope headers.",
 [I+"experimental/envelope/ar.hpp", I+"experimental/envelope/adsr.hpp"],
 [("one-pole smoothing per sample", I+"experimental/envelope/ar.hpp"), ("state machine per sample", I+"experimental/envelope/adsr.hpp")],
 state=[("state / output level", "current segment and level", I+"experimental/envelope/adsr.hpp")], observe=["returned sample"])

prop("G01", "A biquad realises its difference equation from any state",
 "From any coefficients and any internal state, one filter step returns y = b0 x + d1 and updates the two delays exactly as the transposed direct form prescribes with coefficients normalised by a0; filtering a block gives the same samples and final state as stepping through it one by one, in place or not, however the signal is split into blocks, and reset returns to the zero state.",
 ["histories", "inputs"], "every coefficient set with a0 != 0, every state, every block length and split",
 "Tests run a few designs over random signals from the zero state in one block.",
 [I+"filter/biquad.hpp"], [("transposed direct form II state update", I+"filter/biquad.hpp")],
 state=[("w0, w1", "the two delay registers", I+"filter/biquad.hpp")], observe=["returned samples", "coefficient accessors"])

prop("G02", "A biquad cascade is the composition of its sections",
 "The output of a cascade for each sample is the result of passing the sample through every stored section in order, each keeping its own state; block filtering equals sample-by-sample filtering, adding a section appends it and counts it, and clearing or resetting affects all sections.",
 ["histories", "inputs"], "every number of sections up to capacity, every coefficient and state, every block length",
 "Tests use fixed designs from the zero state only.",
 [I+"filter/biquad_cascade.hpp"], [("loop over sections per sample", I+"filter/biquad_cascade.hpp")],
 state=[("sections", "stored filters with their delays", I+"filter/biquad_cascade.hpp")], observe=["returned samples", "size"])

prop("G03", "RBJ and Zoelzer designs have the published coefficients and exact gains",
 "For every cutoff strictly between zero and half the sample rate, every positive Q and every gain, each cookbook design (low-pass, high-pass, band-pass, all-pass, shelves) produces the published biquad coefficients; consequently low-pass filters have unit gain at DC and zero at Nyquist, high-pass the reverse, band-pass zero at both, all-pass unit magnitude, and shelves exactly the requested gain on their shelf and unit gain on the other side.",
 ["inputs"], "every sample rate, every cutoff in (0, fs/2), every Q > 0 and gain in dB, boost and cut",
 "Tests design a few filters and do not examine gains; the cut branches of the shelves are not exercised at all.",
 [I+"filter/internal/rbj_designer.hpp", I+"filter/internal/zoelzer_designer.hpp", I+"filter.hpp"],
 [("closed-form coefficient formulas", I+"filter/internal/rbj_designer.hpp")], observe=["coefficients of the returned filter"])

prop("G04", "Butterworth and Chebyshev designs place poles and map them bilinearly",
 "For every order, band type and band edges, the designed cascade has the analog prototype's poles on the documented circle or ellipse, mapped through the documented frequency transformation and bilinear map, with gain normalised to one at the reference frequency; all poles of the digital sections lie strictly inside the unit circle.",
 ["configurations", "inputs"], "every order, cutoff/band edge and ripple",
 "Tests compare a few orders and cutoffs with scipy.",
 [I+"filter/internal/butterworth_designer.hpp", I+"filter/internal/chebyshev_I_designer.hpp", I+"filter/internal/chebyshev_II_designer.hpp", I+"filter/internal/bilinear/layout_base.hpp", I+"filter/internal/bilinear/lowpass_transformer.hpp", I+"filter/internal/bilinear/highpass_transformer.hpp", I+"filter/internal/bilinear/bandpass_transformer.hpp", I+"filter/internal/bilinear/bandstop_transformer.hpp"],
 [("analog prototype, transform, bilinear map, gain normalisation", I+"filter/internal/butterworth_designer.hpp")], observe=["coefficients of the returned cascade"])

prop("G05", "Moving average and RMS filters summarise exactly the last N samples",
 "After any sequence of inputs, the moving average returns the mean, and the moving RMS the root mean square, of the last N inputs, counting as zero those before the first input; reset and resize start a fresh window, so nothing seen before influences later outputs.",
 ["histories", "inputs"], "every window length N >= 1, every input history and every interleaving of reset/resize with inputs",
 "Tests run one random block from the initial state and never reset or resize.",
 [I+"filter/moving_average_filter.hpp", I+"filter/moving_rms_filter.hpp", I+"filter/moving_median_filter.hpp"],
 [("running accumulator plus ring of the last N", I+"filter/moving_average_filter.hpp")],
 state=[("accumulated, window", "sum over the window and its samples", I+"filter/moving_average_filter.hpp")], observe=["returned samples"])

prop("H01", "Ring buffers behave as bounded first-in first-out queues",
 "After any sequence of operations a ring buffer holds, in order, the most recently pushed elements that have not been popped, never more than its capacity; pushing into a full buffer discards exactly the oldest element, popping removes the oldest (or newest) one, and size, emptiness, fullness, front, back and iteration agree with that sequence; copies, moves, clears and resizes preserve or reset it as documented.",
 ["histories"], "every capacity and every sequence of pushes, pops, clears, copies and moves, at every wrap-around position",
 "No test exercises the ring buffers.",
 [I+"types/ring_buffer.hpp", I+"types/fixed_ring_buffer.hpp", I+"thirdparty/nonstd/ring_span.hpp"],
 [("front index and size over a fixed array", I+"thirdparty/nonstd/ring_span.hpp")],
 state=[("front index, size, capacity", "position of the oldest element and number stored", I+"thirdparty/nonstd/ring_span.hpp")], observe=["front/back/size/iteration"])

prop("I01", "Transforms hand FFTW the right buffers and scale the inverse exactly",
 "For every length the real and complex forward and inverse transforms pass the caller's whole buffers to the FFT back end with the matching transform length and direction, and inverse scaling divides every sample by the transform length, so that an inverse after a forward transform is the identity; plans are created once per engine, reused, and destroyed exactly once.",
 ["inputs", "histories"], "every transform length and every sequence of calls on one engine, given that the FFT back end computes the transform it documents",
 "Tests compare random signals of a few sizes; buffer overruns, repeated use of one engine and plan release are invisible to them.",
 [I+"spectral/fft_engine.hpp", I+"spectral/dft.hpp", I+"spectral/internal/libfftw_impl.hpp", "bindings/c/src/spectral.c"],
 [("lazy plan creation", I+"spectral/internal/libfftw_impl.hpp"), ("scale by reciprocal length", I+"spectral/fft_engine.hpp")],
 state=[("plan handle", "owned back-end plan", I+"spectral/internal/libfftw_impl.hpp")], observe=["output buffer", "back-end calls"])

prop("I02", "Convolution, correlation, cepstrum, Hilbert and DCT assemble their pipeline",
 "Given a correct FFT back end, convolution and correlation zero-pad to a length that excludes wrap-around, multiply the spectra pointwise (conjugated for correlation) and return the leading samples, a correlation divided by the number of samples when biased and by the number of overlapping samples when unbiased; the cepstrum is the inverse transform of the log magnitude, the analytic signal doubles positive and zeroes negative frequencies, and the spectrum is the squared magnitude; every output position is written and no buffer is over-read.",
 ["inputs"], "every pair of signal lengths and every sample value",
 "Tests check one size per function; length parity (the Nyquist bin) and unequal lengths are not separated.",
 [I+"spectral/convolution.hpp", I+"spectral/correlation.hpp", I+"spectral/cepstrum.hpp", I+"spectral/hilbert.hpp", I+"spectral/spectrum.hpp", I+"spectral/dct.hpp", I+"spectral/hartley.hpp"],
 [("temporary buffers around the FFT engine", I+"spectral/convolution.hpp")], observe=["output buffer", "back-end calls"])

prop("J01", "Case mapping and trimming of text are exact for every string",
 "Upper- and lower-casing map every character independently and keep the length; trimming removes exactly the leading and/or trailing white space and keeps everything between, including for empty and all-blank strings.",
 ["inputs"], "every string of any length",
 "Tests use a handful of literals.",
 [I+"string/to_lower.hpp", I+"string/to_upper.hpp", I+"string/trim.hpp"], [("per-character transform", I+"string/to_lower.hpp"), ("find first/last non-blank", I+"string/trim.hpp")], observe=["resulting string"])

prop("J02", "Splitting and joining text are inverse and lose no field",
 "Splitting a string at a delimiter yields the fields between successive delimiters in order, joining fields inserts the delimiter between consecutive ones, and joining what was split restores the string.",
 ["inputs"], "every string and every delimiter", "Tests use a handful of literals.",
 [I+"string/split.hpp", I+"string/join.hpp"], [("stream-based field extraction", I+"string/split.hpp")], observe=["resulting strings"])

prop("K01", "Audio files are opened, used and closed exactly once",
 "In every sequence of open, close, read, seek, write and destruction of an audio encoder or decoder, every file handle that was opened is closed exactly once, no closed handle is ever used, a coder reports itself open exactly when it holds a live handle, and reads and writes pass the caller's whole range with its exact length.",
 ["histories", "fault_sequences"], "every sequence of operations, including failing opens and closing twice",
 "The encoder test aborts on the pinned commit; the stable tests open and close once on success.",
 [I+"io/encoder.hpp", I+"io/decoder.hpp", I+"io/internal/encoder/libsndfile_encoder_impl.hpp", I+"io/internal/decoder/libsndfile_decoder_impl.hpp"],
 [("handle owned by the implementation, released in close and the destructor", I+"io/internal/encoder/libsndfile_encoder_impl.hpp")],
 state=[("file handle", "null or a live handle", I+"io/internal/encoder/libsndfile_encoder_impl.hpp")], observe=["libsndfile calls"])

prop("K02", "The resampler feeds whole frames and reports what the engine consumed",
 "Each resampling call hands the engine the caller's buffers with the number of whole input frames and an output capacity of ratio times the input frames, and returns exactly the frame counts the engine reports; the engine state is created once and deleted once.",
 ["inputs", "histories"], "every buffer length, channel count and ratio", "Tests run one ratio on one file.",
 [I+"io/resampler.hpp", I+"io/internal/resampler/libsamplerate_impl.hpp"], [("SRC_DATA set-up per call", I+"io/internal/resampler/libsamplerate_impl.hpp")], observe=["libsamplerate calls", "returned counts"])

prop("L01", "Integer and real helper functions equal their mathematical definitions",
 "Parity, power-of-two, next-power-of-two, primality, sign, inverse, square, half, fraction, distance, complex parts and similar helpers return the mathematically defined answer for every argument in their domain.",
 ["inputs"], "every argument value in the domain (negative integers and zero included)",
 "The helpers are only tested indirectly.",
 [I+"math/numeric.hpp", I+"math/complex.hpp"], [("closed-form helpers", I+"math/numeric.hpp")], observe=["returned value"])

prop("M01", "Environment and version queries report the configured facts",
 "Version numbers, build date and build time reported through every interface are the configured ones, each accessor reporting its own quantity, and querying an environment variable returns its value or an empty result when it is unset, for every variable name.",
 ["configurations", "inputs"], "every environment and variable name",
 "Tests query one existing variable.",
 [I+"core/library_info.hpp", I+"core/system.hpp", "bindings/c/src/core.c"], [("compile-time constants", I+"core/library_info.hpp"), ("getenv wrapper", I+"core/system.hpp")], observe=["returned text/number"])

prop("N01", "No signal-processing call touches memory outside the ranges it is given",
 "For every length and argument in its documented domain, each C-level entry point and header function of the library reads only its input ranges and writes only its output range, dereferences nothing for an empty range (where the operation accepts one), and terminates.",
 ["inputs"], "every length, including 0 and 1, of every contracted function",
 "Tests run without sanitizers on a few sizes; an over-read by one at a particular length is invisible to them.",
 ["bindings/c/src/algorithm.c", "bindings/c/src/statistics.c", "bindings/c/src/windowing.c", "bindings/c/src/spectral.c", "bindings/c/src/converter.cpp"],
 [("half-open iterator ranges", I+"algorithm/amplifier.hpp")], observe=["memory accesses"])

prop("O01", "Noise and random generators stay within their documented distribution",
 "Every generator draws from the requested distribution with the configured parameters and a given seed reproduces its sequence.",
 ["inputs", "histories"], "every seed and parameter", "No test compiles the random headers.",
 [I+"random/random_generator.hpp", I+"random/noise/white_noise_generator.hpp", I+"random/noise/pink_noise_generator.hpp", I+"random/noise/brown_noise_generator.hpp", I+"random/noise/perlin_noise_generator.hpp"],
 [("wrapped standard distributions", I+"random/random_generator.hpp")], observe=["drawn samples"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
