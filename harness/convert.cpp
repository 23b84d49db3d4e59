// Instantiations of the auditory and level converters (no logic of its own except the compositions used to state inverse-ness).
#include <edsp/auditory/converter/hertz2mel.hpp>
#include <edsp/auditory/converter/mel2hertz.hpp>
#include <edsp/auditory/converter/hertz2bark.hpp>
#include <edsp/auditory/converter/bark2hertz.hpp>
#include <edsp/auditory/converter/hertz2erb.hpp>
#include <edsp/auditory/converter/erb2hertz.hpp>
#include <edsp/auditory/converter/hertz2cent.hpp>
#include <edsp/auditory/converter/cent2hertz.hpp>
#include <edsp/converter.hpp>
extern "C" {
#define ONE(n) double h_##n(double v) { return edsp::auditory::n(v); }
ONE(hertz2mel) ONE(mel2hertz) ONE(hertz2bark) ONE(bark2hertz) ONE(hertz2erb) ONE(erb2hertz) ONE(hertz2cent) ONE(cent2hertz)
#define TWO(f, g) double h_##f##_##g(double v) { return edsp::auditory::f(edsp::auditory::g(v)); }
TWO(mel2hertz, hertz2mel) TWO(hertz2mel, mel2hertz) TWO(bark2hertz, hertz2bark) TWO(hertz2bark, bark2hertz)
TWO(erb2hertz, hertz2erb) TWO(hertz2erb, erb2hertz) TWO(cent2hertz, hertz2cent) TWO(hertz2cent, cent2hertz)
#define LEV(f, g) double h_##f##_##g(double v) { return edsp::f(edsp::g(v)); }
LEV(mag2db, db2mag) LEV(db2mag, mag2db) LEV(pow2db, db2pow) LEV(db2pow, pow2db) LEV(rad2deg, deg2rad) LEV(deg2rad, rad2deg)
}
