NOTE = {
 "A01": "Definedness of each output: finite real inputs; the exact-tie behaviour of rounding is part of the contract.",
 "A03": "Sequences of doubles without NaN; binary search under its sortedness precondition.",
 "B02": "The cent inverse is claimed above 16.35 Hz, where the code's scale is positive.",
 "C01": "Moments of orders 2..7 (order is a template parameter) are separate contracts.",
 "C03": "std::nth_element is an assumed contract (permutes its range and puts the k-th order statistic at k). The moving median is proved for the first tick(s) of a fresh, reset or resized filter and for the window of a ring after any number of pushes up to two laps.",
 "D05": "Roll-off percentage as documented; existence of the bin is proved, not assumed.",
 "E02": "The flat-top coefficients sum to 1+3e-9, so its bound is 1+3e-9.",
 "F01": "fmod(x,y) is read as x - y*trunc(x/y).",
 "F02": "ADSR contracts are single-step contracts from every (segment, level) state, reached by the public interface; pressing a key that is already held is left unspecified.",
 "G02": "Cascades are instantiated with 0, 1, 2 and 3 sections, and with 2 of 2 (full); the number of samples is unbounded.",
 "G03": "sin and tan positive on (0, pi/2) is an assumed lemma.",
 "G05": "Histories: any prefix of the first two laps of the window are proved for every N; the third lap is a separate contract labelled bounded.",
 "H01": "ring_span from every (front, size) state; ring_buffer from the states reached by n pushes, f pops and b pushes; fixed_ring_buffer is instantiated at capacity 5 (bounded). Moved-from objects are unspecified.",
 "I01": "FFTW is represented by a recorder that states its contract (reads all of the input, writes all of the output, any values); transforms themselves are FFTW's.",
 "I02": "As I01: the pipeline around the back end is proved for any values the back end answers.",
 "J01": "ctype functions are uninterpreted maps of unsigned char values; std::string allocation is an assumed contract.",
 "K01": "libsndfile is represented by a recorder that states its handle protocol; the decoder's read loop is instantiated at chunk size 1.",
 "K02": "libsamplerate is represented by a recorder that states its protocol.",
 "L01": "is_prime for arguments up to 2^62; next_power_two for 1..2^(W-2).",
 "M01": "getenv and setenv are represented by recorders.",
 "N01": "The memory, frame and termination obligations of every contract on array functions, plus the empty-range instances; functions that select or relate samples require a non-empty range.",
}
NA = {
 "G04": "Not expressible for this verifier at useful strength: the designers place an arbitrary number of poles by a loop over std::complex exp/sqrt/division with branch on conjugate pairs, and the defining equations are products over all poles evaluated in complex arithmetic; no contract over reals within reach of the term normaliser or the SMT solvers decides them for every order, and fixed-order instances would only restate the code.",
 "J02": "split and join run std::getline and operator<< on std::basic_stringstream: their code lies in the precompiled libstdc++ (locale, stream buffer), outside the verified text; a contract for them would be an assumed model of exactly the behaviour the property states. By reading, split drops a trailing empty field and join stops at a NUL (it goes through c_str), so the property as stated also needs a restricted domain.",
 "O01": "The random generator headers do not compile when instantiated on the pinned commit, and what does compile forwards to std::*_distribution; a distribution is a statement about measure, for which a functional contract has no vocabulary.",
}
