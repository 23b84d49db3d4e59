// Instantiations of the second-order designs (make_filter and the getters of the returned section; no logic of its own).
#include <edsp/filter.hpp>
using namespace edsp::filter;
#define D(name, who, type) \
void h_##name(double fc, double fs, double Q, double g, double* o) { const auto f = make_filter<double, designer_type::who, filter_type::type, 2>(fc, fs, Q, g); o[0] = f.a0(); o[1] = f.a1(); o[2] = f.a2(); o[3] = f.b0(); o[4] = f.b1(); o[5] = f.b2(); } \
int h_##name##_stable(double fc, double fs, double Q, double g) { return make_filter<double, designer_type::who, filter_type::type, 2>(fc, fs, Q, g).stability(); }
extern "C" {
D(rbj_low, RBJ, LowPass) D(rbj_high, RBJ, HighPass) D(rbj_band, RBJ, BandPass) D(rbj_all, RBJ, AllPass) D(rbj_lowshelf, RBJ, LowShelf) D(rbj_highshelf, RBJ, HighShelf)
D(zol_low, Zolzer, LowPass) D(zol_high, Zolzer, HighPass) D(zol_band, Zolzer, BandPass) D(zol_lowshelf, Zolzer, LowShelf) D(zol_highshelf, Zolzer, HighShelf)
}
