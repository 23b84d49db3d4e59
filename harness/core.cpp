// Version and build facts under arbitrary configured values, and the environment over a recorded getenv/setenv.
#include <edsp/core/internal/config.hpp>
#undef E_VERSION_MAJOR
#undef E_VERSION_MINOR
#undef E_VERSION_PATCH
#undef E_VERSION_STR
#undef E_BUILD_DATE
#undef E_BUILD_TIME
#define E_VERSION_MAJOR 11
#define E_VERSION_MINOR 22
#define E_VERSION_PATCH 33
extern "C" { char the_version[4] = "v", the_date[4] = "d", the_time[4] = "t"; }
#define E_VERSION_STR the_version
#define E_BUILD_DATE the_date
#define E_BUILD_TIME the_time
#include <cstdlib>
#include <cstring>
namespace recorded {
    // what the environment answers, and what it was asked
    const char* value; int status;
    char* asked; char* stored; long* r;
    void note(char* to, const char* from) { std::memcpy(to, from, std::strlen(from) + 1); }
    char* get(const char* name) { r[0]++; note(asked, name); return const_cast<char*>(value); }
    int set(const char* name, const char* data, int overwrite) { r[1]++; note(asked, name); note(stored, data); r[2] = overwrite; return status; }
}
namespace std { static inline char* recorded_getenv(const char* n) { return recorded::get(n); } }
#define getenv recorded_getenv
#define setenv recorded::set
#include <bindings/c/src/core.c>
#undef getenv
#undef setenv
extern "C" {
long h_version(long* w) {
    w[0] = get_major_version(); w[1] = get_minor_version(); w[2] = get_patch_version();
    w[3] = get_version() == the_version; w[4] = get_build_date() == the_date; w[5] = get_build_time() == the_time;
    return 0;
}
void h_info(long* w) {
    using L = edsp::library_info;
    w[0] = L::major_version(); w[1] = L::minor_version(); w[2] = L::patch_version();
    w[3] = L::version() == the_version; w[4] = L::build_date() == the_date; w[5] = L::build_time() == the_time;
}
void h_libraries(long* w) {
    w[0] = !std::strcmp(get_fft_library(), "fftw"); w[1] = !std::strcmp(get_codec_library(), "sndfile"); w[2] = !std::strcmp(get_resample_library(), "samplerate");
}
// the environment variable is set to value, or unset
#define ENV recorded::r = w; w[0] = w[1] = 0; recorded::asked = asked; recorded::stored = stored; recorded::status = 0;
long h_get_set(const char* tag, const char* value, char* asked, char* stored, long* w, int* error) { ENV recorded::value = value; return get_environment(tag, error) - value; }
long h_get_unset(const char* tag, char* asked, char* stored, long* w, int* error) { ENV recorded::value = nullptr; return get_environment(tag, error) == nullptr; }
long h_get_noerror(const char* tag, const char* value, char* asked, char* stored, long* w) { ENV recorded::value = value; return get_environment(tag, nullptr) - value; }
long h_exist_set(const char* tag, const char* value, char* asked, char* stored, long* w) { ENV recorded::value = value; return exist_environment(tag); }
long h_exist_unset(const char* tag, char* asked, char* stored, long* w) { ENV recorded::value = nullptr; return exist_environment(tag); }
long h_put(const char* tag, const char* data, int status, char* asked, char* stored, long* w) { ENV recorded::status = status; return set_environment(tag, data); }
// a name that is part of a longer text
long h_view_get(const char* text, long n, const char* value, char* asked, char* stored, long* w) {
    ENV recorded::value = value; auto e = edsp::system_env::get_env(edsp::string_view(text, n)); w[3] = e ? e.value().size() : -1; return e ? e.value().data() - value : -1; }
}
