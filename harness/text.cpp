// Instantiations of the text functions on arrays and on std::string.
#include <edsp/string/to_lower.hpp>
#include <edsp/string/to_upper.hpp>
#include <edsp/string/trim.hpp>
#include <cstring>
#include <string>
namespace es = edsp::string;
extern "C" {
void h_tolower(const char* x, long n, char* y) { es::tolower(x, x + n, y); }
void h_toupper(const char* x, long n, char* y) { es::toupper(x, x + n, y); }
void h_tolower_inplace(char* x, long n) { es::tolower(x, x + n, x); }
void h_toupper_inplace(char* x, long n) { es::toupper(x, x + n, x); }
#define TRIM(F) long h_##F(const char* x, long n, char* y) { std::string s(x, n); es::F(s); std::memcpy(y, s.data(), s.size()); return s.size(); }
TRIM(ltrim)
TRIM(rtrim)
TRIM(trim)
}
