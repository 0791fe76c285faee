// strf/locale.hpp by itself, before anything else, and twice; then everything, in one more translation unit
#include <strf/locale.hpp>
#include <strf/locale.hpp>
#include <strf/all.hpp>
#include <string>
std::string tu_locale(int n, double d, const char* s) { return strf::to_string(s, n, *strf::hex(n), d, strf::fmt(s) > 9, strf::transcode(u"\u20ac")); }
