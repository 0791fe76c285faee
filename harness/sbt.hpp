// single-byte charsets: reference tables
#ifndef SBT_HPP
#define SBT_HPP
#include <map>
#include <string>
namespace sbt {
#define SB(n) inline const char32_t sb_##n[256] = {
#define SB_END };
#include "sb_tables.inc"
#undef SB
#undef SB_END
struct Table { char32_t dec[256]; std::map<char32_t, int> enc; };
inline Table make_table(const char* name, const char32_t* t) {
    Table r; std::string n = name;
    for (int b = 0; b < 256; ++b) {
        char32_t u = t[b];
        // the Encoding Standard maps the bytes that Microsoft left unassigned in 80..9F to C1 controls,
        // and CA in windows-1255 to U+05BA
        if (u == 0xFFFF && n.compare(0, 7, "windows") == 0 && b < 0xA0) u = (char32_t)b;
        if (u == 0xFFFF && n == "windows_1255" && b == 0xCA) u = 0x5BA;
        r.dec[b] = u;
        if (u != 0xFFFF) r.enc[u] = b;
    }
    return r;
}
constexpr int count = 25;
template <int = 0> struct Tables {
    static const Table& get(int i) {
        static const Table all[] = {
#define SB(n) make_table(#n, sb_##n),
            SB(ascii) SB(iso_8859_1) SB(iso_8859_2) SB(iso_8859_3) SB(iso_8859_4) SB(iso_8859_5) SB(iso_8859_6) SB(iso_8859_7) SB(iso_8859_8) SB(iso_8859_9) SB(iso_8859_10) SB(iso_8859_11)
            SB(iso_8859_13) SB(iso_8859_14) SB(iso_8859_15) SB(iso_8859_16) SB(windows_1250) SB(windows_1251) SB(windows_1252) SB(windows_1253) SB(windows_1254) SB(windows_1255) SB(windows_1256) SB(windows_1257) SB(windows_1258)
#undef SB
        };
        return all[i];
    }
};
inline const char* name(int i) {
    static const char* const n[] = {
#define SB(n) #n,
            SB(ascii) SB(iso_8859_1) SB(iso_8859_2) SB(iso_8859_3) SB(iso_8859_4) SB(iso_8859_5) SB(iso_8859_6) SB(iso_8859_7) SB(iso_8859_8) SB(iso_8859_9) SB(iso_8859_10) SB(iso_8859_11)
            SB(iso_8859_13) SB(iso_8859_14) SB(iso_8859_15) SB(iso_8859_16) SB(windows_1250) SB(windows_1251) SB(windows_1252) SB(windows_1253) SB(windows_1254) SB(windows_1255) SB(windows_1256) SB(windows_1257) SB(windows_1258)
#undef SB
    };
    return n[i];
}
template <typename C> inline strf::dynamic_charset<C> charset(int i) {
    using F = strf::dynamic_charset<C> (*)();
    static const F f[] = {
#define SB(n) +[] { return strf::n<C>.to_dynamic(); },
            SB(ascii) SB(iso_8859_1) SB(iso_8859_2) SB(iso_8859_3) SB(iso_8859_4) SB(iso_8859_5) SB(iso_8859_6) SB(iso_8859_7) SB(iso_8859_8) SB(iso_8859_9) SB(iso_8859_10) SB(iso_8859_11)
            SB(iso_8859_13) SB(iso_8859_14) SB(iso_8859_15) SB(iso_8859_16) SB(windows_1250) SB(windows_1251) SB(windows_1252) SB(windows_1253) SB(windows_1254) SB(windows_1255) SB(windows_1256) SB(windows_1257) SB(windows_1258)
#undef SB
    };
    return f[i]();
}
} // namespace sbt
#endif
