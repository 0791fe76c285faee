// Charsets of the user's own: variable length, sparse, with offered transcoders or without, dynamic and static.
// The mapping (here) is the reference; what the library is given (below) is made of it, and checks how it is called.
//
// 00..7F                    ASCII
// A1..DF trail              two units: some of the BMP
// E0..EF trail trail        three units: U+1E000 ..
// trail: 41..7E; anything else is an ill-formed sequence: one unit, or E0..EF trail when the third one is wrong
#ifndef UCS_HPP
#define UCS_HPP
#include <map>
#include <vector>
namespace ucs {
constexpr unsigned T0 = 0x41, T1 = 0x7E, TN = T1 - T0 + 1;
// an id belongs to code units of one size
enum class Which : unsigned { v1 = 0x7F010010u, v2 = 0x7F010020u, v3 = 0x7F010030u };
constexpr strf::charset_id sized(Which w, std::size_t unit) { return (strf::charset_id)((unsigned)w | (unsigned)unit); }
constexpr Which which(strf::charset_id i) { return (Which)((unsigned)i & ~0xFu); }
constexpr bool mine(strf::charset_id i) { return which(i) == Which::v1 || which(i) == Which::v2 || which(i) == Which::v3; }
// the three differ in replacement character, name, and in what they offer
struct Def { const char* name; char32_t repl; };
inline const Def& def(strf::charset_id i) {
    static const Def a{ "VX-geta", 0x3013 }, b{ "VX-from", '?' }, c{ "VX-to", 0x1F000 };
    return which(i) == Which::v1 ? a : which(i) == Which::v2 ? b : c;
}
inline const std::vector<char32_t>& two() {
    static const std::vector<char32_t> t = [] {
        std::vector<char32_t> v; auto add = [&](char32_t a, char32_t b) { for (; a <= b; ++a) v.push_back(a); };
        add(0x3013, 0x3013); add(0xA0, 0x17F); add(0x300, 0x36F); add(0x391, 0x3C9); add(0x410, 0x44F); add(0x600, 0x605); add(0x66B, 0x66C); add(0x903, 0x903); add(0x1100, 0x1110); add(0x1160, 0x1170); add(0x11A8, 0x11B0);
        add(0x200B, 0x200D); add(0x2009, 0x2009); add(0x202F, 0x202F); add(0x2014, 0x2026); add(0x20AC, 0x20AC); add(0x2122, 0x2122); add(0xAC00, 0xAC20); add(0xFE0F, 0xFE0F); add(0xFF01, 0xFF20); add(0xFFFC, 0xFFFC); add(0x7FF, 0x800); add(0xD7FF, 0xD7FF); add(0xE000, 0xE001);
        for (char32_t c = 0x4E00; v.size() < 63 * TN; ++c) v.push_back(c);
        return v; }();
    return t;
}
inline const std::map<char32_t, unsigned>& two_index() { static const auto m = [] { std::map<char32_t, unsigned> r; for (unsigned i = 0; i < two().size(); ++i) r.emplace(two()[i], i); return r; }(); return m; }
constexpr char32_t three0 = 0x1E000, threeN = 16 * TN * TN;
inline bool has(char32_t c) { return c < 0x80 || (c >= three0 && c < three0 + threeN) || two_index().count(c); }
// units of c, which it has
template <typename C> inline void put(std::basic_string<C>& o, char32_t c) {
    auto u = [&](unsigned x) { o += (C)x; };
    if (c < 0x80) u(c);
    else if (c >= three0 && c < three0 + threeN) { unsigned i = c - three0; u(0xE0 + i / (TN * TN)); u(T0 + i / TN % TN); u(T0 + i % TN); }
    else { unsigned i = two_index().at(c); u(0xA1 + i / TN); u(T0 + i % TN); }
}
struct Piece { std::size_t n; bool ok; char32_t cp; };
template <typename U> inline Piece next(U u, std::size_t i, std::size_t n) {
    char32_t c = u(i); auto trail = [&](std::size_t k) { return i + k < n && u(i + k) >= T0 && u(i + k) <= T1; };
    if (c < 0x80) return { 1, true, c };
    if (c >= 0xA1 && c <= 0xDF) { if (trail(1)) return { 2, true, two()[(c - 0xA1) * TN + (unsigned)(u(i + 1) - T0)] }; return { 1, false, 0xFFFD }; }
    if (c >= 0xE0 && c <= 0xEF) { if (!trail(1)) return { 1, false, 0xFFFD }; if (!trail(2)) return { 2, false, 0xFFFD };
        return { 3, true, three0 + ((char32_t)(c - 0xE0) * TN + (char32_t)(u(i + 1) - T0)) * TN + (char32_t)(u(i + 2) - T0) }; }
    return { 1, false, 0xFFFD };
}
} // namespace ucs
#endif
