// Reference width calculation.  Widths are Q16.16 as 64-bit integers.
#ifndef WID_HPP
#define WID_HPP
#include "gen.hpp"
namespace wid {
using namespace gen;
using q16 = std::int64_t;

// ---------------------------------------------------------------- grapheme clusters (UAX #29)
enum { Other, CR, LF, Control, Extend, ZWJ, RI, Prepend, SM, L, V, T, LV, LVT, XP, TooNew };
struct GcbRange { std::uint32_t a, b; int v; };
inline const std::vector<GcbRange>& gcb_table() {
    static const std::vector<GcbRange> t = {
#include "gcb_table.inc"
    };
    return t;
}
inline int gcb(char32_t c) {
    if (c == 0x1734) return TooNew; // Extend up to Unicode 13, SpacingMark since
    if (c >= 0xAC00 && c <= 0xD7A3) return (c - 0xAC00) % 28 == 0 ? LV : LVT;
    auto& t = gcb_table();
    auto it = std::upper_bound(t.begin(), t.end(), (std::uint32_t)c, [](std::uint32_t x, const GcbRange& r) { return x < r.a; });
    if (it == t.begin()) return Other;
    --it;
    return c <= it->b ? it->v : Other;
}
// is there a boundary before s[i] (0 < i < size)?
inline bool cluster_break(const u32s& s, std::size_t i) {
    int a = gcb(s[i - 1]), b = gcb(s[i]);
    if (a == CR && b == LF) return false;                                             // GB3
    if (a == CR || a == LF || a == Control || b == CR || b == LF || b == Control) return true; // GB4,5
    if (a == L && (b == L || b == V || b == LV || b == LVT)) return false;            // GB6
    if ((a == LV || a == V) && (b == V || b == T)) return false;                      // GB7
    if ((a == LVT || a == T) && b == T) return false;                                 // GB8
    if (b == Extend || b == ZWJ || b == SM) return false;                             // GB9, 9a
    if (a == Prepend) return false;                                                   // GB9b
    if (a == ZWJ && b == XP) {                                                        // GB11
        std::size_t k = i - 1;
        while (k > 0 && gcb(s[k - 1]) == Extend) --k;
        return !(k > 0 && gcb(s[k - 1]) == XP);
    }
    if (a == RI && b == RI) {                                                         // GB12, 13
        std::size_t n = 0;
        for (std::size_t k = i; k > 0 && gcb(s[k - 1]) == RI; --k) ++n;
        return n % 2 == 0;
    }
    return true;
}
// width that std::format (C++20) assigns to a cluster's first code point
inline int cp_width(char32_t c) {
    static const char32_t r[][2] = { { 0x1100, 0x115F }, { 0x2329, 0x232A }, { 0x2E80, 0x303E }, { 0x3040, 0xA4CF }, { 0xAC00, 0xD7A3 }, { 0xF900, 0xFAFF }, { 0xFE10, 0xFE19 },
        { 0xFE30, 0xFE6F }, { 0xFF00, 0xFF60 }, { 0xFFE0, 0xFFE6 }, { 0x1F300, 0x1F64F }, { 0x1F900, 0x1F9FF }, { 0x20000, 0x2FFFD }, { 0x30000, 0x3FFFD } };
    for (auto& x : r) if (c >= x[0] && c <= x[1]) return 2;
    return 1;
}
// ---------------------------------------------------------------- a calculator with fractional widths
inline q16 frac_w(char32_t c) {
    switch (c) { case U'i': case U'l': return 0x8000; case U'w': return 0x18000; case U'm': return 0x1C000; case U't': return 0x5555; case U'z': return 0; case 0x2014: return 0x2AAAA; default: return c < 0x1100 ? 0x10000 : 0x1A000; }
}
struct frac_width_t {
    using category = strf::width_calculator_c;
    template <typename Cs> strf::width_t char_width(Cs cs, typename Cs::code_unit ch) const {
        if constexpr (sizeof(ch) == 4) return strf::width_t::from_underlying((std::int32_t)frac_w((char32_t)ch));
        else return strf::width_t::from_underlying((std::int32_t)frac_w(cs.decode_unit(ch)));
    }
    template <typename Cs> strf::width_t str_width(Cs cs, strf::width_t limit, const typename Cs::code_unit* b, const typename Cs::code_unit* e) const {
        q16 w = 0, l = limit.underlying_value() > 0 ? limit.underlying_value() : 0;
        while (b != e) {
            char32_t c[1]; auto r = cs.to_u32().transcode(b, e, c, c + 1, nullptr, strf::transcode_flags::none);
            w += frac_w(c[0]); b = r.src_ptr;
            if (w >= l) return strf::width_t::from_underlying((std::int32_t)l);
        }
        return strf::width_t::from_underlying((std::int32_t)w);
    }
    template <typename Cs> auto str_width_and_pos(Cs cs, strf::width_t limit, const typename Cs::code_unit* b, const typename Cs::code_unit* e) const -> strf::width_and_ptr<typename Cs::code_unit> {
        q16 w = 0, l = limit.underlying_value() > 0 ? limit.underlying_value() : 0;
        while (b != e) {
            char32_t c[1]; auto r = cs.to_u32().transcode(b, e, c, c + 1, nullptr, strf::transcode_flags::none);
            if (w + frac_w(c[0]) > l) break;
            w += frac_w(c[0]); b = r.src_ptr;
        }
        return { strf::width_t::from_underlying((std::int32_t)w), b };
    }
};
// ---------------------------------------------------------------- reference
enum class Wc { fast, u32len, fast_u32len, std, frac };
inline const char* wc_name(Wc w) { static const char* n[] = { "fast_width", "width_as_u32len", "width_as_fast_u32len", "std_width_calc", "fractional" }; return n[(int)w]; }
// the text, cut in pieces that are measured as a whole: text[pos[i]..pos[i+1]) has width w[i]
struct Pieces { std::vector<std::size_t> end; std::vector<q16> w; q16 total = 0; };
// units(c): number of code units of c in the string that is measured
template <typename U> inline Pieces pieces(Wc k, const u32s& s, U&& units) {
    Pieces p;
    for (std::size_t i = 0; i < s.size();) {
        std::size_t j = i + 1; q16 w = 0x10000;
        switch (k) {
            case Wc::fast: w = (q16)units(s[i]) * 0x10000; break;
            case Wc::std: while (j < s.size() && !cluster_break(s, j)) ++j; w = (q16)cp_width(s[i]) * 0x10000; break;
            case Wc::frac: w = frac_w(s[i]); break;
            default: break;
        }
        p.end.push_back(j); p.w.push_back(w); p.total += w; i = j;
    }
    return p;
}
template <typename C> inline q16 width_of(Wc k, const u32s& s) { return pieces(k, s, [](char32_t c) { return enc1<C>(c).size(); }).total; }
// the longest prefix (in code points; only whole code points) and its width
template <typename C> inline std::pair<std::size_t, q16> cut(Wc k, const u32s& s, q16 limit) {
    if (limit < 0) limit = 0;
    auto p = pieces(k, s, [](char32_t c) { return enc1<C>(c).size(); });
    q16 w = 0; std::size_t n = 0;
    for (std::size_t i = 0; i < p.w.size(); ++i) { if (w + p.w[i] > limit) break; w += p.w[i]; n = p.end[i]; }
    return { n, w };
}
template <typename F> inline void with_wc(Rng& g, F&& f) {
    switch (g.below(5)) {
        case 0: f(strf::fast_width, Wc::fast); return;
        case 1: f(strf::width_as_u32len, Wc::u32len); return;
        case 2: f(strf::width_as_fast_u32len, Wc::fast_u32len); return;
        case 3: f(frac_width_t{}, Wc::frac); return;
        default: f(strf::std_width_calc, Wc::std); return;
    }
}
// text that is interesting for width calculators
inline char32_t gen_wch(Rng& g) {
    static const char32_t e[] = { U'i', U'w', U'm', U't', U'z', 0x2014, 0x300, 0x301, 0x308, 0x200D, 0x1F1E6, 0x1F1FF, 0x1F600, 0x1F468, 0x1F469, 0x2764, 0xFE0F, 0x1100, 0x1161, 0x11A8, 0xAC00, 0xAC01, 0x600, 0x903, 0xE33, 0xD, 0xA, 0x85, 0x200B,
        0x4E00, 0x3042, 0xFF01, 0x115F, 0x1160, 0x2329, 0x232B, 0x2E80, 0x303E, 0x303F, 0x3040, 0xA4CF, 0xA4D0, 0xD7A3, 0xD7B0, 0xF900, 0xFAFF, 0xFE10, 0xFE30, 0xFE6F, 0xFF00, 0xFF60, 0xFF61, 0xFFE0, 0xFFE6, 0x1F300, 0x1F64F, 0x1F650, 0x1F900, 0x1F9FF, 0x20000, 0x2FFFD, 0x2FFFE, 0x30000, 0x3FFFD, 0xA9, 0x1F3FB, 0xE0020, 0xE0100, 0x110BD, 0x1F1E7 };
    switch (g.below(5)) {
        case 0: case 1: return g.pick(e);
        case 2: return (char32_t)g.range('a', 'z');
        case 3: { auto& t = gcb_table(); auto& r = t[g.below(t.size())]; char32_t c = (char32_t)g.range(r.a, r.b); return gcb(c) == TooNew || (c >= 0xD800 && c < 0xE000) || c > 0x10FFFF ? U'x' : c; }
        default: { char32_t c = gen_scalar(g); return gcb(c) == TooNew ? U'y' : c; }
    }
}
inline u32s gen_wtext(Rng& g, std::size_t n) { u32s s; unsigned run = 0; char32_t c = U'a'; for (std::size_t i = 0; i < n; ++i) { if (!run) { c = gen_wch(g); run = g.chance(1, 12) ? (unsigned)g.below(40) : 1; } --run; s += c; if (!run) run = 0; } return s; }
} // namespace wid
#endif
