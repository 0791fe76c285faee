// Reference decoding and encoding: UTF-8/16/32 (Unicode 15, table 3-7, maximal subparts)
// and the single-byte charsets (tables of Python's codecs plus the WHATWG C1 mappings).
#ifndef TC_HPP
#define TC_HPP
#include "gen.hpp"
#include <map>
#include <memory>
#ifdef USER_CS
#include "ucs.hpp"
#endif
namespace tc {
using namespace gen;
using namespace sbt;
enum class Kind { u8, u16, u32, sb, user };
struct Ch { Kind kind; const Table* t; const char* name; strf::charset_id id; };
inline bool surrogate(char32_t c) { return c >= 0xD800 && c < 0xE000; }
inline bool scalar(char32_t c) { return c < 0x110000 && !surrogate(c); }
template <typename C> inline char32_t unit(C c) { return (char32_t)std::make_unsigned_t<std::conditional_t<sizeof(C) == 1, char, std::conditional_t<sizeof(C) == 2, short, int>>>(c); }
// a piece of the source: one code point, or one maximal ill-formed sequence
struct Seg { std::size_t at, n; bool ok; char32_t cp; };
template <typename C> inline std::vector<Seg> decode(const Ch& k, const C* s, std::size_t n, bool lax) {
    std::vector<Seg> v;
    auto u = [&](std::size_t i) { return unit(s[i]); };
    for (std::size_t i = 0; i < n;) {
        char32_t c = u(i); Seg g{ i, 1, false, 0xFFFD };
        switch (k.kind) {
#ifdef USER_CS
            case Kind::user: { auto q = ucs::next(u, i, n); g.n = q.n; g.ok = q.ok; g.cp = q.cp; break; }
#else
            case Kind::user: break;
#endif
            case Kind::sb: { char32_t d = k.t->dec[c & 0xFF]; if (d != 0xFFFF) { g.ok = true; g.cp = d; } break; }
            case Kind::u32: if (c < 0x110000 && (lax || !surrogate(c))) { g.ok = true; g.cp = c; } break;
            case Kind::u16:
                if (c >= 0xD800 && c < 0xDC00 && i + 1 < n && u(i + 1) >= 0xDC00 && u(i + 1) < 0xE000) { g.ok = true; g.n = 2; g.cp = 0x10000 + ((c - 0xD800) << 10) + (u(i + 1) - 0xDC00); }
                else if (!surrogate(c) || lax) { g.ok = true; g.cp = c; }
                break;
            case Kind::u8: {
                if (c < 0x80) { g.ok = true; g.cp = c; break; }
                unsigned need = c >= 0xC2 && c <= 0xDF ? 1 : c >= 0xE0 && c <= 0xEF ? 2 : c >= 0xF0 && c <= 0xF4 ? 3 : 0;
                if (!need) break;
                char32_t lo = c == 0xE0 ? 0xA0 : c == 0xF0 ? 0x90 : 0x80, hi = c == 0xED && !lax ? 0x9F : c == 0xF4 ? 0x8F : 0xBF, cp = c & (need == 1 ? 0x1F : need == 2 ? 0xF : 7);
                unsigned got = 0;
                while (got < need && i + 1 + got < n && u(i + 1 + got) >= lo && u(i + 1 + got) <= hi) { cp = cp << 6 | (u(i + 1 + got) & 63); ++got; lo = 0x80; hi = 0xBF; }
                g.n = 1 + got;
                if (got == need) { g.ok = true; g.cp = cp; }
                break; }
        }
        v.push_back(g); i += g.n;
    }
    return v;
}
inline bool has(const Ch& k, char32_t c) {
#ifdef USER_CS
    if (k.kind == Kind::user) return c == 0xFFFD || ucs::has(c);
#endif
    return k.kind != Kind::sb || c == 0xFFFD || k.t->enc.count(c);
}
// the units of a decoded code point; what the charset does not have gives its replacement character
template <typename C> inline std::basic_string<C> encode1(const Ch& k, char32_t c) {
#ifdef USER_CS
    if (k.kind == Kind::user) { std::basic_string<C> o; ucs::put(o, c != 0xFFFD && ucs::has(c) ? c : ucs::def(k.id).repl); return o; }
#endif
    if (k.kind != Kind::sb) return enc1<C>(c);
    auto it = k.t->enc.find(c);
    return std::basic_string<C>(1, (C)(unsigned char)(c == 0xFFFD || it == k.t->enc.end() ? '?' : it->second));
}
template <typename D, typename C> inline std::basic_string<D> convert(const Ch& from, const Ch& to, const std::basic_string<C>& s, bool lax = false) {
    std::basic_string<D> o;
    for (auto& g : decode(from, s.data(), s.size(), lax)) o += encode1<D>(to, g.cp);
    return o;
}
template <typename C> inline Ch utf_ch() {
    if (sizeof(C) == 1) return { Kind::u8, nullptr, "UTF-8", strf::csid_utf8 };
    if (sizeof(C) == 2) return { Kind::u16, nullptr, "UTF-16", strf::csid_utf16 };
    return { Kind::u32, nullptr, "UTF-32", strf::csid_utf32 };
}
#define TC_ALL_SB(X) X(ascii, "ASCII") X(iso_8859_1, "ISO-8859-1") X(iso_8859_2, "ISO-8859-2") X(iso_8859_3, "ISO-8859-3") X(iso_8859_4, "ISO-8859-4") X(iso_8859_5, "ISO-8859-5") \
    X(iso_8859_6, "ISO-8859-6") X(iso_8859_7, "ISO-8859-7") X(iso_8859_8, "ISO-8859-8") X(iso_8859_9, "ISO-8859-9") X(iso_8859_10, "ISO-8859-10") X(iso_8859_11, "ISO-8859-11") \
    X(iso_8859_13, "ISO-8859-13") X(iso_8859_14, "ISO-8859-14") X(iso_8859_15, "ISO-8859-15") X(iso_8859_16, "ISO-8859-16") X(windows_1250, "windows-1250") X(windows_1251, "windows-1251") \
    X(windows_1252, "windows-1252") X(windows_1253, "windows-1253") X(windows_1254, "windows-1254") X(windows_1255, "windows-1255") X(windows_1256, "windows-1256") X(windows_1257, "windows-1257") X(windows_1258, "windows-1258")
constexpr int sb_count = 25;
// the i-th single-byte charset as a dynamic one
template <typename C> inline std::pair<strf::dynamic_charset<C>, Ch> sb_dynamic(int i) {
    int n = 0;
#define X(cs, nm) if (n++ == i) { static const Table t = make_table(#cs, sb_##cs); return { strf::cs<C>.to_dynamic(), Ch{ Kind::sb, &t, nm, strf::csid_##cs } }; }
    TC_ALL_SB(X)
#undef X
    std::abort();
}
template <typename C> inline std::pair<strf::dynamic_charset<C>, Ch> utf_dynamic() { return { strf::utf<C>.to_dynamic(), utf_ch<C>() }; }
#ifdef USER_CS
} // namespace tc
#include "ucslib.hpp"
namespace tc {
template <typename C> inline std::pair<strf::dynamic_charset<C>, Ch> user_dynamic(Rng& g) {
    using ucs::Which; const auto i = ucs::sized((g.below(3) == 0 ? Which::v1 : g.coin() ? Which::v2 : Which::v3), sizeof(C));
    switch (ucs::which(i)) { case Which::v1: return { ucs::dynamic<C, ucs::sized(Which::v1, sizeof(C))>(), ucs::ch(i) }; case Which::v2: return { ucs::dynamic<C, ucs::sized(Which::v2, sizeof(C))>(), ucs::ch(i) }; default: return { ucs::dynamic<C, ucs::sized(Which::v3, sizeof(C))>(), ucs::ch(i) }; }
}
#endif
// any charset of that code unit type, dynamic
template <typename C> inline std::pair<strf::dynamic_charset<C>, Ch> any_dynamic(Rng& g) {
#ifdef USER_CS
    if constexpr (!std::is_same<C, char32_t>::value) { if (!g.chance(1, 4)) return user_dynamic<C>(g); }
#endif
    if constexpr (sizeof(C) == 1) { if (!g.chance(1, 3)) return sb_dynamic<C>((int)g.below(sb_count)); }
    return utf_dynamic<C>();
}
// ---------------------------------------------------------------- source text
template <typename C> inline void put_bad(Rng& g, const Ch& k, std::basic_string<C>& o) {
    auto b = [&](unsigned x) { o += (C)(unsigned char)x; };
    switch (k.kind) {
        case Kind::user: switch (g.below(7)) {
            case 0: b((unsigned)g.range(0x80, 0xA0)); return;
            case 1: b((unsigned)g.range(0xF0, 0xFF)); return;
            case 2: b((unsigned)g.range(0xA1, 0xEF)); return;                                          // truncated, perhaps
            case 3: b((unsigned)g.range(0xE0, 0xEF)); b((unsigned)g.range(0x41, 0x7E)); return;
            case 4: b((unsigned)g.range(0xA1, 0xDF)); b(g.coin() ? 0x40 : 0x7F); return;
            case 5: b((unsigned)g.range(0xE0, 0xEF)); b((unsigned)g.range(0x41, 0x7E)); b(g.coin() ? 0x40 : 0x7F); return;
            default: if (sizeof(C) > 1) o += (C)(g.coin() ? 0x100 + g.below(0x300) : 0xD800 + g.below(0x2800)); else b((unsigned)g.range(0xE0, 0xFF)); return; }
        case Kind::sb: b((unsigned)g.below(256)); return;
        case Kind::u16: o += (C)(g.coin() ? g.range(0xD800, 0xDBFF) : g.range(0xDC00, 0xDFFF)); return;
        case Kind::u32: { static const std::uint32_t e[] = { 0xD800, 0xDBFF, 0xDC00, 0xDFFF, 0x110000, 0x110001, 0x7FFFFFFF, 0x80000000u, 0xFFFFFFFFu, 0xFFFFFFFEu, 0x10FFFFFF }; o += (C)(g.coin() ? g.pick(e) : g.range(0xD800, 0xDFFF)); return; }
        case Kind::u8: {
            auto cont = [&] { b((unsigned)g.range(0x80, 0xBF)); };
            switch (g.below(11)) {
                case 0: cont(); return;
                case 1: b((unsigned)g.range(0xF5, 0xFF)); return;
                case 2: b(0xC0 + (unsigned)g.below(2)); cont(); return;                                        // overlong
                case 3: b(0xE0); b((unsigned)g.range(0x80, 0x9F)); cont(); return;
                case 4: b(0xF0); b((unsigned)g.range(0x80, 0x8F)); cont(); cont(); return;
                case 5: b(0xED); b((unsigned)g.range(0xA0, 0xBF)); cont(); return;                             // surrogate
                case 6: b(0xF4); b((unsigned)g.range(0x90, 0xBF)); cont(); cont(); return;                     // > 10FFFF
                case 7: b((unsigned)g.range(0xC2, 0xF4)); return;                                              // truncated
                case 8: b((unsigned)g.range(0xE0, 0xF4)); cont(); return;
                case 9: b((unsigned)g.range(0xF0, 0xF4)); cont(); cont(); return;
                default: { static const unsigned char e[] = { 0xC0, 0xC1, 0xC2, 0xDF, 0xE0, 0xED, 0xEF, 0xF0, 0xF4, 0xF5, 0xFF, 0x80, 0x8F, 0x90, 0x9F, 0xA0, 0xBF, 0x41 }; for (unsigned n = (unsigned)g.range(1, 6); n--;) b(g.pick(e)); return; }
            }
        }
    }
}
template <typename C> inline void put_good(Rng& g, const Ch& k, std::basic_string<C>& o, char32_t c) {
    if (k.kind == Kind::sb) { for (;;) { unsigned b = (unsigned)g.below(256); if (k.t->dec[b] != 0xFFFF) { o += (C)(unsigned char)b; return; } } }
#ifdef USER_CS
    if (k.kind == Kind::user) { ucs::put(o, ucs::has(c) ? c : g.coin() ? g.pick(ucs::two()) : ucs::three0 + (char32_t)g.below(ucs::threeN)); return; }
#endif
    put_cp(o, c);
}
// n pieces; bad: whether ill-formed ones may be among them
template <typename C> inline std::basic_string<C> gen_src(Rng& g, const Ch& k, std::size_t n, bool bad) {
    std::basic_string<C> o; unsigned mode = (unsigned)g.below(5);
    for (std::size_t i = 0; i < n; ++i) {
        bool b = bad && (mode == 0 ? true : mode == 1 ? g.chance(1, 2) : mode == 2 ? g.chance(1, 8) : mode == 3 ? i + 1 == n : g.chance(1, 40));
        if (b) put_bad(g, k, o); else if (g.chance(1, 4)) o += (C)g.range(0x20, 0x7E); else put_good(g, k, o, gen_scalar(g));
    }
    if (bad && g.chance(1, 6) && o.size()) o.resize(g.below(o.size() + 1));
    return o;
}
// ---------------------------------------------------------------- error notifier
struct Rec final : strf::transcoding_error_notifier {
    struct Inv { int unit; std::string name; const void* p; std::ptrdiff_t n; };
    struct Uns { std::string name; unsigned cp; };
    std::vector<Inv> inv; std::vector<Uns> uns;
    void invalid_sequence(int u, const char* nm, const void* p, std::ptrdiff_t n) override { inv.push_back({ u, nm ? nm : "(null)", p, n }); }
    void unsupported_codepoint(const char* nm, unsigned cp) override { uns.push_back({ nm ? nm : "(null)", cp }); }
};
// Judges what the notifier was told about the pieces segs of the text at base, all of them converted from src to dst.
// Two known findings are told apart from any other difference:
// - a sequence is announced once more when the output space ran out at it;
// - the direct UTF-32 to single-byte transcoders take E000..FFFF for surrogates.
// Returns how many invalid sequences and unsupported code points there were.
template <typename O> std::pair<std::size_t, std::size_t> judge_notified(const Rec& rec, const std::vector<Seg>& segs, const Ch& src, const Ch& dst, const O* base, bool unsafe, const std::string& what) {
    std::size_t again = 0; std::vector<Seg> inv, uns;
    auto same_i = [&](const Rec::Inv& r, const Seg& x) { return r.unit == (int)sizeof(O) && r.name == src.name && r.n == (std::ptrdiff_t)x.n && r.p == base + x.at; };
    auto same_u = [&](const Rec::Uns& r, const Seg& x) { return r.name == dst.name && r.cp == (unsigned)x.cp; };
    auto match = [&](const auto& r, const auto& e, auto same) { std::size_t i = 0, j = 0; for (; i < r.size(); ++i) { if (j < e.size() && same(r[i], e[j])) ++j; else if (j && same(r[i], e[j - 1])) ++again; else return false; } return j == e.size(); };
    bool quirk = false, iok = false, uok = false, found = false;
    for (int q = 0; q < 2; ++q) {
        if (q) { if (found || src.kind != Kind::u32 || dst.kind != Kind::sb || unsafe) break; }
        inv.clear(); uns.clear(); again = 0;
        for (auto& x : segs) { if (!x.ok || (q && x.cp >= 0xE000 && x.cp < 0x10000 && !has(dst, x.cp))) { if (!unsafe) inv.push_back(x); } else if (!has(dst, x.cp)) uns.push_back(x); }
        iok = match(rec.inv, inv, same_i); uok = match(rec.uns, uns, same_u);
        if (iok && uok) { found = true; quirk = q; }
    }
    if (!found) {
        std::string d; for (auto& r : rec.inv) d += vh::fmt(" [%td,+%td unit %d %s]", (const O*)r.p - base, r.n, r.unit, r.name.c_str());
        for (auto& r : rec.uns) d += vh::fmt(" %s:U+%X", r.name.c_str(), r.cp);
        std::string e; for (auto& x : inv) e += vh::fmt(" [%zu,+%zu]", x.at, x.n);
        for (auto& x : uns) e += vh::fmt(" U+%X", (unsigned)x.cp);
        vh::violation("notified", what + " notified" + d + " expected" + e);
    }
    else if (quirk) vh::violation("utf32-to-single-byte-takes-E000-FFFF-for-surrogates", what);
    else if (again) vh::violation("sequence-notified-again-when-space-ran-out", what + vh::fmt(" %zu times", again));
    return { inv.size(), uns.size() };
}
} // namespace tc
#endif
