// strf-related helpers shared by the harnesses: hostile destinations, reference
// encoders, input generators.  Everything is built on strf's public interface.
#ifndef GEN_HPP
#define GEN_HPP
#include "vh.hpp"
#include <strf.hpp>
#include <strf/to_string.hpp>
#include "sbt.hpp"
#include <string_view>
#include <limits>
#include <cmath>

namespace gen {
using vh::Rng;
using u32s = std::u32string;

template <typename C> struct cname;
template <> struct cname<char> { static constexpr const char* v = "char"; };
template <> struct cname<char8_t> { static constexpr const char* v = "char8_t"; };
template <> struct cname<char16_t> { static constexpr const char* v = "char16_t"; };
template <> struct cname<char32_t> { static constexpr const char* v = "char32_t"; };
template <> struct cname<wchar_t> { static constexpr const char* v = "wchar_t"; };

// ---------------------------------------------------------------- reference UTF encoders
// c must be a valid scalar value or a surrogate (encoded generically when lax)
template <typename C> inline void put_cp(std::basic_string<C>& o, char32_t c) {
    if constexpr (sizeof(C) == 4) o += (C)c;
    else if constexpr (sizeof(C) == 2) {
        if (c < 0x10000) o += (C)c;
        else { o += (C)(0xD800 + ((c - 0x10000) >> 10)); o += (C)(0xDC00 + ((c - 0x10000) & 0x3FF)); }
    } else {
        if (c < 0x80) o += (C)c;
        else if (c < 0x800) { o += (C)(0xC0 | (c >> 6)); o += (C)(0x80 | (c & 63)); }
        else if (c < 0x10000) { o += (C)(0xE0 | (c >> 12)); o += (C)(0x80 | ((c >> 6) & 63)); o += (C)(0x80 | (c & 63)); }
        else { o += (C)(0xF0 | (c >> 18)); o += (C)(0x80 | ((c >> 12) & 63)); o += (C)(0x80 | ((c >> 6) & 63)); o += (C)(0x80 | (c & 63)); }
    }
}
template <typename C> inline std::basic_string<C> enc(const u32s& s) {
    std::basic_string<C> o;
    for (auto c : s) put_cp(o, c);
    return o;
}
template <typename C> inline std::basic_string<C> enc1(char32_t c) { std::basic_string<C> o; put_cp(o, c); return o; }
template <typename C> inline std::basic_string<C> ascii(const std::string& s) {
    std::basic_string<C> o; for (char c : s) o += (C)(unsigned char)c; return o;
}
inline u32s u32(const std::string& s) { u32s o; for (unsigned char c : s) o += (char32_t)c; return o; }

// ---------------------------------------------------------------- hostile destination
// Every buffer it hands out is an exact-size heap block (ASan redzone right after
// it) that is freed at the next recycle(); block sizes vary from the guaranteed
// minimum up, the first block may have any size, even zero.  From `bad_after`
// recycles on it is not good.
template <typename C>
class TinyDst final : public strf::destination<C> {
    using B = strf::destination<C>;
    C* blk_; std::size_t cap_;
    Rng g_;
    unsigned slack_;
    long bad_after_;
public:
    std::basic_string<C> out;
    unsigned long recycles = 0;
    static constexpr std::size_t minsz = strf::min_destination_buffer_size;
    TinyDst(std::uint64_t seed, std::size_t first, unsigned slack = 3, long bad_after = -1)
        : TinyDst(new C[first ? first : 1], first, seed, slack, bad_after) {}
    ~TinyDst() override { delete[] blk_; }
    void recycle() override {
        take();
        ++recycles;
        delete[] blk_;
        cap_ = minsz + (slack_ ? g_.below(slack_) : 0);
        blk_ = new C[cap_];
        this->set_buffer_ptr(blk_); this->set_buffer_end(blk_ + cap_);
        if (bad_after_ >= 0 && (long)recycles > bad_after_) this->set_good(false);
    }
    std::basic_string<C> finish() { take(); this->set_buffer_ptr(blk_); return out; }
private:
    TinyDst(C* b, std::size_t n, std::uint64_t seed, unsigned slack, long bad)
        : B(b + (n ? 0 : 0), n), blk_(b), cap_(n), g_(seed), slack_(slack), bad_after_(bad) {}
    void take() {
        auto* p = this->buffer_ptr();
        if (p < blk_ || p > blk_ + cap_) {
            vh::violation("buffer-pointer-outside-buffer", vh::fmt("buffer_ptr()-begin = %td, capacity %zu", p - blk_, cap_));
            this->set_buffer_ptr(blk_);
            return;
        }
        if (this->good()) out.append(blk_, p);
    }
};
template <typename C> inline TinyDst<C> tiny(Rng& g) {
    auto s = g.next();
    return TinyDst<C>(s, g.chance(1, 3) ? g.below(70) : g.chance(1, 2) ? 0 : g.below(12), (unsigned)g.below(3) * 20);
}
template <typename C, typename Pack, typename... A>
inline std::basic_string<C> print(Rng& g, const Pack& p, const A&... a) {
    auto s = g.next();
    TinyDst<C> d(s, g.chance(1, 3) ? g.below(70) : g.chance(1, 2) ? 0 : g.below(12), (unsigned)g.below(3) * 20);
    strf::to(d).with(p)(a...);
    vh::event("prints"); vh::event("recycles", d.recycles);
    return d.finish();
}

// ---------------------------------------------------------------- generators
inline char32_t gen_scalar(Rng& g) {
    static const char32_t edge[] = { 0, 1, 0x1F, 0x20, 0x2D, 0x30, 0x39, 0x41, 0x61, 0x7E, 0x7F, 0x80, 0x81, 0x9F, 0xA0, 0xBF, 0xC0, 0xE9, 0xFF, 0x100, 0x152, 0x178, 0x3A9,
        0x7FE, 0x7FF, 0x800, 0x801, 0xFFF, 0x1000, 0x2014, 0x20AC, 0x2122, 0xD7FE, 0xD7FF, 0xE000, 0xE001, 0xFDD0, 0xFEFF, 0xFFFD, 0xFFFE, 0xFFFF,
        0x10000, 0x10001, 0x103FF, 0x1F600, 0x3FFFF, 0x40000, 0xFFFFF, 0x100000, 0x10FFFD, 0x10FFFE, 0x10FFFF };
    switch (g.below(9)) {
        case 8: { char32_t c = sbt::Tables<>::get((int)g.below(sbt::count)).dec[0x80 + g.below(0x80)]; return c == 0xFFFF ? 0xA4 : c; }   // some single-byte charset has it
        case 0: case 1: return g.pick(edge);
        case 2: case 3: return (char32_t)g.range(0x20, 0x7E);
        case 4: return (char32_t)g.range(0x80, 0x7FF);
        case 5: { char32_t c = (char32_t)g.range(0x800, 0xFFFF); return (c >= 0xD800 && c < 0xE000) ? 0x4E00 + (c & 0xFF) : c; }
        case 6: return (char32_t)g.range(0x10000, 0x10FFFF);
        default: return (char32_t)g.range(0, 0xFF);
    }
}
inline char32_t gen_any_cp(Rng& g) { // including surrogates and out of range
    if (g.chance(1, 10)) return (char32_t)g.range(0xD800, 0xDFFF);
    if (g.chance(1, 12)) { static const char32_t e[] = { 0x110000, 0x110001, 0x1FFFFF, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFE, 0xFFFFFFFF, 0x200041 }; return g.pick(e); }
    return gen_scalar(g);
}
inline std::size_t gen_len(Rng& g) {
    switch (g.below(8)) {
        case 0: return g.below(4);
        case 1: case 2: return g.below(12);
        case 3: case 4: return g.below(40);
        case 5: return 56 + g.below(20);
        case 6: return 120 + g.below(20);
        default: return g.below(300);
    }
}
inline u32s gen_text(Rng& g, std::size_t n) {
    u32s s; unsigned mode = (unsigned)g.below(4);
    for (std::size_t i = 0; i < n; ++i)
        s += mode == 0 ? (char32_t)g.range(0x20, 0x7E) : mode == 1 && !g.chance(1, 8) ? (char32_t)g.range('a', 'z') : gen_scalar(g);
    return s;
}
inline char32_t gen_fill(Rng& g) {
    static const char32_t f[] = { U' ', U'*', U'0', U'_', U'~', 0x7F, 0x80, 0xB7, 0x7FF, 0x800, 0x2026, 0xFFFD, 0x1F600, 0x10FFFF };
    return g.chance(1, 3) ? U' ' : g.chance(1, 6) ? gen_scalar(g) : g.pick(f);
}
// widths as Q16.16
inline strf::width_t gen_width(Rng& g, int maxw = 200) {
    int w = g.chance(1, 2) ? (int)g.below(30) : g.chance(1, 8) ? -(int)g.below(40) : (int)g.below((std::uint64_t)maxw);
    std::int32_t u = w * 65536;
    if (g.chance(1, 4)) { static const int f[] = { 0x8000, 0x8001, 0x7FFF, 1, 0xFFFF, 0x4000 }; u += g.pick(f); }
    return strf::width_t::from_underlying(u);
}
// Round a Q16.16 to the nearest integer, halves towards zero (as width_t documents)
inline int round_w(strf::width_t w) {
    std::int64_t v = w.underlying_value();
    std::int64_t a = v < 0 ? -v : v;
    std::int64_t r = (a + 0x7FFF) >> 16;
    return (int)(v < 0 ? -r : r);
}
// unsigned magnitude with interesting digits in some base
inline std::uint64_t gen_u64(Rng& g) {
    static const unsigned bases[] = { 2, 8, 10, 16, 10, 10 };
    switch (g.below(7)) {
        case 0: return g.below(3);
        case 1: { unsigned b = g.pick(bases); std::uint64_t v = 1; for (unsigned n = (unsigned)g.below(64); n; --n) { if (v > UINT64_MAX / b) break; v *= b; } return v + (std::uint64_t)g.range(-2, 2); }
        case 2: return ~std::uint64_t(0) >> g.below(64);
        case 3: return g.next() >> g.below(64);
        case 4: return g.below(100000);
        case 5: { // sparse decimal digits
            std::uint64_t v = 0; for (unsigned n = 1 + (unsigned)g.below(19); n; --n) v = v * 10 + (g.chance(2, 3) ? (g.coin() ? 0 : 9) : g.below(10)); return v; }
        default: return (std::uint64_t)1 << g.below(64);
    }
}
template <typename I> inline I gen_int(Rng& g) {
    static const I e[] = { 0, 1, (I)-1, std::numeric_limits<I>::max(), std::numeric_limits<I>::min(), (I)(std::numeric_limits<I>::max() - 1), (I)(std::numeric_limits<I>::min() + 1), 9, 10, 99, 100 };
    if (g.chance(1, 8)) return g.pick(e);
    std::uint64_t u = gen_u64(g);
    if (sizeof(I) < 8 && g.coin()) u >>= 64 - 8 * sizeof(I) - (unsigned)g.below(3) * (sizeof(I) < 8 && false);
    if (g.chance(1, 3)) u = 0 - u;
    return (I)u;
}

// ---------------------------------------------------------------- destination charsets
// Reference encoders; -1: the charset has no such character.  Cs::utf or Cs(1 + index of a single-byte charset)
enum class Cs { utf = 0 };
inline int sb_encode(Cs cs, char32_t c) {
    if (c == 0xFFFD) return '?';
    const auto& e = sbt::Tables<>::get((int)cs - 1).enc;
    auto it = e.find(c);
    return it == e.end() ? -1 : it->second;
}
struct DestCs {
    Cs id = Cs::utf;
    bool has(char32_t c) const { return id == Cs::utf ? c < 0xD800 || (c >= 0xE000 && c < 0x110000) : sb_encode(id, c) >= 0; }
    template <typename C> std::basic_string<C> encode(const u32s& s) const {
        std::basic_string<C> o;
        for (auto c : s) {
            if (id == Cs::utf) put_cp(o, has(c) ? c : 0xFFFD);
            else { int b = sb_encode(id, c); o += (C)(b < 0 ? '?' : b); }
        }
        return o;
    }
    // what the library's single-code-point encoders write: surrogates are not sanitized,
    // UTF-32 does not even look at the value, anything else impossible is replaced
    template <typename C> std::basic_string<C> raw(char32_t c) const {
        if (id != Cs::utf) { int b = sb_encode(id, c); return std::basic_string<C>(1, (C)(b < 0 ? '?' : b)); }
        if (sizeof(C) < 4 && c >= 0x110000) c = 0xFFFD;
        return enc1<C>(c);
    }
    const char* name() const { return id == Cs::utf ? "UTF" : sbt::name((int)id - 1); }
};
// calls f(strf charset, DestCs) with some charset for C
template <typename C, typename F> inline void with_charset(Rng& g, F&& f) {
    if constexpr (std::is_same<C, char>::value) {
        // dynamic charsets, to bound the number of instantiations
        static const int often[] = { 0, 1, 14 };   // ASCII, ISO-8859-1, ISO-8859-15
        if (g.chance(3, 7)) { int i = g.coin() ? g.pick(often) : (int)g.below(sbt::count); f(sbt::charset<C>(i), DestCs{ Cs(1 + i) }); return; }
    }
    f(strf::utf<C>, DestCs{});
}

// ---------------------------------------------------------------- aligned text (reference)
enum class Al { none, left, right, center };
inline std::string al_name(Al a) { return a == Al::none ? "none" : a == Al::left ? "<" : a == Al::right ? ">" : "^"; }
inline strf::text_alignment to_strf(Al a) { return a == Al::left ? strf::text_alignment::left : a == Al::center ? strf::text_alignment::center : strf::text_alignment::right; }
// fill count for n >= 0 columns missing
inline u32s align(const u32s& content, int missing, Al al, char32_t fill) {
    if (missing <= 0 || al == Al::none) return content;
    int l = al == Al::left ? 0 : al == Al::right ? missing : missing / 2;
    return u32s((std::size_t)l, fill) + content + u32s((std::size_t)(missing - l), fill);
}
struct AF { Al al = Al::none; char32_t fill = U' '; strf::width_t w = 0; };
inline AF gen_af(Rng& g, int maxw = 200) {
    AF a; a.al = (Al)g.range(1, 3); a.fill = gen_fill(g); a.w = gen_width(g, maxw); return a;
}
inline strf::alignment_format to_strf(const AF& a) { strf::alignment_format f; f.fill = a.fill; f.width = a.w; f.alignment = to_strf(a.al); return f; }

inline std::string show32(const u32s& s) { return vh::show(s.data(), s.size()); }
template <typename C>
inline bool expect_eq(const std::basic_string<C>& got, const std::basic_string<C>& want, const char* key, const std::string& what) {
    if (got == want) return true;
    vh::violation(key, what + " printed " + vh::show(got) + " expected " + vh::show(want));
    return false;
}
} // namespace gen
#endif
