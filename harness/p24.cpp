// P24: width calculators measure and cut text as documented.
#include "trn.hpp"
#include "wid.hpp"
using namespace trn;
using namespace wid;
#ifndef CH
#define CH char
#endif
using C = CH;
using Str = std::basic_string<C>;
static strf::width_t W(q16 u) { return strf::width_t::from_underlying((std::int32_t)u); }
static const q16 wmax = 0x7FFFFFFF;
static std::string ws(q16 w) { return vh::fmt("%.5f", (double)w / 65536.0); }
struct Text { Str s; Ch ch; std::vector<Seg> segs; u32s u; bool valid; };
// measured by the reference: pieces that can not be cut, where they end in the source, their widths
static void reference(Wc k, const Text& t, std::vector<std::size_t>& end, std::vector<q16>& w) {
    if (k == Wc::fast) { for (std::size_t i = 0; i < t.s.size(); ++i) { end.push_back(i + 1); w.push_back(0x10000); } return; }
    auto p = pieces(k, t.u, [](char32_t) { return 1; });
    for (std::size_t i = 0; i < p.w.size(); ++i) { auto& g = t.segs[p.end[i] - 1]; end.push_back(g.at + g.n); w.push_back(p.w[i]); }
}
template <typename Calc, typename Cs> static void judge(Rng& g, Wc k, const Calc& calc, const Cs& cs, const Text& t, const char* how) {
    std::vector<std::size_t> end; std::vector<q16> w; reference(k, t, end, w);
    q16 total = 0; for (auto x : w) total += x;
    Block<C> b(t.s.data(), t.s.size(), g.below(4));
    auto what = [&](const char* fn, q16 lim) { return std::string(wc_name(k)) + "." + fn + " " + how + " " + t.ch.name + vh::fmt("(%zu) limit ", sizeof(C)) + ws(lim) + " of " + vh::show(t.s, 400); };
    for (int i = 0; i < 6; ++i) {
        q16 lim;
        switch (i) { case 0: lim = wmax; break; case 1: lim = total; break;
            case 2: { q16 x = 0; std::size_t n = g.below(w.size() + 1); for (std::size_t j = 0; j < n; ++j) x += w[j]; lim = x + (q16)g.range(0, 2) - 1; break; }
            case 3: lim = g.coin() ? 0 : -(q16)g.below(0x7FFFFFFF); break;
            default: lim = (q16)g.below((std::uint64_t)total + 0x18000); if (g.coin()) lim &= ~(q16)0xFFFF; }
        if (lim > wmax) lim = wmax;
        q16 nn = lim > 0 ? lim : 0, want = k == Wc::u32len || k == Wc::fast_u32len ? std::min<q16>(std::min(total, (nn + 0xFFFF) & ~(q16)0xFFFF), wmax) : std::min(total, nn);
        q16 got = calc.str_width(cs, W(lim), b.begin(), b.end()).underlying_value();
        vh::event("str_width"); if (total > nn) vh::event("wider than the limit"); if (lim <= 0) vh::event("limit not positive"); if (lim & 0xFFFF) vh::event("fractional limit"); if (total > wmax) vh::event("wider than width_max");
        bool specified = t.valid || k != Wc::fast_u32len;
        if (specified ? got != want : (got < 0 || got > ((nn + 0xFFFF) & ~(q16)0xFFFF))) vh::violation("str_width", what("str_width", lim) + " : " + ws(got) + " expected " + ws(want));
        auto r = calc.str_width_and_pos(cs, W(lim), b.begin(), b.end());
        q16 x = 0; std::size_t n = 0; while (n < w.size() && x + w[n] <= nn) x += w[n++];
        std::size_t at = n ? end[n - 1] : 0;
        if (n == w.size()) at = t.s.size();
        vh::event("str_width_and_pos");
        if (specified ? r.width.underlying_value() != x || r.ptr != b.begin() + at : r.ptr < b.begin() || r.ptr > b.end() || r.width.underlying_value() > nn) vh::violation("str_width_and_pos", what("str_width_and_pos", lim) + vh::fmt(" : %td width ", r.ptr - b.begin()) + ws(r.width.underlying_value()) + vh::fmt(" expected %zu width ", at) + ws(x));
    }
    // of single units
    if (t.s.size()) for (int i = 0; i < 3; ++i) {
        C c = t.s[g.below(t.s.size())]; q16 want = 0x10000; if (k == Wc::std) { char32_t d = t.ch.kind == Kind::sb ? t.ch.t->dec[unit(c) & 0xFF] : t.ch.kind == Kind::u8 || t.ch.kind == Kind::user ? (unit(c) < 0x80 ? unit(c) : 0xFFFD) : unit(c); want = cp_width(d) * 0x10000; }
        q16 got = calc.char_width(cs, c).underlying_value(); if (got != want) vh::violation("char_width", std::string(wc_name(k)) + " " + how + " " + t.ch.name + vh::fmt(" unit %X : ", (unsigned)unit(c)) + ws(got) + " expected " + ws(want));
    }
    vh::nontrivial(vh::hash_of(t.s, std::string(wc_name(k)) + t.ch.name));
    if (vh::want_sample()) vh::sample(what("str_width", total));
}
template <typename Cs> static void with_calc(Rng& g, const Cs& cs, const Text& t, const char* how) {
    switch (g.below(6)) {
        case 0: judge(g, Wc::fast, strf::fast_width, cs, t, how); return;
        case 1: judge(g, Wc::u32len, strf::width_as_u32len, cs, t, how); return;
        case 2: judge(g, Wc::fast_u32len, strf::width_as_fast_u32len, cs, t, how); return;
        default: judge(g, Wc::std, strf::std_width_calc, cs, t, how); return;
    }
}
static Text make(const Ch& ch, Str s) {
    Text t; t.s = std::move(s); t.ch = ch; t.segs = decode(ch, t.s.data(), t.s.size(), false); t.valid = true;
    for (auto& x : t.segs) { t.valid = t.valid && x.ok; t.u += x.ok ? x.cp : U'\uFFFD'; }
    return t;
}
static bool too_new(const u32s& u) { for (auto c : u) if (gcb(c) == TooNew) return true; return false; }
static void random_text(Rng& g, bool big) {
    if (big) vh::arm_hang_timer();
    auto d = any_dynamic<C>(g); std::size_t n = big ? g.range(32700, 33000) : g.chance(1, 8) ? g.below(2) : g.chance(1, 3) ? g.range(25, 100) : g.below(14); Str s;
    if (g.chance(1, 5)) s = gen_src<C>(g, d.second, n, true);
    else { u32s u = gen_wtext(g, n); if (big) { u32s v; while (v.size() < n) v += u.substr(0, 200); u = v; } for (auto c : u) s += encode1<C>(d.second, c); }
    Text t = make(d.second, s); if (too_new(t.u)) { vh::event("skipped: newer than the library's Unicode"); return; }
    vh::event(t.valid ? "valid" : "ill-formed"); if (big) vh::event("long text");
    if (d.second.kind != Kind::sb && d.second.kind != Kind::user && g.coin()) with_calc(g, strf::utf<C>, t, "static"); else with_calc(g, d.first, t, "dynamic");
}
// every sequence of representatives of the break classes, length 1 to 5 (UTF-32)
static const std::vector<char32_t>& reps() { static const std::vector<char32_t> r = { U'a', U'\r', U'\n', 0x0B, 0x300, 0x200D, 0x1F1E6, 0x600, 0x903, 0x1100, 0x1161, 0x11A8, 0xAC00, 0xAC01, 0x1F600, 0x4E00 }; return r; }
template <typename CC> static void sequence(Rng& g, std::uint64_t idx) {
    auto& r = reps(); u32s u; std::uint64_t n = r.size(), len = 1, cnt = n, i = idx; while (i >= cnt) { i -= cnt; cnt *= n; ++len; }
    for (std::uint64_t k = 0; k < len; ++k) { u += r[i % n]; i /= n; }
    Str s; Ch ch = utf_ch<C>(); for (auto c : u) s += encode1<C>(ch, c);
    Text t = make(ch, s); judge(g, Wc::std, strf::std_width_calc, strf::utf<C>, t, "static"); vh::event("class sequences");
}
// every code point next to each class
static void neighbours(std::uint64_t idx) {
    char32_t base = (char32_t)idx * 1024; std::uint64_t h = 0; Ch ch = utf_ch<C>();
    static const std::vector<u32s> ctx = [] { std::vector<u32s> v; for (auto c : reps()) v.push_back(u32s(1, c)); v.push_back(u32s{ 0x1F600, 0x200D }); v.push_back(u32s{ 0x1F1E6, 0x1F1E6 }); return v; }();
    for (char32_t c = base; c < base + 1024 && c < 0x110000; ++c) {
        if (!scalar(c)) continue;
        if (gcb(c) == TooNew) { vh::event("skipped: newer than the library's Unicode"); continue; }
        auto one = [&](const u32s& u) {
            C buf[16]; C* e = buf; for (auto x : u) { auto k = enc1<C>(x); e = std::copy(k.begin(), k.end(), e); }
            q16 want = 0; for (std::size_t i = 0; i < u.size(); ++i) if (i == 0 || cluster_break(u, i)) want += cp_width(u[i]) * 0x10000;
            q16 got = strf::std_width_calc.str_width(strf::utf<C>, strf::width_max, buf, e).underlying_value(); h = vh::mix(h ^ (std::uint64_t)got);
            if (got != want) vh::violation("grapheme-width", vh::show(u) + " : " + ws(got) + " expected " + ws(want));
        };
        one(u32s(1, c)); u32s t;
        for (auto& x : ctx) { t = x; t += c; one(t); t.assign(1, c); t += x[x.size() > 1 ? 1 : 0]; one(t); }
        t.assign(1, 0x1F600); t += c; t += 0x200D; t += 0x1F601; one(t);
        if (strf::std_width_calc.char_width(strf::utf<char32_t>, c) != strf::width_t(cp_width(c)) || strf::std_width_calc_t::char32_width(c) != strf::width_t(cp_width(c))) vh::violation("char_width", vh::fmt("U+%X", (unsigned)c));
    }
    (void)ch; vh::event("code points next to each class", 1024); vh::nontrivial(h + idx);
}
static void run() {
    std::string c = cname<C>::v;
    vh::exhaustive(("sequences-" + c).c_str(), std::is_same<C, char32_t>::value ? 16 + 256 + 4096 + 65536 : 16 + 256 + 4096, sequence<C>);
    if (std::is_same<C, char32_t>::value) vh::exhaustive(("neighbours-" + c).c_str(), 1088, [](Rng&, std::uint64_t i) { neighbours(i); });
    vh::section(("text-" + c).c_str(), 8000, 2500000, [](Rng& g, std::uint64_t) { random_text(g, false); });
    vh::section(("long-text-" + c).c_str(), 60, 6000, [](Rng& g, std::uint64_t) { random_text(g, true); });
}
VH_MAIN(run)
