// P23: the character functions of a charset agree with one another and with decoding.
#include "trn.hpp"
using namespace trn;
#ifndef CH
#define CH char
#endif
using C = CH;
using Str = std::basic_string<C>;
struct Fns {
    std::string how; Ch ch;
    std::function<int(char32_t)> size, validate; std::function<C*(C*, char32_t)> put; std::function<char32_t(C)> unit;
    std::function<void(strf::transcode_dst<C>&, std::ptrdiff_t, char32_t)> fill; std::function<void(strf::transcode_dst<C>&)> repl;
    std::function<strf::count_codepoints_result<C>(const C*, const C*, std::ptrdiff_t)> count, count_fast;
    strf::transcode_f<C, char32_t> dec;
};
template <typename Cs> static Fns fns(const std::string& how, Cs cs, const Ch& ch) {
    static_assert(std::is_same<typename Cs::code_unit, C>::value, "");
    if (cs.id() != ch.id) vh::violation("id", how + " " + ch.name + vh::fmt(" %d", (int)cs.id()));
    if (std::string(cs.name()) != ch.name) vh::violation("name", how + " " + ch.name + ": " + cs.name());
    char32_t want = ch.kind == Kind::sb ? U'?' : U'\uFFFD';
#ifdef USER_CS
    if (ch.kind == Kind::user) want = ucs::def(ch.id).repl;
#endif
    if (cs.replacement_char() != want) vh::violation("replacement_char", how + " " + ch.name + vh::fmt(" U+%X", (unsigned)cs.replacement_char()));
    if (cs.replacement_char_size() != (int)encode1<C>(ch, 0xFFFD).size()) vh::violation("replacement_char_size", how + " " + ch.name + vh::fmt(" %d", cs.replacement_char_size()));
    Fns f{ how, ch, [cs](char32_t c) { return cs.encoded_char_size(c); }, [cs](char32_t c) { return cs.validate(c); }, [cs](C* p, char32_t c) { return cs.encode_char(p, c); }, [cs](C c) { return cs.decode_unit(c); },
        [cs](strf::transcode_dst<C>& d, std::ptrdiff_t n, char32_t c) { cs.encode_fill(d, n, c); }, [cs](strf::transcode_dst<C>& d) { cs.write_replacement_char(d); },
        [cs](const C* b, const C* e, std::ptrdiff_t n) { return cs.count_codepoints(b, e, n); }, [cs](const C* b, const C* e, std::ptrdiff_t n) { return cs.count_codepoints_fast(b, e, n); }, cs.to_u32().transcode_func() };
    return f;
}
template <typename Cs> static Fns fns_func(const std::string& how, Cs cs, const Ch& ch) {
    Fns f = fns(how, cs, ch); f.validate = cs.validate_func(); f.put = cs.encode_char_func(); f.fill = cs.encode_fill_func(); f.repl = cs.write_replacement_char_func(); return f;
}
static std::vector<strf::dynamic_charset<C>> dyns;
template <typename Cs> static void add(std::vector<Fns>& v, Cs cs, const Ch& ch) {
    dyns.push_back(cs.to_dynamic()); dyns.push_back(strf::dynamic_charset<C>(cs));
    v.push_back(fns("static", cs, ch)); v.push_back(fns_func("static _func", cs, ch)); v.push_back(fns("dynamic", cs.to_dynamic(), ch)); v.push_back(fns_func("dynamic _func", cs.to_dynamic(), ch));
}
template <typename CC> static void add_sb(std::vector<Fns>& v) {
    if constexpr (sizeof(CC) == 1) {
        int n = 0;
#define X(csx, nm) add(v, strf::csx<CC>, sb_dynamic<CC>(n++).second);
        TC_ALL_SB(X)
#undef X
    }
}
static const std::vector<Fns>& all() { static const auto v = [] { std::vector<Fns> r; add(r, strf::utf<C>, utf_ch<C>());
#ifdef USER_CS
    if constexpr (!std::is_same<C, char32_t>::value) { using ucs::Which; add(r, strf::static_charset<C, ucs::sized(Which::v1, sizeof(C))>{}, ucs::ch(ucs::sized(Which::v1, sizeof(C)))); add(r, strf::static_charset<C, ucs::sized(Which::v2, sizeof(C))>{}, ucs::ch(ucs::sized(Which::v2, sizeof(C)))); add(r, strf::static_charset<C, ucs::sized(Which::v3, sizeof(C))>{}, ucs::ch(ucs::sized(Which::v3, sizeof(C)))); }
    if (true) return r;
#endif
 add_sb<C>(r); return r; }(); return v; }
static const Fns& any(Rng& g) { auto& v = all(); return g.chance(1, 2) ? v[g.below(4)] : g.pick(v); }
// what the encoders write, which do not sanitize
static Str raw(const Ch& k, char32_t c) {
    if (k.kind == Kind::sb || k.kind == Kind::user) return encode1<C>(k, c);
    if (k.kind != Kind::u32 && c >= 0x110000) c = 0xFFFD;
    return enc1<C>(c);
}
static int valid(const Ch& k, char32_t c) { if (k.kind == Kind::user && c == 0xFFFD) return (int)encode1<C>(k, c).size(); if (c != 0xFFFD && !has(k, c)) return -1; return scalar(c) ? (int)encode1<C>(k, c).size() : -1; }
static void judge_cp(const Fns& f, char32_t c) {
    Str want = raw(f.ch, c); auto who = [&] { return f.how + " " + f.ch.name + vh::fmt("(%zu) U+%X ", sizeof(C), (unsigned)c); };
    C out[8]; for (auto& x : out) x = (C)0x5A; C* e = f.put(out, c);
    if (e - out != (std::ptrdiff_t)want.size() || Str(out, want.size()) != want || out[want.size()] != (C)0x5A) vh::violation("encode_char", who() + "wrote " + vh::show(Str(out, (std::size_t)std::min<std::ptrdiff_t>(8, std::max<std::ptrdiff_t>(e - out, 0)))) + " expected " + vh::show(want));
    int n = f.size(c); if (n != (int)want.size()) vh::violation("encoded_char_size", who() + vh::fmt("%d, expected %zu", n, want.size()));
    n = f.validate(c); if (n != valid(f.ch, c)) vh::violation("validate", who() + vh::fmt("%d, expected %d", n, valid(f.ch, c)));
    // what is valid is decoded back
    if (n > 0 && c != 0xFFFD) { char32_t back[2] = { 1, 1 }; auto r = f.dec(out, e, back, back + 1, nullptr, Fl::stop_on_invalid_sequence); if (r.stop_reason != Why::completed || back[0] != c) vh::violation("decode-encoded", who() + vh::fmt("decoded as U+%X", (unsigned)back[0])); }
}
static void points(const Fns& f, char32_t base) { for (char32_t c = base; c < base + 1024; ++c) judge_cp(f, c); vh::event("code points", 1024); vh::nontrivial(vh::hash_of(f.how, std::string(f.ch.name) + std::to_string(base))); }
static void units(const Fns& f) {
    std::uint64_t top = sizeof(C) == 1 ? 0x100 : sizeof(C) == 2 ? 0x10000 : 0x10000, h = 0;
    auto one = [&](C c) {
        char32_t want; if (f.ch.kind == Kind::u8 || f.ch.kind == Kind::user) want = unit(c) < 0x80 ? unit(c) : 0xFFFD; else if (f.ch.kind == Kind::sb) { want = f.ch.t->dec[unit(c) & 0xFF]; if (want == 0xFFFF) want = 0xFFFD; } else want = unit(c) >= 0x110000 ? 0xFFFD : unit(c);
        char32_t got = f.unit(c); h = vh::mix(h ^ got);
        if (got != want) vh::violation("decode_unit", f.how + " " + f.ch.name + vh::fmt(" unit %X gives U+%X, expected U+%X", (unsigned)unit(c), (unsigned)got, (unsigned)want));
    };
    for (std::uint64_t u = 0; u < top; ++u) one((C)u);
    if (sizeof(C) == 4) for (std::uint64_t u = 0xFFFF; u < 0x120000; u += 7) one((C)u);
    if (sizeof(C) == 4) for (std::uint64_t u : { 0x10FFFFull, 0x110000ull, 0x7FFFFFFFull, 0x80000000ull, 0xFFFFFFFFull }) one((C)u);
    vh::event("units", top); vh::nontrivial(h);
}
static void fills(Rng& g) {
    const Fns& f = any(g); char32_t c = g.chance(1, 3) ? (char32_t)(g.coin() ? g.range(0xD7F0, 0xE010) : g.coin() ? g.range(0x10FFF0, 0x110010) : g.next()) : gen_scalar(g); auto unit_ = raw(f.ch, c);
    std::ptrdiff_t n = g.chance(1, 10) ? 0 : g.chance(1, 6) ? (std::ptrdiff_t)g.range(200, 900) : (std::ptrdiff_t)g.below(80);
    bool repl = g.chance(1, 6); if (repl) { n = 1; unit_ = encode1<C>(f.ch, 0xFFFD); }
    long bad = g.chance(1, 4) ? (long)g.below(4) : -1; TinyDst<C> dst(g.next(), g.below(3) ? g.below(8) : g.below(200), (unsigned)g.below(4) * 7, bad);
    Str before; std::size_t pre = g.below(6); for (std::size_t i = 0; i < pre; ++i) { before += (C)('a' + i); strf::put(dst, (C)('a' + i)); }
    if (repl) f.repl(dst); else f.fill(dst, n, c);
    bool good = dst.good(); auto got = dst.finish(); Str want = before; for (std::ptrdiff_t i = 0; i < n; ++i) want += unit_;
    auto who = f.how + " " + f.ch.name + vh::fmt("(%zu) U+%X ", sizeof(C), (unsigned)c) + (repl ? "write_replacement_char" : vh::fmt("encode_fill %td", n));
    if (good ? got != want : want.compare(0, got.size(), got) != 0) vh::violation(repl ? "write_replacement_char" : "encode_fill", who + (good ? " wrote " : " to a destination gone bad wrote ") + vh::show(got, 200) + " expected " + vh::show(want, 200));
    vh::event(repl ? "replacement written" : n == 0 ? "empty fill" : "fill"); if (dst.recycles) vh::event("recycled"); if (!good) vh::event("gone bad");
    if (n > 0) vh::nontrivial(vh::hash_of(want, who));
    if (vh::want_sample()) vh::sample(who);
}
static void counts(Rng& g) {
    const Fns& f = any(g); std::size_t n = g.chance(1, 8) ? g.below(3) : g.chance(1, 3) ? g.range(30, 200) : g.below(30); bool bad = g.coin();
    Str s = gen_src<C>(g, f.ch, n, bad); auto p = decode(f.ch, s.data(), s.size(), false); bool ok = true; for (auto& x : p) ok = ok && x.ok;
    Block<C> b(s.data(), s.size(), g.below(4)); auto who = [&](const char* fn, std::ptrdiff_t m) { return f.how + " " + f.ch.name + vh::fmt("(%zu) %s max %td of ", sizeof(C), fn, m) + vh::show(s, 300); };
    for (int i = 0; i < 8; ++i) {
        std::ptrdiff_t len = (std::ptrdiff_t)p.size(), m = i == 0 ? PTRDIFF_MAX : i == 1 ? len : i == 2 ? 0 : i == 3 ? len + 1 : i == 4 && len ? len - 1 : (std::ptrdiff_t)g.below(p.size() + 2);
        std::ptrdiff_t want = std::min(m, len), at = want == len ? (std::ptrdiff_t)s.size() : (std::ptrdiff_t)p[(std::size_t)want].at;
        auto r = f.count(b.begin(), b.end(), m); vh::event(ok ? "counted valid" : "counted ill-formed"); if (m < len) vh::event("stopped at the maximum");
        if (r.count != want || r.ptr - b.begin() != at) vh::violation("count_codepoints", who("count_codepoints", m) + vh::fmt(" gives %td at %td, expected %td at %td", r.count, r.ptr - b.begin(), want, at));
        r = f.count_fast(b.begin(), b.end(), m);
        if (ok ? r.count != want || r.ptr - b.begin() != at : r.count > m || r.ptr > b.end() || r.ptr < b.begin()) vh::violation("count_codepoints_fast", who("count_codepoints_fast", m) + vh::fmt(" gives %td at %td, expected %td at %td", r.count, r.ptr - b.begin(), want, at));
    }
    vh::nontrivial(vh::hash_of(s, std::string(f.ch.name)));
    if (vh::want_sample()) vh::sample(who("count_codepoints", 5));
}
// the small value classes: equal exactly when they stand for the same thing
static void values(Rng& g) {
    (void)all();
    auto a = g.pick(dyns), b = g.pick(dyns); const auto ia = a.id(), ib = b.id(); const std::string na = a.name(), nb = b.name();
    if ((a == b) != (ia == ib) || (a != b) == (ia == ib)) vh::violation("dynamic_charset:equality", na + " and " + nb);
    a.swap(b);
    if (a.id() != ib || b.id() != ia || a.name() != nb || b.name() != na || a.to_dynamic() != a) vh::violation("dynamic_charset:swap", na + " and " + nb);
    strf::transcoding_error_notifier n1, n2; strf::transcoding_error_notifier* ps[] = { nullptr, &n1, &n2 };
    auto p = g.pick(ps), q = g.pick(ps); strf::transcoding_error_notifier_ptr x{ p }, y{ q };
    if ((x == y) != (p == q) || x.get() != p || strf::transcoding_error_notifier_ptr().get() || strf::transcoding_error_notifier_nullptr().get()) vh::violation("transcoding_error_notifier_ptr", "");
    n1.invalid_sequence(1, "x", nullptr, 0); n1.unsupported_codepoint("x", 5);
    const unsigned f = (unsigned)g.below(8), h = (unsigned)g.below(8); const auto F = (Fl)f, H = (Fl)h;
    if ((F | H) != (Fl)(f | h) || (F & H) != (Fl)(f & h) || strf::with_lax_surrogate_policy(F) != ((f & 1) != 0) || strf::with_strict_surrogate_policy(F) != ((f & 1) == 0) || strf::with_stop_on_invalid_sequence(F) != ((f & 2) != 0) || strf::with_stop_on_unsupported_codepoint(F) != ((f & 4) != 0)) vh::violation("transcode_flags", vh::fmt("%u %u", f, h));
    auto o = F, n = F; if (&(o |= H) != &o || &(n &= H) != &n || o != (Fl)(f | h) || n != (Fl)(f & h)) vh::violation("transcode_flags", vh::fmt("%u %u assigned", f, h));
    vh::event("values compared"); vh::nontrivial(vh::hash_of(na + nb, p == q, f, h));
}
static void run() {
    std::string c = cname<C>::v; const auto& v = all();
    // UTF: all code points and beyond; single-byte: the BMP's beginning and end, and a block of each plane (P22 sweeps them all)
    static const std::vector<std::pair<std::size_t, char32_t>> jobs = [&] { std::vector<std::pair<std::size_t, char32_t>> j;
        for (std::size_t k = 0; k < v.size(); ++k) for (char32_t b = 0; b < 0x112000; b += 1024) if (k < 4 || b < 0x2400 || b == 0xD800 || (b & 0xFC00) == 0xFC00) j.push_back({ k, b });
        for (std::size_t k = 0; k < v.size(); ++k) for (char32_t b : { 0x7FFFFE00u, 0xFFFFF800u, 0x1FFE00u, 0x200000u, 0x7FFFF00u }) j.push_back({ k, b });
        return j; }();
    vh::exhaustive(("code-points-" + c).c_str(), jobs.size(), [&](Rng&, std::uint64_t i) { points(v[jobs[i].first], jobs[i].second); });
    vh::exhaustive(("units-" + c).c_str(), v.size(), [&](Rng&, std::uint64_t i) { units(v[i]); });
    vh::section(("fills-" + c).c_str(), 6000, 1500000, [](Rng& g, std::uint64_t) { fills(g); });
    vh::section(("values-" + c).c_str(), 2000, 20000, [](Rng& g, std::uint64_t) { values(g); });
    vh::section(("counts-" + c).c_str(), 6000, 1500000, [](Rng& g, std::uint64_t) { counts(g); });
}
VH_MAIN(run)
