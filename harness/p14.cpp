// P14: characters, as code units and as code points.
#include "tc.hpp"
#include "wid.hpp"
using namespace gen;
using wid::Wc; using wid::q16;
#ifndef CH
#define CH char
#endif
using C = CH;
using S = std::basic_string<C>;
static q16 Q(strf::width_t w) { return w.underlying_value(); }
static q16 cw(Wc k, char32_t u) { return k == Wc::frac ? wid::frac_w(u) : k == Wc::std ? (q16)wid::cp_width(u) * 0x10000 : 0x10000; }
// what a lone code point is written as
static S raw(const tc::Ch& cs, char32_t c) {
    if (cs.kind == tc::Kind::sb || cs.kind == tc::Kind::user) return tc::encode1<C>(cs, c);
    return DestCs{}.raw<C>(c);
}
static S padded(const S& content, q16 w, const AF& a, const tc::Ch& cs) {
    q16 d = Q(a.w) - w; int n = d > 0 ? (int)((d + 0x7FFF) >> 16) : 0, l = a.al == Al::left ? 0 : a.al == Al::right ? n : n / 2;
    S f = raw(cs, a.fill), r;
    for (int i = 0; i < l; ++i) r += f;
    r += content;
    for (int i = l; i < n; ++i) r += f;
    if (n > 0) vh::event("filled");
    return r;
}
static long long count(Rng& g) { switch (g.below(8)) { case 0: return 0; case 1: return -(long long)g.below(5); case 2: return (long long)g.below(300); case 3: return (long long)g.below(80) + 30; case 4: return g.chance(1, 40) ? (long long)g.below(70000) : 64; default: return (long long)g.below(12) + 1; } }
static void tune(Rng& g, AF& a, q16 w) { if (g.coin()) { q16 v = w + (q16)g.range(-2, 8) * 0x10000; static const int f[] = { 0, 0, 0x8000, 0x7FFF, 0x8001, 1, -1 }; v += g.pick(f); if (v < INT32_MAX && v > INT32_MIN) a.w = strf::width_t::from_underlying((std::int32_t)v); } }
static void sat(q16& w) { w = std::min(w, Q(strf::width_max)); }
static S rep(const S& s, long long n) { S r; for (; n > 0; --n) r += s; return r; }
// the code unit, whatever it is
static void units(Rng& g) { wid::with_wc(g, [&](const auto& wc, Wc k) {
    auto cs = tc::any_dynamic<C>(g);
    C c = (C)(g.coin() ? g.range(0, 255) : sizeof(C) == 4 && g.chance(1, 6) ? (std::int64_t)(std::uint32_t)gen_any_cp(g) : (std::int64_t)g.below(0x10000));
    if (g.chance(1, 3)) c = (C)g.range(0x20, 0x7E);
    char32_t u = tc::unit(c);
    // the code point it is: a part of a character is U+FFFD, a surrogate counts as any narrow one
    auto seg = tc::decode(cs.second, &c, 1, true)[0];
    u = seg.ok ? seg.cp : 0xFFFD;
    if (k == Wc::frac && !seg.ok && sizeof(C) == 4) u = tc::unit(c);
    bool narrow_surrogate = tc::surrogate(u);
    if (!narrow_surrogate && k == Wc::std && wid::gcb(u) == wid::TooNew) return;
    q16 one = cw(k, u); if (narrow_surrogate && k != Wc::frac) one = 0x10000;
    if (narrow_surrogate && k == Wc::frac && sizeof(C) == 2) return;      // the harness's own calculator
    auto pk = strf::pack(cs.first, wc);
    long long n = 1; S got, want; const char* kind; std::string d;
    AF a = gen_af(g, 80); if (g.chance(1, 4)) a.fill = gen_any_cp(g);
    switch (g.below(7)) {
        case 0: kind = "plain"; got = print<C>(g, pk, c); want = S(1, c); break;
        case 1: kind = "fmt"; got = print<C>(g, pk, strf::fmt(c)); want = S(1, c); break;
        case 2: kind = "multi"; n = count(g); got = print<C>(g, pk, strf::multi(c, n)); want = rep(S(1, c), n); break;
        case 3: kind = "several"; n = count(g); got = print<C>(g, pk, c, strf::fmt(c).multi(n), c, c); want = rep(S(1, c), (n > 0 ? n : 0) + 3); break;
        case 4: { kind = "in-join"; n = count(g); if (n > 400) n = 400; q16 w = one * ((n > 0 ? n : 0) + 1); tune(g, a, w); got = print<C>(g, pk, strf::fmt(strf::join(c, strf::multi(c, n))).set_alignment_format(to_strf(a))); want = padded(rep(S(1, c), (n > 0 ? n : 0) + 1), w, a, cs.second); break; }
        case 5: { kind = "aligned"; tune(g, a, one); got = print<C>(g, pk, strf::fmt(c).set_alignment_format(to_strf(a))); want = padded(S(1, c), one, a, cs.second); break; }
        default: { kind = "multi-aligned"; n = count(g); q16 w = n > 0 ? one * n : 0; sat(w); tune(g, a, w); got = g.coin() ? print<C>(g, pk, strf::multi(c, n).set_alignment_format(to_strf(a))) : print<C>(g, pk, strf::fmt(c).set_alignment_format(to_strf(a)).multi(n)); want = padded(rep(S(1, c), n), w, a, cs.second); break; }
    }
    if (n <= 0) vh::event("printed-no-times");
    if (n > 64) vh::event("printed-more-times-than-a-buffer-holds");
    expect_eq(got, want, kind, std::string(kind) + vh::fmt(" unit 0x%X n=%lld width=%d/65536 ", (unsigned)tc::unit(c), n, a.w.underlying_value()) + al_name(a.al) + " " + wid::wc_name(k) + " " + cs.second.name);
    vh::nontrivial(vh::hash_of(got, kind, (int)k));
    if (vh::want_sample()) vh::sample(std::string(kind) + vh::fmt(" unit 0x%X n=%lld ", (unsigned)tc::unit(c), n) + cs.second.name);
}); }
// the code point
static void points(Rng& g) { wid::with_wc(g, [&](const auto& wc, Wc k) {
    auto cs = tc::any_dynamic<C>(g);
    char32_t c = g.chance(1, 3) ? gen_any_cp(g) : g.coin() ? wid::gen_wch(g) : (char32_t)g.below(0x180);
    if (c < 0x110000 && !tc::surrogate(c) && wid::gcb(c) == wid::TooNew) return;
    q16 one = c < 0x110000 && !tc::surrogate(c) ? cw(k, c) : k == Wc::frac ? wid::frac_w(c) : 0x10000;
    auto pk = strf::pack(cs.first, wc);
    S r = raw(cs.second, c), got, want; const char* kind; long long n = 1;
    AF a = gen_af(g, 80); if (g.chance(1, 4)) a.fill = gen_any_cp(g);
    switch (g.below(7)) {
        case 0: kind = "plain32"; got = print<C>(g, pk, c); want = r; break;
        case 1: kind = "fmt32"; got = print<C>(g, pk, strf::fmt(c)); want = r; break;
        case 2: kind = "multi32"; n = count(g); got = print<C>(g, pk, strf::multi(c, n)); want = rep(r, n); break;
        case 3: kind = "several32"; n = count(g); got = print<C>(g, pk, c, strf::fmt(c).multi(n), c, c); want = rep(r, (n > 0 ? n : 0) + 3); break;
        case 4: { kind = "in-join32"; n = count(g); if (n > 400) n = 400; q16 w = one * ((n > 0 ? n : 0) + 1); tune(g, a, w); got = print<C>(g, pk, strf::fmt(strf::join(c, strf::multi(c, n))).set_alignment_format(to_strf(a))); want = padded(rep(r, (n > 0 ? n : 0) + 1), w, a, cs.second); break; }
        case 5: { kind = "aligned32"; tune(g, a, one); got = print<C>(g, pk, strf::fmt(c).set_alignment_format(to_strf(a))); want = padded(r, one, a, cs.second); break; }
        default: { kind = "multi-aligned32"; n = count(g); q16 w = n > 0 ? one * n : 0; sat(w); tune(g, a, w); got = g.coin() ? print<C>(g, pk, strf::multi(c, n).set_alignment_format(to_strf(a))) : print<C>(g, pk, strf::fmt(c).set_alignment_format(to_strf(a)).multi(n)); want = padded(rep(r, n), w, a, cs.second); break; }
    }
    if (!tc::has(cs.second, c)) vh::event("not-in-charset");
    if (n <= 0) vh::event("printed-no-times");
    expect_eq(got, want, kind, std::string(kind) + vh::fmt(" U+%X n=%lld width=%d/65536 ", (unsigned)c, n, a.w.underlying_value()) + al_name(a.al) + " " + wid::wc_name(k) + " " + cs.second.name);
    vh::nontrivial(vh::hash_of(got, kind, (int)k));
    if (vh::want_sample()) vh::sample(std::string(kind) + vh::fmt(" U+%X n=%lld ", (unsigned)c, n) + cs.second.name + " -> " + vh::show(got, 40));
}); }
// every code point, in every charset (quick: in some of them)
static void sweep(Rng& g, std::uint64_t i) {
    std::uint64_t block = i % 0x1101, which = i / 0x1101;
    auto cs = tc::utf_dynamic<C>();
    if constexpr (sizeof(C) == 1) { if (vh::rt().thorough ? which != 0 : g.coin()) cs = tc::sb_dynamic<C>((int)((vh::rt().thorough ? which - 1 : g.next()) % tc::sb_count)); }
    S want; auto s = g.next();
    TinyDst<C> d(s, g.below(9), 7);
    for (char32_t c = (char32_t)(block << 8); c < (block + 1) << 8; ++c) { strf::to(d).with(cs.first)(c, strf::multi(c, 2)); want += rep(raw(cs.second, c), 3); }
    S got = d.finish();
    vh::event("code-points-swept", 256);
    if (got != want) for (std::size_t j = 0; ; ++j) if (j >= got.size() || j >= want.size() || got[j] != want[j]) { vh::violation("sweep", vh::fmt("block U+%X.. in %s differs at unit %zu: ", (unsigned)(block << 8), cs.second.name, j) + vh::show(got.substr(j < got.size() ? j : got.size(), 12)) + " expected " + vh::show(want.substr(std::min(j, want.size()), 12))); break; }
    vh::nontrivial(vh::hash_of(got));
}
// counts that can not be printed in practice can still be measured
static void measured(Rng& g) {
    auto cs = tc::any_dynamic<C>(g);
    static const std::int64_t ns[] = { 0x7FFFFFFF, 0x80000000ll, 0xFFFFFFFFll, 0x100000000ll, 0x100000005ll, 1ll << 40, 32767, 32768, 65536, -1, -0x80000000ll, -0x100000001ll };
    std::int64_t n = g.pick(ns); std::int64_t m = n > 0 ? n : 0;
    char32_t c = gen_scalar(g); bool unit = g.coin();
    S r = unit ? S(1, (C)'x') : raw(cs.second, c);
    AF a = gen_af(g, 100);
    strf::full_premeasurements pre(strf::width_max);
    auto pk = strf::pack(cs.first, strf::fast_width);
    if (unit) strf::measure<C>(&pre, pk, strf::multi((C)'x', n).set_alignment_format(to_strf(a))); else strf::measure<C>(&pre, pk, strf::multi(c, n).set_alignment_format(to_strf(a)));
    q16 w = m > 32767 ? Q(strf::width_max) : m * 0x10000; q16 d = Q(a.w) - w; std::int64_t fill = d > 0 ? (d + 0x7FFF) >> 16 : 0;
    std::int64_t least = m * (std::int64_t)r.size() + fill * (std::int64_t)raw(cs.second, a.fill).size();
    if (pre.accumulated_ssize() < least) vh::violation("measured-size", vh::fmt("multi(%lld) measures %td, prints %lld", (long long)n, pre.accumulated_ssize(), (long long)least));
    q16 ww = std::min<q16>(w + fill * 0x10000, Q(strf::width_max));
    if (Q(pre.accumulated_width()) != ww) vh::violation("measured-width", vh::fmt("multi(%lld) to width %d measures width %d/65536, not %lld", (long long)n, a.w.underlying_value(), pre.accumulated_width().underlying_value(), (long long)ww));
    vh::event("measured"); vh::nontrivial(vh::hash_of(n, c, unit, a.w.underlying_value()));
}
static void run() {
    std::string cn = cname<C>::v;
    vh::section(("units-" + cn).c_str(), 60000, 3000000, [](Rng& g, std::uint64_t) { units(g); });
    if constexpr (!std::is_same<C, char32_t>::value) {
        vh::section(("points-" + cn).c_str(), 60000, 3000000, [](Rng& g, std::uint64_t) { points(g); });
        vh::section(("sweep-" + cn).c_str(), 0x1101, sizeof(C) == 1 ? 0x1101 * 26 : 0x1101, [](Rng& g, std::uint64_t i) { sweep(g, i); });
    }
    vh::section(("measured-" + cn).c_str(), 2000, 100000, [](Rng& g, std::uint64_t) { measured(g); });
}
VH_MAIN(run)
