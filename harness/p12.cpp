// P12: alignment of everything that can be aligned.
#include "flt.hpp"
#include "wid.hpp"
using namespace gen;
using wid::Wc; using wid::q16;
#ifndef CH
#define CH char
#endif
using C = CH;
using S = std::basic_string<C>;
#ifndef PART
#define PART 0
#endif
#include "aln.hpp"
#if PART == 0
static void strings(Rng& g) {
    with_charset<C>(g, [&](const auto& cs, DestCs dc) { wid::with_wc(g, [&](const auto& wc, Wc k) {
        u32s t = text_for(g, dc, len(g));
        S s = dc.encode<C>(t);
        q16 w = k == Wc::fast ? (q16)s.size() * 0x10000 : wid::width_of<char32_t>(k, t);
        AF a = rand_af(g); tune(g, a, w);
        auto pack = strf::pack(cs, wc);
        if (w <= Q(strf::width_max)) {
            S got;
            switch (g.below(3)) {
                case 0: got = print<C>(g, pack, apply(g, strf::fmt(s), a)); break;
                case 1: got = print<C>(g, pack, apply(g, strf::fmt(std::basic_string_view<C>(s)), a)); break;
                default: if (s.find(C()) == S::npos) got = print<C>(g, pack, apply(g, strf::fmt(s.c_str()), a)); else got = print<C>(g, pack, apply(g, strf::fmt(s), a)); break;
            }
            judge("string", got, s, w, a, dc, vh::show(s) + " " + wid::wc_name(k));
        }
        // cut
        strf::width_t lim = gen_width(g, 40);
        if (g.coin() && t.size()) { q16 v = wid::width_of<C>(k, t.substr(0, g.below(t.size() + 1))) + (g.coin() ? 0 : g.range(-3, 3)); if (v < INT32_MAX) lim = strf::width_t::from_underlying((std::int32_t)v); }
        if (k == Wc::fast && dc.id == Cs::utf && sizeof(C) < 4) return;   // cuts inside characters: P13
        std::pair<std::size_t, q16> c = k == Wc::fast ? wid::cut<char32_t>(k, t, Q(lim)) : wid::cut<C>(k, t, Q(lim));
        // the standard calculator's clusters longer than its internal buffer are judged by P24
        AF b = rand_af(g); tune(g, b, c.second);
        S got = g.coin() ? print<C>(g, pack, apply(g, strf::fmt(s).p(lim), b)) : print<C>(g, pack, apply(g, strf::fmt(s), b).p(lim));
        judge("cut-string", got, dc.encode<C>(t.substr(0, c.first)), c.second, b, dc, vh::show(s) + vh::fmt(" p(%d/65536) ", lim.underlying_value()) + wid::wc_name(k));
    }); });
}
static void transcoded(Rng& g) {
    using O = std::conditional_t<sizeof(C) == 2, char, char16_t>;
    with_charset<C>(g, [&](const auto& cs, DestCs dc) { wid::with_wc(g, [&](const auto& wc, Wc k) {
        u32s t = g.coin() ? wid::gen_wtext(g, len(g)) : gen_text(g, len(g));
        for (auto& c : t) if (wid::gcb(c) == wid::TooNew) c = U'k';
        auto o = enc<O>(t);
        q16 w = wid::width_of<O>(k, t);
        if (w > Q(strf::width_max)) return;
        AF a = rand_af(g); tune(g, a, w);
        S got = g.coin() ? print<C>(g, strf::pack(cs, wc), apply(g, strf::fmt(strf::transcode(o)), a)) : print<C>(g, strf::pack(cs, wc), apply(g, strf::fmt(strf::unsafe_transcode(o)), a));
        judge("transcoded-string", got, dc.encode<C>(t), w, a, dc, vh::show(o) + " " + wid::wc_name(k));
    }); });
}
#endif
#if PART == 1
static void chars(Rng& g) {
    with_charset<C>(g, [&](const auto& cs, DestCs dc) { wid::with_wc(g, [&](const auto& wc, Wc k) {
        char32_t u; C c;
        for (;;) { u = text_for(g, dc, 1)[0]; S e = dc.encode<C>(u32s(1, u)); if (e.size() == 1) { c = e[0]; break; } }
        int n = g.coin() ? 1 : (int)g.range(-3, g.chance(1, 8) ? 700 : 20);
        q16 cw = k == Wc::frac ? wid::frac_w(u) : k == Wc::std ? wid::cp_width(u) * 0x10000 : 0x10000;
        q16 w = n > 0 ? cw * n : 0;
        if (w > Q(strf::width_max)) w = Q(strf::width_max);
        AF a = rand_af(g); tune(g, a, w);
        auto pack = strf::pack(cs, wc);
        S content(n > 0 ? (std::size_t)n : 0, c);
        S got;
        if (n == 1 && g.coin()) got = print<C>(g, pack, apply(g, strf::fmt(c), a));
        else if (g.coin()) got = print<C>(g, pack, apply(g, strf::multi(c, n), a));
        else got = print<C>(g, pack, apply(g, strf::fmt(c), a).multi(n));
        judge("char", got, content, w, a, dc, vh::show(&c, 1) + vh::fmt(" multi(%d) ", n) + wid::wc_name(k));
    }); });
}
static void chars32(Rng& g) {
    with_charset<C>(g, [&](const auto& cs, DestCs dc) { wid::with_wc(g, [&](const auto& wc, Wc k) {
        char32_t u = g.chance(1, 3) ? gen_any_cp(g) : wid::gen_wch(g);
        int n = g.coin() ? 1 : (int)g.range(-3, g.chance(1, 8) ? 300 : 20);
        q16 cw = k == Wc::frac ? wid::frac_w(u) : k == Wc::std ? wid::cp_width(u) * 0x10000 : 0x10000;
        q16 w = n > 0 ? cw * n : 0;
        AF a = rand_af(g); tune(g, a, w);
        auto pack = strf::pack(cs, wc);
        S one = dc.raw<C>(u), content; for (int i = 0; i < n; ++i) content += one;
        S got;
        if (n == 1 && g.coin()) got = print<C>(g, pack, apply(g, strf::fmt(u), a));
        else if (g.coin()) got = print<C>(g, pack, apply(g, strf::multi(u, n), a));
        else got = print<C>(g, pack, apply(g, strf::fmt(u), a).multi(n));
        judge("char32", got, content, w, a, dc, vh::fmt("U+%X multi(%d) ", (unsigned)u, n) + wid::wc_name(k));
    }); });
}
#endif
#if PART == 2
// the text of a number is taken from printing it without alignment: what it must be is P06..P11's business
template <typename Cs, typename F> static void number(Rng& g, const Cs& cs, DestCs dc, const char* kind, F&& f) {
    auto pack = strf::pack(cs, wid::frac_width_t{});
    auto q = f();
    S plain = print<C>(g, pack, q);
    q16 w = (q16)plain.size() * 0x10000;
    AF a = rand_af(g); tune(g, a, w);
    S got = print<C>(g, pack, apply(g, f(), a));
    judge(kind, got, plain, w, a, dc, vh::show(plain));
}
static void numbers(Rng& g) {
    with_charset<C>(g, [&](const auto& cs, DestCs dc) {
        switch (g.below(12)) {
            case 0: { int v = gen_int<int>(g); number(g, cs, dc, "int", [&] { return strf::fmt(v); }); break; }
            case 1: { auto v = gen_int<unsigned long long>(g); number(g, cs, dc, "int-dec", [&] { return strf::dec(v).p(3); }); break; }
            case 2: { auto v = gen_int<long long>(g); int p = (int)g.below(70), z = (int)g.below(80); number(g, cs, dc, "int-hex", [&] { return *strf::hex(v).p(p).pad0(z); }); break; }
            case 3: { auto v = gen_int<short>(g); number(g, cs, dc, "int-bin", [&] { return *strf::bin(v); }); break; }
            case 4: { auto v = gen_int<long>(g); int z = (int)g.below(30); number(g, cs, dc, "int-sign", [&] { return +strf::fmt(v).pad0(z); }); break; }
            case 5: { auto v = gen_float<double>(g); number(g, cs, dc, "double", [&] { return strf::fmt(v); }); break; }
            case 6: { auto v = gen_float<float>(g); int p = (int)g.below(40); number(g, cs, dc, "float-fixed", [&] { return +strf::fixed(v, p); }); break; }
            case 7: { auto v = gen_float<double>(g); int p = (int)g.below(30); number(g, cs, dc, "double-sci", [&] { return *strf::sci(v, p); }); break; }
            case 8: { auto v = gen_float<double>(g); number(g, cs, dc, "double-hex", [&] { return strf::hex(v); }); break; }
            case 9: { bool b = g.coin(); number(g, cs, dc, "bool", [&] { return strf::fmt(b); }); break; }
            case 10: { auto p = (const void*)(std::uintptr_t)gen_int<std::uint64_t>(g); number(g, cs, dc, "pointer", [&] { return strf::fmt(p); }); break; }
            default: { auto v = gen_float<double>(g); int p = (int)g.below(9); number(g, cs, dc, "double-gen", [&] { return strf::gen(v, p); }); break; }
        }
    });
}
#endif
#if PART == 3
static void joins(Rng& g) {
    with_charset<C>(g, [&](const auto& cs, DestCs dc) { auto go = [&](const auto& wc, Wc k) {
        u32s t1 = text_for(g, dc, len(g)), t2 = text_for(g, dc, len(g));
        S s1 = dc.encode<C>(t1), s2 = dc.encode<C>(t2);
        auto W = [&](const u32s& t) { return wid::width_of<C>(k, t); };
        int n = gen_int<int>(g); S ns = ascii<C>(std::to_string(n));
        q16 nw = (q16)ns.size() * 0x10000;
        char32_t u = gen_scalar(g); q16 uw = k == Wc::frac ? wid::frac_w(u) : wid::cp_width(u) * 0x10000; S us = dc.encode<C>(u32s(1, u));
        AF in = rand_af(g), in2 = rand_af(g), out = rand_af(g);
        auto pack = strf::pack(cs, wc);
        auto fill_w = [&](q16 w, const AF& a) { int m = Q(a.w) > w ? round_q(Q(a.w) - w) : 0; return w + (q16)(m > 0 ? m : 0) * 0x10000; };
        S got, content; q16 w; const char* kind;
        switch (g.below(6)) {
            case 0: kind = "join"; w = W(t1) + nw; tune(g, out, w); content = s1 + ns; got = print<C>(g, pack, apply(g, strf::fmt(strf::join(s1, n)), out)); break;
            case 1: { kind = "join-of-aligned"; tune(g, in, W(t1)); w = fill_w(W(t1), in) + nw + uw; tune(g, out, w); content = expected(s1, W(t1), in, dc) + ns + us;
                got = print<C>(g, pack, apply(g, strf::fmt(strf::join(apply(g, strf::fmt(s1), in), n, u)), out)); break; }
            case 2: { kind = "nested-join"; q16 w1 = nw + W(t2); tune(g, in, w1); w = W(t1) + fill_w(w1, in) + uw; tune(g, out, w); content = s1 + expected(ns + s2, w1, in, dc) + us;
                got = print<C>(g, pack, apply(g, strf::fmt(strf::join(s1, apply(g, strf::fmt(strf::join(n, s2)), in), u)), out)); break; }
            case 3: kind = "empty-join"; w = 0; tune(g, out, w); got = print<C>(g, pack, apply(g, strf::fmt(strf::join()), out)); break;
            case 4: { kind = "join_left/right/center"; w = W(t1) + nw; tune(g, out, w); content = s1 + ns;
                got = out.al == Al::left ? print<C>(g, pack, strf::join_left(out.w, out.fill)(s1, n)) : out.al == Al::right ? print<C>(g, pack, strf::join_right(out.w, out.fill)(s1, n)) : print<C>(g, pack, strf::join_center(out.w, out.fill)(s1, n)); break; }
            default: { kind = "deep-join"; q16 w0 = W(t2); tune(g, in, w0); q16 w1 = fill_w(w0, in) + uw; tune(g, in2, w1); w = fill_w(w1, in2) + nw; tune(g, out, w); content = expected(expected(s2, w0, in, dc) + us, w1, in2, dc) + ns;
                got = print<C>(g, pack, apply(g, strf::fmt(strf::join(apply(g, strf::fmt(strf::join(apply(g, strf::fmt(strf::join(s2)), in), u)), in2), n)), out)); break; }
        }
        if (w > Q(strf::width_max)) return;
        judge(kind, got, content, w, out, dc, vh::fmt("content %s, inner %s / %s, ", vh::show(content, 80).c_str(), af_desc(in).c_str(), af_desc(in2).c_str()) + wid::wc_name(k));
    }; if (g.coin()) go(strf::std_width_calc, Wc::std); else go(wid::frac_width_t{}, Wc::frac); });
}
#endif
static void run() {
    std::string cn = cname<C>::v;
#if PART == 0
    vh::section(("strings-" + cn).c_str(), 30000, 2000000, [](Rng& g, std::uint64_t) { strings(g); });
    vh::section(("transcoded-" + cn).c_str(), 20000, 1500000, [](Rng& g, std::uint64_t) { transcoded(g); });
#elif PART == 1
    vh::section(("chars-" + cn).c_str(), 30000, 2000000, [](Rng& g, std::uint64_t) { chars(g); });
    vh::section(("char32-" + cn).c_str(), 30000, 2000000, [](Rng& g, std::uint64_t) { chars32(g); });
#elif PART == 2
    vh::section(("numbers-" + cn).c_str(), 60000, 3000000, [](Rng& g, std::uint64_t) { numbers(g); });
#else
    vh::section(("joins-" + cn).c_str(), 40000, 2000000, [](Rng& g, std::uint64_t) { joins(g); });
#endif
}
VH_MAIN(run)
