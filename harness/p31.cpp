// P31: what is printed with a charset of the user's own is what is printed in UTF-32, encoded in it: numbers with their
// punctuation, fills, characters, strings of any charset, ranges, joins and tr-strings; in every way of printing.
// Each case is a function of the destination's character type that makes the same draws in both.
#define USER_CS 1
#include "tc.hpp"
#include <list>
#include <array>
using namespace gen;
#ifndef CH
#define CH char
#endif
#ifndef WHICH
#define WHICH 1
#endif
#ifndef PART
#define PART 0
#endif
using C = CH;
using S = std::basic_string<C>;
constexpr strf::charset_id ID = ucs::sized((ucs::Which)(0x7F010000u + 0x10 * WHICH), sizeof(C));
using My = strf::static_charset<C, ID>;
static const tc::Ch& me() { static const tc::Ch c = ucs::ch(ID); return c; }
// code points: of the charset, or any
static char32_t own_cp(Rng& g) { switch (g.below(4)) { case 0: return (char32_t)g.range(0x20, 0x7E); case 1: return ucs::three0 + (char32_t)g.below(ucs::threeN); default: return g.pick(ucs::two()); } }
static char32_t some_cp(Rng& g) { return g.chance(2, 3) ? own_cp(g) : gen_scalar(g); }
static u32s own_text(Rng& g, std::size_t n) { u32s s; for (; n; --n) s += own_cp(g); return s; }
static u32s some_text(Rng& g, std::size_t n) { u32s s; for (; n; --n) s += some_cp(g); return s; }
static std::size_t len(Rng& g) { switch (g.below(5)) { case 0: return 0; case 1: return g.below(200); case 2: return 60 + g.below(10); default: return g.below(12); } }
static S encode(const u32s& s) { S o; for (char32_t c : s) o += tc::encode1<C>(me(), c); return o; }
// text in the destination's charset
template <typename D> static std::basic_string<D> dst(const u32s& s) { if constexpr (std::is_same<D, char32_t>::value) return s; else return encode(s); }
// ill-formed text of the charset: units here, and decoded there
template <typename D> static std::basic_string<D> bad(Rng& g) {
    auto s = tc::gen_src<C>(g, me(), len(g), true);
    if constexpr (std::is_same<D, char32_t>::value) { u32s o; for (auto& x : tc::decode(me(), s.data(), s.size(), false)) o += x.ok ? x.cp : 0xFFFD; return o; } else return s;
}
static strf::alignment_format af(Rng& g) { auto a = gen_af(g, g.chance(1, 8) ? 300 : 40); if (g.coin()) a.fill = some_cp(g); else if (tc::surrogate(a.fill) || a.fill >= 0x110000) a.fill = U'*'; return to_strf(a); }
static strf::digits_grouping grouping(Rng& g) { switch (g.below(4)) { case 0: return strf::digits_grouping((int)g.range(1, 6)); case 1: return strf::digits_grouping("\1\2\3\4"); case 2: return strf::digits_grouping("\3\2"); default: return strf::digits_grouping(3); } }
// separators that the charset does not have are not printed
template <int B> static strf::numpunct<B> punct(Rng& g) { auto gr = grouping(g); auto sep = some_cp(g), pt = some_cp(g); if (!tc::has(me(), sep)) { gr = strf::digits_grouping{}; vh::event("separator left out"); } else if (sep > 0x7F) vh::event("separator of several units"); auto r = strf::numpunct<B>(gr); r.thousands_sep(sep); r.decimal_point(pt); return r; }
// the real one is given what it does not have
template <typename D, int B> static strf::numpunct<B> punct_for(Rng& g) {
    if constexpr (std::is_same<D, char32_t>::value) return punct<B>(g);
    else { auto gr = grouping(g); auto sep = some_cp(g), pt = some_cp(g); auto r = strf::numpunct<B>(gr); r.thousands_sep(sep); r.decimal_point(pt); return r; }
}
static double dbl(Rng& g) { switch (g.below(5)) { case 0: return (double)g.range(-10000000, 10000000) / 64.0; case 1: return std::ldexp(1.0 + (double)g.below(1000) / 1000, (int)g.range(-70, 90)); case 2: { static const double e[] = { 0.0, -0.0, HUGE_VAL, -HUGE_VAL, NAN, 1e22, 5e-324, 1234567.0 }; return g.pick(e); } default: return (double)g.range(-1000000, 1000000); } }
// one case: draws, and prints with what(args...)
template <typename D, typename Pk, typename F> static void one(Rng& g, unsigned k, const Pk& pk, F&& p) {
    using T = std::basic_string<D>;
    switch (k) {
#if PART == 0
        case 0: { auto x = gen_int<long long>(g); auto y = gen_int<unsigned>(g); auto a = af(g); auto n1 = punct_for<D, 10>(g); auto n2 = punct_for<D, 16>(g); auto n3 = punct_for<D, 8>(g); auto n4 = punct_for<D, 2>(g); int pr = (int)g.below(30), z = (int)g.below(40);
            p(strf::pack(pk, n1, n2, n3, n4), x, !strf::dec(x).set_alignment_format(a), !*strf::hex(y).p(pr), (!strf::oct(y).pad0(z)).set_alignment_format(a), !strf::bin((unsigned short)y), ~strf::fmt(x).set_alignment_format(a)); return; }
        case 1: { auto d = dbl(g); auto a = af(g); auto n1 = punct_for<D, 10>(g); auto n2 = punct_for<D, 16>(g); int pr = (int)g.below(25), z = (int)g.below(40);
            p(strf::pack(pk, n1, n2), d, (!strf::fixed(d, pr)).set_alignment_format(a), *!strf::gen(d).pad0(z), (!*strf::sci((float)d)).set_alignment_format(a), (!*strf::hex(d)).set_alignment_format(a), ~strf::fmt(d).set_alignment_format(a)); return; }
        case 2: { auto c = some_cp(g), c2 = some_cp(g); auto a = af(g); int n = (int)g.below(g.chance(1, 6) ? 300 : 9); auto x = (char32_t)g.range(0x20, 0x7E); bool b = g.coin(); auto lc = g.coin() ? strf::uppercase : strf::mixedcase; auto v = (void*)(std::uintptr_t)g.next();
            p(strf::pack(pk, lc), c, strf::multi(c2, n), strf::multi(c, n).set_alignment_format(a), (D)x, strf::multi((D)x, n).set_alignment_format(a), b, strf::fmt(b).set_alignment_format(a), strf::fmt(v).set_alignment_format(a)); return; }
        case 3: { std::vector<int> v; for (auto n = g.below(6); n; --n) v.push_back((int)gen_int<short>(g)); std::list<double> w; for (auto n = g.below(4); n; --n) w.push_back(dbl(g)); T sep = dst<D>(own_text(g, g.below(5))); sep = sep.substr(0, sep.find(D())); auto a = af(g); auto n1 = punct_for<D, 10>(g);
            auto op = [](double x) { return strf::join((D)'<', !strf::fixed(x), (D)'>'); };
            p(strf::pack(pk, n1), strf::range(v), strf::separated_range(v, sep.c_str()), (!strf::fmt_separated_range(v, sep.c_str())).set_alignment_format(a), strf::separated_range(w, sep.c_str(), op)); return; }
#else
        case 0: { T s = dst<D>(own_text(g, len(g))), t = bad<D>(g); auto a = af(g); auto pr = gen_width(g, 30);
            p(strf::pack(pk), s, strf::fmt(s).set_alignment_format(a), strf::fmt(s).p(pr).set_alignment_format(a), strf::sani(t), strf::fmt(strf::sani(t)).set_alignment_format(a)); return; }
        case 1: { auto u = some_text(g, len(g)); auto s8 = enc<char>(u); auto s16 = enc<char16_t>(u); auto a = af(g); auto pr = gen_width(g, 30); if (!s8.empty() && g.coin()) s8.erase(g.below(s8.size()), 1);
            if (g.coin()) u += (char32_t)(g.coin() ? 0xDC00 : 0x110000);
            // whose precision cuts text, as of U+FFFD: only when it's so in both (what is cut is measured in code points)
            p(strf::pack(pk), strf::conv(u, strf::utf32<char32_t>), strf::fmt(strf::conv(s8, strf::utf8<char>)).set_alignment_format(a), strf::fmt(strf::conv(s16, strf::utf16<char16_t>)).p(pr), strf::fmt(strf::sani(s8, strf::utf8<char>)).p(pr).set_alignment_format(a)); return; }
        case 2: { auto i = (int)g.below(sbt::count); auto q = tc::sb_dynamic<char>(i); auto s = tc::gen_src<char>(g, q.second, len(g), true); auto v = tc::user_dynamic<char16_t>(g); auto t = tc::gen_src<char16_t>(g, v.second, len(g), sizeof(C) != 2); auto a = af(g);
            p(strf::pack(pk), strf::conv(s, q.first), strf::fmt(strf::conv(t, v.first)).set_alignment_format(a)); return; }
        case 3: { T s = dst<D>(own_text(g, len(g))); auto x = gen_int<int>(g); auto c = some_cp(g); auto a = af(g), b = af(g); auto n1 = punct_for<D, 10>(g); auto u = some_text(g, len(g));
            p(strf::pack(pk, n1), strf::join(s, x, c), strf::fmt(strf::join(s, !strf::dec(x), strf::transcode(u, strf::utf32<char32_t>))).set_alignment_format(a), strf::fmt(strf::join(strf::fmt(strf::join(c, s)).set_alignment_format(b), x)).set_alignment_format(a)); return; }
#endif
    }
}
template <typename D, typename F> static std::basic_string<D> tr_case(Rng& g, F&& f) {
    // tr-strings are searched for '{' and '}' by code unit: trails that are those are left out
    auto txt = [&] { u32s u = own_text(g, g.below(12)), r; for (char32_t c : u) { auto e = tc::encode1<C>(me(), c); if (e.find((C)'{') == S::npos && e.find((C)'}') == S::npos) r += c; } return r; };
    u32s t; for (auto n = g.below(7); n; --n) { static const char* const p[] = { "{}", "{{", "{0}", "{1}", "{2}", "{5}", "{-a}", "{n}", "{}", "{ }" }; t += u32(g.pick(p)); t += txt(); }
    auto t2 = txt(); t2 += U"{}"; t2 += txt(); t2 += U"{7}";
    auto T = dst<D>(t), T2 = dst<D>(t2); auto s = dst<D>(own_text(g, len(g))); auto x = gen_int<int>(g); auto c = some_cp(g); auto n1 = punct_for<D, 10>(g); auto a = af(g);
    return f(n1, T, T2, s, x, c, a);
}
template <typename Pk> static S printed(Rng& h, Rng& g, unsigned k, const Pk& pk) {
    S r; Rng way = h;
    one<C>(g, k, pk, [&](const auto& p, const auto&... a) {
        switch (way.below(5)) {
            case 0: vh::event("reserve_calc"); r = strf::to_basic_string<C>.with(p).reserve_calc()(a...); break;
            case 1: vh::event("no_reserve"); r = strf::to_basic_string<C>.with(p).no_reserve()(a...); break;
            case 2: { vh::event("array of just the size"); strf::full_premeasurements pre(strf::width_max); strf::measure<C>(&pre, p, a...); auto n = pre.accumulated_ssize(); std::unique_ptr<C[]> b(new C[(std::size_t)n + 1]); auto f = strf::to(b.get(), b.get() + n + 1).with(p)(a...);
                if (f.truncated) vh::violation("measured-too-small", vh::fmt("case %u: %td", k, n)); r.assign(b.get(), f.ptr); break; }
            case 3: vh::event("line"); r = strf::to_basic_string<C>.with(p).line(a...); if (r.empty() || r.back() != (C)'\n') vh::violation("line", "no line feed"); else r.pop_back(); break;
            default: vh::event("small buffers"); r = print<C>(way, p, a...);
        }
    });
    return r;
}
static void cases(Rng& g, std::uint64_t) {
    Rng a = g, b = g; unsigned k = (unsigned)a.below(4); b.below(4); bool dyn = a.coin(); b.coin(); auto c0 = ucs::calls();
    Rng w(g.next());
    auto got = dyn ? printed(w, a, k, My::to_dynamic()) : printed(w, a, k, My{});
    if (ucs::calls() != c0) vh::event("the charset was called");
    u32s want; one<char32_t>(b, k, strf::utf32<char32_t>, [&](const auto& p, const auto&... x) { want = strf::to_u32string.with(p).no_reserve()(x...); });
    if (a.next() != b.next()) vh::violation("harness", "draws differ");
    auto e = encode(want); vh::event(dyn ? "dynamic" : "static");
    expect_eq(got, e, "printed", vh::fmt("case %u.%u %s %s UTF-32: ", PART, k, dyn ? "dynamic" : "static", me().name) + show32(want));
    vh::nontrivial(vh::hash_of(got, k, dyn));
}
#if PART == 1
static void trs(Rng& g, std::uint64_t) {
    Rng a = g, b = g; bool dyn = a.coin(); b.coin(); unsigned way = (unsigned)a.below(3); b.below(3); Rng w(g.next());
    auto run = [&](const auto& pk) { return tr_case<C>(a, [&](const auto& n1, const auto& T, const auto& T2, const auto& s, auto x, auto c, const auto& al) {
        auto p = strf::pack(pk, n1); auto in = strf::fmt(strf::join(strf::tr(T2, s, c), x)).set_alignment_format(al);
        switch (way) {
            case 0: return strf::to_basic_string<C>.with(p).reserve_calc().tr(T, s, !strf::dec(x), c).append(strf::to_basic_string<C>.with(p)(in, strf::tr(T2, c)));
            case 1: return strf::to_basic_string<C>.with(p).no_reserve().tr(T, s, !strf::dec(x), c).append(strf::to_basic_string<C>.with(p).no_reserve()(in, strf::tr(T2, c)));
            default: { auto d = tiny<C>(w); strf::to(d).with(p).tr(T, s, !strf::dec(x), c); strf::to(d).with(p)(in, strf::tr(T2, c)); return d.finish(); }
        } }); };
    S got = dyn ? run(My::to_dynamic()) : run(My{});
    u32s want = tr_case<char32_t>(b, [&](const auto& n1, const auto& T, const auto& T2, const auto& s, auto x, auto c, const auto& al) {
        auto p = strf::pack(strf::utf32<char32_t>, n1); auto in = strf::fmt(strf::join(strf::tr(T2, s, c), x)).set_alignment_format(al);
        return strf::to_u32string.with(p).no_reserve().tr(T, s, !strf::dec(x), c) + strf::to_u32string.with(p).no_reserve()(in, strf::tr(T2, c)); });
    if (a.next() != b.next()) vh::violation("harness", "draws differ");
    expect_eq(got, encode(want), "tr", vh::fmt("tr way %u %s %s UTF-32: ", way, dyn ? "dynamic" : "static", me().name) + show32(want));
    if (want.find(U'\xFFFD') != u32s::npos) vh::event("replacement characters in tr-strings");
    vh::event("tr"); vh::nontrivial(vh::hash_of(got, 77, dyn));
}
#endif
static void body() {
    vh::section("cases", 6000, 400000, cases);
#if PART == 1
    vh::section("tr", 4000, 200000, trs);
#endif
}
VH_MAIN(body)
