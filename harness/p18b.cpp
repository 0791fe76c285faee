// P18, one argument at a time: each kind of argument, in each form that is printed by
// code of its own, takes a constrained facet if and only if the constraint accepts
// what represents it.  A facet constrained to just that (and to all but that) is
// compared with the same facet and with the other one, unconstrained.
#include "gen.hpp"
#include <list>
using namespace gen;
#ifndef CH
#define CH char
#endif
#ifndef PART
#define PART 0
#endif
using C = CH;
using S = std::basic_string<C>;
struct RtWc { using category = strf::width_calculator_c; int m;
    template <typename Cs> strf::width_t char_width(Cs, typename Cs::code_unit) const { return (std::int16_t)m; }
    template <typename Cs> strf::width_t str_width(Cs, strf::width_t limit, const typename Cs::code_unit* b, const typename Cs::code_unit* e) const { strf::width_t w = (std::int16_t)(m * (e - b)); return w < limit ? w : limit; }
    template <typename Cs> auto str_width_and_pos(Cs, strf::width_t limit, const typename Cs::code_unit* b, const typename Cs::code_unit* e) const -> strf::width_and_ptr<typename Cs::code_unit> { int n = 0; int l = limit.floor(); while (b != e && (n + 1) * m <= l) { ++n; ++b; } return { (std::int16_t)(n * m), b }; } };
template <typename Tag> struct Of { template <typename T> using only = std::is_same<T, Tag>; template <typename T> using others = std::integral_constant<bool, !std::is_same<T, Tag>::value>; };
static std::string g_who;
template <typename Pk, typename A> static S show(unsigned route, Rng& g, const Pk& pk, const A& a) {
    S r;
    switch (route) {
        case 0: r = strf::to_basic_string<C>.with(pk)(a); break;
        case 1: r = strf::to_basic_string<C>.with(pk).reserve_calc()(a, (C)'.'); break;
        case 2: { auto d = TinyDst<C>(g.next(), (unsigned)g.below(40)); strf::to(d).with(pk)((C)'<', a, (C)'>'); r = d.finish(); break; }
        default: r = strf::to_basic_string<C>.with(pk)(strf::join_right(40)(a, (C)'.'));
    }
    return r;
}
template <typename Tag, typename A, typename F> static void one(Rng& g, const char* name, bool known, const A& arg, const F& x, const F& y) {
    unsigned route = (unsigned)g.below(std::is_same<F, RtWc>::value ? 3 : 4); // the join's own characters have widths too
    using O = Of<Tag>;
    auto px = strf::pack(x), py = strf::pack(y);
    auto sx = show(route, g, px, arg), sy = show(route, g, py, arg);
    if (sx == sy) { vh::event("no difference to see"); return; }
    vh::event(name); vh::event("facet seen in the output");
    auto judge = [&](const auto& pk, const auto& want, const char* what) {
        auto got = show(route, g, pk, arg);
        if (got != want) vh::violation(known && got == (want == sx ? sy : sx) /* as if for float */ ? "unformatted-double-takes-lettercase-constrained-to-float" : "by-argument", vh::fmt("%s, route %u, %s: printed ", name, route, what) + vh::show(got) + " expected " + vh::show(want));
    };
    switch (g.below(3)) {
        case 0: judge(strf::pack(x, strf::constrain<O::template only>(y)), sy, "constrained to it, over another"); judge(strf::pack(x, strf::constrain<O::template others>(y)), sx, "constrained to all others, over another"); break;
        case 1: judge(strf::pack(strf::constrain<O::template only>(y), x), sx, "constrained to it, under another"); judge(strf::pack(y, strf::constrain<O::template only>(x)), sx, "constrained to it"); break;
        default: judge(strf::pack(strf::constrain<O::template only>(x), strf::constrain<O::template others>(y)), sx, "one for it, one for all others"); judge(strf::pack(strf::constrain<O::template others>(x), strf::constrain<O::template only>(y)), sy, "one for all others, one for it");
    }
    vh::nontrivial(vh::hash_of(name, sx, sy, route));
    if (vh::want_sample()) vh::sample(std::string(name) + ": " + vh::show(sx) + " or " + vh::show(sy));
}
template <typename Tag, typename A> static void lc(Rng& g, const char* n, const A& a, bool known = false) { one<Tag>(g, n, known, a, strf::lowercase, strf::uppercase); }
template <typename Tag, int B, typename A> static void np(Rng& g, const char* n, const A& a) { one<Tag>(g, n, false, a, strf::numpunct<B>(2).thousands_sep(U'\'').decimal_point(U':'), strf::numpunct<B>(3).thousands_sep(U'_').decimal_point(U';')); }
template <typename Tag, typename A> static void wc(Rng& g, const char* n, const A& a) { one<Tag>(g, n, false, a, RtWc{ 1 }, RtWc{ 2 }); }
static strf::width_t w9(Rng& g) { return strf::width_t((int)g.range(8, 30)); }

#if PART == 0
template <typename I> static void ints(Rng& g, const char* n) { // the names of the events are those of the sections
    using T = I; T v = (T)(gen_int<T>(g) | (T)0x4A); if (v < 0) v = (T)(v ^ std::numeric_limits<T>::min()); auto w = w9(g);
    std::string s(n); auto nm = [&](const char* f) { g_who = s + f; return g_who.c_str(); };
    switch (g.below(15)) {
        case 0: lc<T>(g, nm(" hex"), strf::hex(v)); break;
        case 1: lc<T>(g, nm(" hex aligned"), strf::hex(v) > w); break;
        case 2: lc<T>(g, nm(" hex prefixed"), *strf::hex(v)); break;
        case 3: lc<T>(g, nm(" hex precision"), strf::hex(v).p(12)); break;
        case 4: lc<T>(g, nm(" hex punctuated"), !strf::hex(v)); break;
        case 5: lc<T>(g, nm(" base(16)"), strf::fmt(v).base(16)); break;
        case 6: lc<T>(g, nm(" base(2) prefixed"), *strf::fmt(v).base(2)); break;
        case 7: lc<T>(g, nm(" bin prefixed"), *strf::bin(v).p(4)); break;
        case 8: np<T, 10>(g, nm(" dec punctuated"), !strf::dec(v).p(9)); break;
        case 9: np<T, 10>(g, nm(" dec punctuated aligned"), +!strf::dec(v).p(9) < w); break;
        case 10: np<T, 16>(g, nm(" hex numpunct"), !strf::hex(v).p(9)); break;
        case 11: np<T, 8>(g, nm(" oct numpunct"), !strf::oct(v).p(9)); break;
        case 12: np<T, 2>(g, nm(" bin numpunct"), !strf::bin(v) ^ w); break;
        case 13: np<T, 8>(g, nm(" base(8) numpunct"), !strf::fmt(v).base(8).p(6)); break;
        default: np<T, 10>(g, nm(" base(10) numpunct"), !strf::fmt(v).base(10).p(6)); break;
    }
}
static void run() {
#define I(T) vh::section("ints-" #T, 500, 40000, [](Rng& g, std::uint64_t) { ints<T>(g, #T); });
    I(short) I(int) I(unsigned) I(long) using ull = unsigned long long; I(ull) using uchar = unsigned char; I(uchar)
}
#elif PART == 1
template <typename F> static void floats(Rng& g, const char* n) {
    F v = (F)((double)g.range(12345, 99999999) + 0.625), big = (F)((double)g.range(1, 9) * 1e30), inf = g.coin() ? (F)HUGE_VAL : (F)NAN; auto w = w9(g);
    std::string s(n); auto nm = [&](const char* f) { g_who = s + f; return g_who.c_str(); };
    bool dbl = sizeof(F) == 8;
    switch (g.below(16)) {
        case 0: lc<F>(g, nm(" plain"), big, dbl); break;
        case 1: lc<F>(g, nm(" plain inf"), inf, dbl); break;
        case 2: lc<F>(g, nm(" fmt"), strf::fmt(big), dbl); break;
        case 3: lc<F>(g, nm(" aligned"), strf::fmt(big) > w); break;
        case 4: lc<F>(g, nm(" sci"), strf::sci(v)); break;
        case 5: lc<F>(g, nm(" sci precision"), strf::sci(v, 3)); break;
        case 6: lc<F>(g, nm(" hex"), strf::hex(v)); break;
        case 7: lc<F>(g, nm(" hex punctuated"), !strf::hex(v)); break;
        case 8: lc<F>(g, nm(" inf"), +strf::fmt(inf)); break;
        case 9: lc<F>(g, nm(" sci punctuated"), !strf::sci(v, 5)); break;
        case 10: np<F, 10>(g, nm(" fixed punctuated"), !strf::fixed(v)); break;
        case 11: np<F, 10>(g, nm(" fixed precision punctuated"), !strf::fixed(v, 2)); break;
        case 12: np<F, 10>(g, nm(" sci numpunct"), !strf::sci(v, 4) < w); break;
        case 13: np<F, 10>(g, nm(" general numpunct"), *!strf::gen(v, 12)); break;
        case 14: np<F, 16>(g, nm(" hex numpunct"), !strf::hex(v).p(4)); break;
        default: np<F, 10>(g, nm(" general shortest numpunct"), !strf::gen(v) ^ w); break;
    }
}
static void others(Rng& g, std::uint64_t) {
    auto w = w9(g); bool b = g.coin(); auto p = (const void*)(std::uintptr_t)((g.next() >> g.below(40)) | 0xABCDEF); auto np_ = (void*)p; (void)np_;
    std::vector<int> vi{ 1234567, -8901234 }; std::list<double> vd{ 1e30, 2e33 }; std::vector<double> vf{ 12345.5, 1e6 }; C sep[2] = { '/', 0 }; (void)sep;
    switch (g.below(17)) {
        case 0: lc<bool>(g, "bool", b); break;
        case 1: lc<bool>(g, "bool aligned", strf::fmt(b) > w); break;
        case 2: lc<const void*>(g, "pointer", p); break;
        case 3: lc<const void*>(g, "pointer aligned", strf::fmt(p) > 20); break;
        case 4: lc<const void*>(g, "pointer fmt", strf::fmt(p)); break;
        case 5: np<int, 10>(g, "range of ints", !strf::fmt_range(vi)); break;
        case 6: np<int, 10>(g, "separated range of ints", !strf::fmt_separated_range(vi, sep) > w); break;
        case 7: lc<int>(g, "range of ints hex", strf::hex(strf::range(vi))); break;
        case 8: lc<double>(g, "range of doubles", strf::range(vd), true); break;
        case 9: lc<double>(g, "separated range of doubles sci", strf::sci(strf::separated_range(vd, sep))); break;
        case 10: np<double, 10>(g, "range of doubles punctuated", !strf::fmt_range(vf)); break;
        case 11: lc<int>(g, "transformed range", strf::range(vd, [](double x) { return strf::hex((int)(x / 1e30) + 0x4AB); })); break;
        case 12: lc<unsigned>(g, "join", strf::join((C)'x', strf::hex(0xABCu), (C)'y')); break;
        case 13: np<long long, 10>(g, "aligned join", strf::join_center(30)((C)'x', !strf::dec(123456789LL))); break;
        case 14: lc<int>(g, "inner with", strf::with(strf::numpunct<16>(3))(!strf::hex(0xABCDE))); break;
        case 15: lc<short>(g, "tr", strf::tr(ascii<C>("a{}b"), strf::hex((short)0x7ABC))); break;
        default: lc<bool>(g, "range of bools", strf::range(std::array<bool, 2>{ { true, false } })); break;
    }
}
static void run() {
    vh::section("floats-float", 1200, 80000, [](Rng& g, std::uint64_t) { floats<float>(g, "float"); });
    vh::section("floats-double", 1200, 80000, [](Rng& g, std::uint64_t) { floats<double>(g, "double"); });
    vh::section("others", 1500, 80000, others);
}
#else
template <typename X> static void foreign(Rng& g, const char* n) {
    using T = strf::string_input_tag<X>; auto w = w9(g); std::string s(n); auto nm = [&](const char* f) { g_who = s + f; return g_who.c_str(); };
    std::basic_string<X> t = ascii<X>(std::string(1 + g.below(5), 'q'));
    switch (g.below(6)) {
        case 0: wc<T>(g, nm(" transcode aligned"), strf::transcode(t) > w); break;
        case 1: wc<T>(g, nm(" sani aligned"), strf::sani(t) ^ w); break;
        case 2: wc<T>(g, nm(" unsafe aligned"), strf::unsafe_transcode(t) < w); break;
        case 3: wc<T>(g, nm(" transcode precision"), strf::transcode(t).p(3)); break;
        case 4: wc<T>(g, nm(" transcode precision aligned"), strf::transcode(t).p(3) > w); break;
        default: wc<T>(g, nm(" unsafe precision"), strf::unsafe_transcode(t).p(3)); break;
    }
}
static void own(Rng& g, std::uint64_t) {
    using T = strf::string_input_tag<C>; auto w = w9(g); S t = ascii<C>(std::string(1 + g.below(5), 'q')); int m = 1 + (int)g.below(5); std::vector<S> v{ t, t }; C sep[3] = { '/', '/', 0 };
    switch (g.below(14)) {
        case 0: wc<T>(g, "own string aligned", strf::fmt(t) > w); break;
        case 1: wc<T>(g, "own string precision", strf::fmt(t).p(3)); break;
        case 2: wc<T>(g, "own string precision aligned", strf::fmt(t).p(3) < w); break;
        case 3: wc<C>(g, "own character aligned", strf::right((C)'k', w)); break;
        case 4: wc<C>(g, "own characters aligned", strf::multi((C)'k', m) ^ w); break;
        case 5: wc<char32_t>(g, "char32_t aligned", strf::right(U'\u3042', w)); break;
        case 6: wc<char32_t>(g, "char32_t multi aligned", strf::multi(U'k', m) < w); break;
        case 7: wc<T>(g, "range of strings aligned", strf::fmt_range(v) > w); break;
        case 8: wc<T>(g, "separated range of strings precision", strf::fmt_separated_range(v, sep).p(2)); break;
        case 9: wc<T>(g, "aligned join with a string", strf::join_right(w)(t)); break;
        case 10: wc<C>(g, "aligned join with a character", strf::join_left(w)((C)'k')); break;
        case 11: wc<char32_t>(g, "aligned join with a char32_t", strf::join_left(w)(U'k')); break;
        case 12: wc<T>(g, "aligned join with a precise string", strf::join_center(w)(strf::fmt(t).p(4))); break;
        default: wc<T>(g, "aligned join with a separated range", strf::join_center(w)(strf::range(v))); break;
    }
}
static void run() {
    vh::section("own", 2000, 100000, own);
    vh::section("from-char", 700, 50000, [](Rng& g, std::uint64_t) { foreign<char>(g, "char string"); });
    vh::section("from-char16_t", 700, 50000, [](Rng& g, std::uint64_t) { foreign<char16_t>(g, "char16_t string"); });
    vh::section("from-char32_t", 700, 50000, [](Rng& g, std::uint64_t) { foreign<char32_t>(g, "char32_t string"); });
    vh::section("from-wchar_t", 700, 50000, [](Rng& g, std::uint64_t) { foreign<wchar_t>(g, "wchar_t string"); });
}
#endif
VH_MAIN(run)
