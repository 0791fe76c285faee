// P06: integers, bool and pointers against an independent digit generator.
#include "gen.hpp"
using namespace gen;
#ifndef CH
#define CH char
#endif
using C = CH;
#ifndef PART
#define PART 0
#endif

struct IF { int base = 10, prec = 0, pad0 = 0; char sign = 0; bool showbase = false; };

static std::string digits(std::uint64_t v, int base, bool upper) {
    const char* set = upper ? "0123456789ABCDEF" : "0123456789abcdef";
    std::string s;
    do { s.insert(s.begin(), set[v % (unsigned)base]); v /= (unsigned)base; } while (v);
    return s;
}
// text of an integer
template <typename I> u32s ref(I x, const IF& f, const AF& a, strf::lettercase lc) {
    using U = std::make_unsigned_t<I>;
    bool upper = lc != strf::lowercase;
    std::string pre, d; int prec = f.prec;
    bool fillsign = false;
    if (f.base == 10) {
        bool neg = x < 0;
        std::uint64_t m = neg ? 0 - (std::uint64_t)(std::int64_t)x : (std::uint64_t)x;
        d = digits(m, 10, false);
        if (neg) pre = "-";
        else if (std::is_signed<I>::value && f.sign == '+') pre = "+";
        else if (std::is_signed<I>::value && f.sign == ' ') fillsign = true;
    } else {
        U u = (U)x;
        d = digits(u, f.base, upper);
        if (f.showbase) {
            if (f.base == 16) pre = lc == strf::uppercase ? "0X" : "0x";
            else if (f.base == 2) pre = lc == strf::uppercase ? "0B" : "0b";
            else if (u != 0) { pre = "0"; --prec; }
        }
    }
    int w = (int)(d.size() + pre.size()) + fillsign;
    int zeros = std::max({ 0, prec - (int)d.size(), f.pad0 - w });
    u32s body = (fillsign ? u32s(1, a.al == Al::none ? U' ' : a.fill) : u32s()) + u32(pre) + u32s((std::size_t)zeros, U'0') + u32(d);
    return align(body, round_w(a.w) - (w + zeros), a.al, a.fill);
}
static const strf::lettercase lcs[] = { strf::lowercase, strf::uppercase, strf::mixedcase };
static const char* lcn(strf::lettercase l) { return l == strf::lowercase ? "lower" : l == strf::uppercase ? "upper" : "mixed"; }
static int gen_count(Rng& g) { return g.chance(1, 12) ? -(int)g.below(5) : g.chance(1, 3) ? (int)g.below(24) : g.chance(1, 10) ? (int)g.below(600) : (int)g.below(90); }

template <typename I> std::string desc(const char* path, I x, const IF& f, const AF& a, strf::lettercase lc) {
    return vh::fmt("%s %s%zu value=%lld/%llu base=%d p=%d pad0=%d sign=%d showbase=%d align=%s fill=U+%X width=%d/65536 lettercase=%s",
                   path, std::is_signed<I>::value ? "i" : "u", sizeof(I) * 8, (long long)x, (unsigned long long)x, f.base, f.prec, f.pad0, f.sign, f.showbase,
                   al_name(a.al).c_str(), (unsigned)a.fill, a.w.underlying_value(), lcn(lc));
}
template <typename I, typename A>
void judge(Rng& g, const char* path, I x, const IF& f, const AF& a, strf::lettercase lc, const A& arg) {
    auto got = print<C>(g, strf::pack(lc), arg);
    auto want = enc<C>(ref(x, f, a, lc));
    if (got != want) vh::violation(std::string("int:") + path, desc(path, x, f, a, lc) + " printed " + vh::show(got) + " expected " + vh::show(want));
    vh::nontrivial(vh::hash_of(path, (std::uint64_t)x, sizeof(I), f.base, f.prec, f.pad0, (int)f.sign, f.showbase, (int)a.al, (unsigned)a.fill, a.w.underlying_value(), (int)lc));
    if (vh::want_sample()) vh::sample(desc(path, x, f, a, lc) + " -> " + vh::show(got));
}

template <int Base, typename F> auto flags(F f, const IF& i) {   // member operators on an rvalue format, type kept
    if constexpr (Base != 10) { if (i.showbase) f = *std::move(f); }
    else {
        if (i.sign == '+') f = +std::move(f);
        if (i.sign == ' ') f = ~std::move(f);
    }
    return f;
}
template <typename F> auto aligned(Rng& g, F f, const AF& a) {
    if (g.coin()) {
        auto r = std::move(f).set_alignment_format(to_strf(a));
        return r;
    }
    auto r = std::move(f).fill(a.fill);
    if (a.al == Al::left) r = std::move(r) < a.w;
    else if (a.al == Al::right) r = std::move(r) > a.w;
    else r = std::move(r) ^ a.w;
    return r;
}

template <typename I> void one(Rng& g) {
    I x = gen_int<I>(g);
    auto lc = g.pick(lcs);
    AF a, none;
    if (g.chance(2, 3)) a = gen_af(g);
    IF f; f.showbase = g.coin(); f.sign = g.chance(1, 3) ? '+' : g.coin() ? ' ' : 0;
    bool al = a.al != Al::none;
    switch (g.below(6)) {
    case 0: { // default format
        IF d;
        if (!al) { if (g.coin()) judge(g, "plain", x, d, none, lc, x); else judge(g, "fmt", x, d, none, lc, strf::fmt(x)); }
        else judge(g, "aligned-default", x, d, a, lc, aligned(g, strf::fmt(x), a));
        break; }
    case 1: { // flags only: dec with sign, hex/oct/bin with base
        auto go = [&](auto ff, auto bt) {
            constexpr int base = decltype(bt)::value; IF d; d.base = base; if (base == 10) d.sign = f.sign; else d.showbase = f.showbase;
            if (!al) judge(g, "flags", x, d, none, lc, flags<base>(ff, d));
            else judge(g, "flags-aligned", x, d, a, lc, aligned(g, flags<base>(ff, d), a));
        };
        switch (g.below(4)) {
            case 0: go(strf::hex(x), std::integral_constant<int, 16>()); break;
            case 1: go(strf::oct(x), std::integral_constant<int, 8>()); break;
            case 2: go(strf::bin(x), std::integral_constant<int, 2>()); break;
            default: { IF d; d.sign = f.sign;
                if (d.sign == '+') { if (!al) judge(g, "plus", x, d, none, lc, +strf::fmt(x)); else judge(g, "plus-aligned", x, d, a, lc, aligned(g, +strf::fmt(x), a)); }
                else { d.sign = ' '; if (!al) judge(g, "fillsign", x, d, none, lc, ~strf::fmt(x)); else judge(g, "fillsign-aligned", x, d, a, lc, aligned(g, ~strf::fmt(x), a)); }
                break; }
        }
        break; }
    case 2: case 3: case 4: { // precision and pad0
        f.prec = g.coin() ? gen_count(g) : 0; f.pad0 = g.coin() ? gen_count(g) : 0;
        auto go = [&](auto ff, auto bt) {
            constexpr int base = decltype(bt)::value; IF d = f; d.base = base; if (base == 10) d.showbase = false; else d.sign = 0;
            auto h = flags<base>(std::move(ff).p(d.prec).pad0(d.pad0), d);
            if (!al) judge(g, "pad0", x, d, none, lc, h);
            else judge(g, "pad0-aligned", x, d, a, lc, aligned(g, h, a));
        };
        switch (g.below(4)) {
            case 0: go(strf::hex(x), std::integral_constant<int, 16>()); break;
            case 1: go(strf::oct(x), std::integral_constant<int, 8>()); break;
            case 2: go(strf::bin(x), std::integral_constant<int, 2>()); break;
            default: go(strf::dec(x), std::integral_constant<int, 10>()); break;
        }
        break; }
    default: { // all set at run time
        static const int bases[] = { 2, 8, 10, 16 };
        f.base = g.pick(bases); f.prec = g.coin() ? gen_count(g) : 0; f.pad0 = g.coin() ? gen_count(g) : 0;
        strf::int_format d; d.base = f.base; d.precision = f.prec; d.pad0width = f.pad0; d.showbase = f.showbase;
        d.sign = f.sign == '+' ? strf::showsign::positive_also : f.sign == ' ' ? strf::showsign::fill_instead_of_positive : strf::showsign::negative_only;
        if (!al) judge(g, "dynamic", x, f, none, lc, strf::fmt(x).set_int_format(d));
        else judge(g, "dynamic-aligned", x, f, a, lc, aligned(g, strf::fmt(x).set_int_format(d), a));
        break; }
    }
}

static void run() {
    auto any = [](Rng& g, std::uint64_t i) {
        // the integer types are spread over several builds to bound the compilation time
#if PART == 0
        switch (i % 3) { case 0: one<signed char>(g); break; case 1: one<unsigned short>(g); break; default: one<long long>(g); }
#elif PART == 1
        switch (i % 3) { case 0: one<int>(g); break; case 1: one<unsigned long>(g); break; default: one<unsigned char>(g); }
#elif PART == 2
        switch (i % 2) { case 0: one<short>(g); break; default: one<unsigned long long>(g); }
#else
        switch (i % 2) { case 0: one<long>(g); break; default: one<unsigned>(g); }
#endif
    };
    vh::section((std::string("ints-") + cname<C>::v).c_str(), 20000, 1500000, any);
    // every value of the 8-bit types and every 16-bit value, every base, plain
#if PART == 1
    vh::exhaustive((std::string("all-16bit-") + cname<C>::v).c_str(), 1024, [](Rng& g, std::uint64_t blk) {
        for (unsigned k = 0; k < 64; ++k) {
            unsigned v = (unsigned)blk * 64 + k;
            IF d; AF n;
            auto chk = [&](auto x) {
                for (int base : { 2, 8, 10, 16 }) {
                    d.base = base;
                    std::basic_string<C> got = base == 10 ? print<C>(g, strf::pack(), x) : base == 16 ? print<C>(g, strf::pack(), strf::hex(x))
                        : base == 8 ? print<C>(g, strf::pack(), strf::oct(x)) : print<C>(g, strf::pack(), strf::bin(x));
                    expect_eq(got, enc<C>(ref(x, d, n, strf::lowercase)), "int:16bit", vh::fmt("%d-byte integer %lld in base %d", (int)sizeof x, (long long)x, base));
                    vh::nontrivial(vh::hash_of((std::uint64_t)x, sizeof x, base));
                }
            };
            chk((short)v); chk((unsigned short)v);
            if (v < 256) { chk((signed char)v); chk((unsigned char)v); }
        }
    });
#endif
    vh::section((std::string("bool-pointer-") + cname<C>::v).c_str(), 4000, 100000, [](Rng& g, std::uint64_t) {
        auto lc = g.pick(lcs);
        AF a; bool al = g.coin(); if (al) a = gen_af(g);
        if (g.coin()) {
            bool b = g.coin();
            static const char* t[] = { "true", "TRUE", "True" }; static const char* f[] = { "false", "FALSE", "False" };
            u32s body = u32((b ? t : f)[lc == strf::lowercase ? 0 : lc == strf::uppercase ? 1 : 2]);
            auto want = enc<C>(align(body, round_w(a.w) - (int)body.size(), a.al, a.fill));
            auto got = al ? print<C>(g, strf::pack(lc), aligned(g, strf::fmt(b), a)) : g.coin() ? print<C>(g, strf::pack(lc), b) : print<C>(g, strf::pack(lc), strf::fmt(b));
            expect_eq(got, want, "bool", vh::fmt("bool %d %s align=%s fill=U+%X width=%d/65536", b, lcn(lc), al_name(a.al).c_str(), (unsigned)a.fill, a.w.underlying_value()));
            vh::nontrivial(vh::hash_of(b, (int)lc, (int)a.al, (unsigned)a.fill, a.w.underlying_value()));
        } else {
            std::uint64_t v = gen_u64(g);
            auto* p = reinterpret_cast<const void*>(v);
            IF d; d.base = 16; d.showbase = true;
            auto want = enc<C>(ref((unsigned long long)v, d, a, lc));
            auto got = al ? print<C>(g, strf::pack(lc), aligned(g, strf::fmt(p), a)) : print<C>(g, strf::pack(lc), p);
            expect_eq(got, want, "pointer", vh::fmt("pointer %llx %s align=%s fill=U+%X width=%d/65536", (unsigned long long)v, lcn(lc), al_name(a.al).c_str(), (unsigned)a.fill, a.w.underlying_value()));
            vh::nontrivial(vh::hash_of(v, (int)lc, (int)a.al, (unsigned)a.fill, a.w.underlying_value()));
        }
    });
}
VH_MAIN(run)
