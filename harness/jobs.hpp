// A pool of diverse print calls.  job<C>(g, f) picks one at random, builds random
// arguments and calls f(facets_pack, tr_string_or_null, args...) exactly once; the
// arguments live until f returns, so f may print them as often as it likes.
#ifndef JOBS_HPP
#define JOBS_HPP
#include "gen.hpp"
#include <vector>
#include <list>
#include <array>
#ifndef JOBS
#define JOBS 0x3FFFF     // which jobs are compiled in (bit mask), to bound build time
#endif
namespace jobs {
using namespace gen;
template <typename C> struct Other { using type = char16_t; };
template <> struct Other<char16_t> { using type = char; };
template <> struct Other<char32_t> { using type = char; };
template <> struct Other<wchar_t> { using type = char; };
static thread_local unsigned last_job;
inline strf::width_t W(Rng& g) { return gen_width(g, g.chance(1, 6) ? 400 : 60); }
inline double gen_double(Rng& g) {
    switch (g.below(8)) {
        case 7: return (double)g.range(1, 999999) * std::pow(10.0, (double)g.below(60)) * (g.coin() ? 1 : -1);
        case 0: { std::uint64_t u = g.next(); double d; memcpy(&d, &u, 8); return d; }
        case 1: return (double)g.range(-100000, 100000);
        case 2: return (double)g.range(-1000000, 1000000) / 1000.0;
        case 3: return std::ldexp(1.0, (int)g.range(-80, 80)) * (g.coin() ? 1 : -1);
        case 4: { static const double e[] = { 0.0, -0.0, 1e22, 1e23, 5e-324, 1.7976931348623157e308, HUGE_VAL, -HUGE_VAL, NAN, 0.1, 123456789012345680.0, 1e-5, 1e5 }; return g.pick(e); }
        case 5: return std::ldexp((double)g.below(1u << 20), (int)g.range(-30, 60));
        default: return (double)(g.next() >> 11) * std::ldexp(1.0, (int)g.range(-60, 10));
    }
}
inline strf::digits_grouping gen_grouping(Rng& g) {
    switch (g.below(7)) {
        case 5: return strf::digits_grouping((int)g.range(1, 31));
        case 6: { char b[7] = {}; for (unsigned i = 0, n = 1 + (unsigned)g.below(5); i < n; ++i) b[i] = (char)(g.coin() ? g.range(1, 6) : g.range(1, 31)); if (g.chance(1, 3)) b[strlen(b)] = (char)-1; return strf::digits_grouping(static_cast<const char*>(b)); }
        case 0: return strf::digits_grouping(3);
        case 1: return strf::digits_grouping((int)g.range(1, 6));
        case 2: return strf::digits_grouping("\3\2");
        case 3: return strf::digits_grouping("\1\2\3\4");
        default: return strf::digits_grouping("\2\5\1");
    }
}
template <typename C, typename F> void job(Rng& g, F&& f) {
    using S = std::basic_string<C>;
    using O = typename Other<C>::type;
    constexpr unsigned N = 18;
    static const std::vector<unsigned> avail = [] { std::vector<unsigned> v; for (unsigned i = 0; i < N; ++i) if ((unsigned long)(JOBS) >> i & 1) v.push_back(i); return v; }();
    unsigned k = g.pick(avail);
    last_job = k;
    auto text = [&] { return enc<C>(gen_text(g, gen_len(g))); };
#define JOB(n) if constexpr ((unsigned long)(JOBS) >> n & 1) if (k == n)
    JOB(0) { S a = text(), b = text(); f(strf::pack(), a, (int)g.next(), b, (C)'x'); }
    JOB(1) { S a = text(); f(strf::pack(), strf::fmt(a).fill(gen_fill(g)) > W(g), strf::fmt(a).p(W(g))); }
    JOB(2) { S a = text(); auto al = gen_af(g); f(strf::pack(), strf::fmt(a).p(W(g)).set_alignment_format(to_strf(al)), strf::fmt((C)'-') ^ W(g)); }
    JOB(3) { auto x = (long long)gen_int<long long>(g); f(strf::pack(), +strf::dec(x).p((int)g.below(90)), ~strf::fmt(x), *strf::hex(x).pad0((int)g.below(100)), strf::bin(x) > W(g)); }
    JOB(4) { auto x = gen_int<unsigned>(g); auto gr = gen_grouping(g);
        f(strf::pack(strf::numpunct<10>(gr).thousands_sep(gen_scalar(g)), strf::numpunct<16>(gen_grouping(g)).thousands_sep(gen_scalar(g)), strf::numpunct<2>(4).thousands_sep(U'\'')),
          !strf::fmt(x), !*strf::hex(x), (!strf::bin(x).p((int)g.below(80)) ^ W(g)), !strf::oct((short)x)); }
    JOB(5) { double d = gen_double(g); f(strf::pack(), d, strf::fixed(d), strf::sci(d, (int)g.below(30)), strf::hex(d)); }
    JOB(6) { double d = gen_double(g); float x = (float)gen_double(g);
        f(strf::pack(strf::numpunct<10>(gen_grouping(g)).thousands_sep(g.coin() ? U',' : gen_scalar(g)).decimal_point(gen_scalar(g)), g.coin() ? strf::uppercase : strf::mixedcase),
          !strf::fixed(d, (int)g.below(40)), (+*strf::fmt(x) ^ W(g)), ~strf::gen(d, (int)g.below(20)).pad0((int)g.below(60)), (!*strf::gen(x).fill(gen_fill(g)) < W(g))); }
    JOB(7) { C c = (C)g.range(0x20, 0x7E); char32_t u = gen_scalar(g); f(strf::pack(), strf::multi(c, (int)g.below(200)), strf::multi(u, (int)g.below(100)), u, strf::multi(u, (int)g.below(30)) > W(g)); }
    JOB(8) { std::basic_string<O> o = enc<O>(gen_text(g, gen_len(g))); if (g.coin() && !o.empty()) o.erase(g.below(o.size()), 1);
        f(strf::pack(), strf::transcode(o), strf::transcode(o) > W(g), strf::fmt(strf::transcode(o)).p(W(g))); }
    JOB(9) { S a = text(); if (sizeof(C) < 4 && a.size() && g.coin()) a.erase(g.below(a.size()), 1);
        f(strf::pack(), strf::sani(a), strf::fmt(strf::sani(a)).p(W(g)) ^ W(g)); }
    JOB(10) { std::vector<int> v; for (unsigned n = (unsigned)g.below(12); n; --n) v.push_back((int)g.next() >> g.below(31)); S sep = enc<C>(gen_text(g, g.below(6)));
        sep = sep.substr(0, sep.find(C()));
        f(strf::pack(), strf::range(v), strf::separated_range(v, sep.c_str()), +strf::fmt_separated_range(v, sep.c_str()).fill(U'*') > W(g), *strf::hex(strf::fmt_range(v)).p((int)g.below(12))); }
    JOB(11) { S a = text(); int n = (int)g.next(); auto w1 = W(g); auto w2 = W(g);
        f(strf::pack(), strf::join(a, n, strf::fmt(a) > W(g)), (strf::join_center(w1, gen_fill(g)))(a, strf::join_right(w2)(n, (C)'|', a)), strf::join(a, n) < w2); }
    JOB(12) { S a = text(); auto x = gen_int<long>(g); bool b = g.coin();
        f(strf::pack(strf::lettercase::upper), b, strf::with(strf::mixedcase, strf::width_as_u32len)(*strf::hex(x), b, strf::fmt(a) > W(g)), strf::fmt((const void*)(&g)).fill(U'_') > W(g), *strf::hex(x)); }
    JOB(13) { S a = text(); S t; for (unsigned n = (unsigned)g.below(8); n; --n) { static const char* const p[] = { "{}", "{{", "{0}", "{1}", "{2}", "{5}", "{-note}", "{name}", "{", "}", "{ }" }; t += ascii<C>(g.pick(p)); if (g.coin()) t += enc<C>(gen_text(g, g.below(40))); }
        f(strf::pack(), strf::tr(t, a, (int)g.next(), strf::fmt(a) > W(g)), strf::tr(t)); }
    JOB(14) { S a = text(); u32s u = gen_text(g, g.below(60)); 
        f(strf::pack(g.coin() ? strf::uppercase : strf::mixedcase), strf::unsafe_transcode(u), strf::transcode(u), strf::fmt(strf::unsafe_transcode(u)).p(W(g)) ^ W(g)); }
    JOB(15) { S a = text(); f(strf::pack(strf::std_width_calc), strf::fmt(a) > W(g), strf::fmt(a).p(W(g)), strf::join(a, a) ^ W(g)); }
    JOB(16) { S a = text(); f(strf::pack(strf::fast_width), strf::fmt(a) > W(g), strf::fmt(a).p(W(g)) < W(g), (unsigned char)g.next(), (long long)g.next(), (unsigned long)g.next(), (short)g.next()); }
    JOB(17) { std::list<double> v; for (unsigned n = (unsigned)g.below(6); n; --n) v.push_back(gen_double(g)); std::array<C, 2> sep{ { (C)';', C() } };
        auto op = [](double x) { return strf::join((C)'<', strf::fixed(x).p(3), (C)'>'); };
        f(strf::pack(), strf::separated_range(v, sep.data(), op), (strf::sci(strf::fmt_separated_range(v, sep.data())).p(2) ^ W(g))); }
#undef JOB
}
} // namespace jobs
#endif
