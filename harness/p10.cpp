// P10: hexadecimal floats against glibc's %a and a bit-level reference.
#include "flt.hpp"
using namespace gen;
#ifndef CH
#define CH char
#endif
using C = CH;
template <typename F> static void one(Rng& g, bool hostile) {
    F v = gen_float<F>(g);
    if (g.chance(1, 6) && std::isfinite(v)) { // mantissas with carries
        std::uint64_t m = ~std::uint64_t(0) << g.below(52); double d; std::uint64_t u = (g.next() & 0xFFF0000000000000ull) | ((m >> g.below(16)) & 0xFFFFFFFFFFFFFull);
        memcpy(&d, &u, 8); if (std::isfinite((F)d)) v = (F)d;
    }
    static const strf::lettercase lcs[] = { strf::lowercase, strf::uppercase, strf::mixedcase };
    auto lc = g.pick(lcs);
    FF f; f.nt = Nt::hex; f.prec = g.coin() ? -1 : g.chance(1, 10) ? (int)g.below(200) : (int)g.below(16); f.point = g.chance(1, 3);
    auto want = float_text(v, f, lc, nullptr, DestCs{}, U' ');
    auto run = [&](const auto& a) {
        if (hostile) return print<C>(g, strf::pack(lc), a);
        static C big[600]; auto r = strf::to(big).with(lc)(a);
        return std::basic_string<C>(big, r.ptr);
    };
    std::basic_string<C> got;
    if (g.coin()) got = run(strf::fmt(v).set_float_format(to_strf(f)));
    else if (f.prec < 0) got = f.point ? run(*strf::hex(v)) : run(strf::hex(v));
    else got = f.point ? run(*strf::hex(v).p(f.prec)) : run(strf::hex(v).p(f.prec));
    expect_eq(got, enc<C>(want), f.prec < 0 ? "hex" : "hex-precision", ff_desc(v, f) + " " + lcname(lc));
    std::string s; for (auto c : got) s += (char)c;
    if (std::isfinite(v)) {
        char* e; double back = strtod(s.c_str(), &e);
        if (f.prec < 0 || f.prec >= 13) {
            if (*e || back != (double)v || std::signbit(back) != std::signbit(v)) vh::violation("read-back", ff_desc(v, f) + " printed " + s + vh::fmt(" which reads as %a", back));
            vh::event("read-back");
        } else { // correctly rounded: scale by a power of two and use nearbyint
            int ex; bool sub = std::fabs(v) < (sizeof(F) == 4 ? (double)1.17549435e-38f : 2.2250738585072014e-308);
            std::frexp((double)v, &ex); if (sub) ex = sizeof(F) == 4 ? -125 : -1021;
            double r = v == 0 ? v : std::ldexp(std::nearbyint(std::ldexp(std::ldexp((double)v, -ex + 1), 4 * f.prec)), ex - 1 - 4 * f.prec);
            if (*e || (back != r && !std::isinf(r))) vh::violation("rounded-value", ff_desc(v, f) + " printed " + s + vh::fmt(" which reads as %a, expected %a", back, r));
            vh::event("rounded");
        }
        bool fsub = sizeof(F) == 4 && v != 0 && std::fabs(v) < 1.17549435e-38f;
        if (f.prec < 0 && !fsub && lc == strf::lowercase) {
            char b[100]; snprintf(b, 100, f.point ? "%#a" : "%a", (double)v);
            if (s != b) vh::violation("printf-a", ff_desc(v, f) + " printed " + s + " printf prints " + b);
            vh::event("compared-with-printf");
        }
        if (std::fpclassify(v) == FP_SUBNORMAL) vh::event("subnormals");
    }
    std::uint64_t u = 0; memcpy(&u, &v, sizeof v);
    vh::nontrivial(vh::hash_of(u, f.prec, f.point, (int)lc));
    if (vh::want_sample()) vh::sample(ff_desc(v, f) + " -> " + vh::show(got));
}
static void run() {
    std::string cn = cname<C>::v;
    vh::section(("double-" + cn).c_str(), 80000, 6000000, [](Rng& g, std::uint64_t) { one<double>(g, false); });
    vh::section(("float-" + cn).c_str(), 40000, 3000000, [](Rng& g, std::uint64_t) { one<float>(g, false); });
    vh::section(("hostile-buffers-" + cn).c_str(), 10000, 600000, [](Rng& g, std::uint64_t) { one<double>(g, true); });
}
VH_MAIN(run)
