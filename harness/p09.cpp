// P09: floats with precision: the shortest digits rounded half to even, in printf's layout.
#include "flt.hpp"
using namespace gen;
#ifndef CH
#define CH char
#endif
using C = CH;
static int gen_prec(Rng& g) { return g.coin() ? (int)g.below(8) : g.chance(3, 4) ? (int)g.below(25) : g.chance(3, 4) ? (int)g.below(120) : (int)g.below(1101); }

template <typename F> static void one(Rng& g, bool hostile) {
    F v = gen_float<F>(g);
    FF f; f.nt = (Nt)g.below(3); f.prec = gen_prec(g); f.point = g.coin();
    auto text = float_text(v, f, strf::lowercase, nullptr, DestCs{}, U' ');
    auto run = [&](const auto& a) {
        if (hostile) return print<C>(g, strf::pack(), a);
        static C big[3000]; auto r = strf::to(big)(a);
        return std::basic_string<C>(big, r.ptr);
    };
    std::basic_string<C> got;
    const char* how = "";
    switch (g.below(3)) {
        case 0: how = "member";
            if (f.nt == Nt::fixed) got = f.point ? run(*strf::fixed(v).p(f.prec)) : run(strf::fixed(v).p(f.prec));
            else if (f.nt == Nt::sci) got = f.point ? run(*strf::sci(v).p(f.prec)) : run(strf::sci(v).p(f.prec));
            else got = f.point ? run(*strf::gen(v).p(f.prec)) : run(strf::fmt(v).p(f.prec));
            break;
        case 1: how = "function"; f.point = false; text = float_text(v, f, strf::lowercase, nullptr, DestCs{}, U' ');
            got = f.nt == Nt::fixed ? run(strf::fixed(v, f.prec)) : f.nt == Nt::sci ? run(strf::sci(v, f.prec)) : run(strf::gen(v, f.prec));
            break;
        default: how = "dynamic"; got = run(strf::fmt(v).set_float_format(to_strf(f)));
    }
    FF lf = f; lf.lossy = true;
    if (f.nt == Nt::gen && f.point && got != enc<C>(text) && got == enc<C>(float_text(v, lf, strf::lowercase, nullptr, DestCs{}, U' '))) {
        vh::violation("general-showpoint-drops-zeros-left-by-rounding", ff_desc(v, f) + " printed " + vh::show(got) + " expected " + show32(text));
        vh::nontrivial(vh::hash_of((double)v, (int)f.nt, f.prec, f.point));
        return;
    }
    expect_eq(got, enc<C>(text), (std::string(how) + ":" + (f.nt == Nt::fixed ? "fixed" : f.nt == Nt::sci ? "sci" : "general")).c_str(), ff_desc(v, f));
    // where the value itself is short enough to be exact, glibc must agree
    Dec d = shortest(v);
    if (std::isfinite(v) && d.d.size() <= 15 && d.e >= 0 && d.x() < 15 && sizeof(F) == 8) {
        char fm[16], b[1600]; snprintf(fm, 16, "%%%s.%d%c", f.point ? "#" : "", f.prec, f.nt == Nt::fixed ? 'f' : f.nt == Nt::sci ? 'e' : 'g');
        snprintf(b, sizeof b, fm, (double)v);
        if (got != ascii<C>(b)) vh::violation("printf", ff_desc(v, f) + " printed " + vh::show(got) + " printf(" + fm + ") prints " + b);
        vh::event("compared-with-printf");
    }
    if (std::isfinite(v)) {
        long dg = f.nt == Nt::fixed ? (long)d.d.size() + d.e + f.prec : f.nt == Nt::sci ? f.prec + 1l : std::max(1, f.prec);
        if (dg < (long)d.d.size()) vh::event("rounded"); else vh::event("zero-extended");
        if (dg >= 0 && dg < (long)d.d.size() && d.d[(std::size_t)dg] == '5' && dg + 1 == (long)d.d.size()) vh::event("ties");
        if (dg > 0 && dg < (long)d.d.size() && round_to(d, dg).x() != d.x()) vh::event("carries-to-a-new-digit");
    }
    std::uint64_t u = 0; memcpy(&u, &v, sizeof v);
    vh::nontrivial(vh::hash_of(u, (int)f.nt, f.prec, f.point));
    if (vh::want_sample()) vh::sample(ff_desc(v, f) + " -> " + vh::show(got));
}
static void run() {
    std::string cn = cname<C>::v;
    vh::section(("double-" + cn).c_str(), 60000, 6000000, [](Rng& g, std::uint64_t) { one<double>(g, false); });
    vh::section(("float-" + cn).c_str(), 25000, 3000000, [](Rng& g, std::uint64_t) { one<float>(g, false); });
    vh::section(("hostile-buffers-" + cn).c_str(), 15000, 600000, [](Rng& g, std::uint64_t) { one<double>(g, true); });
}
VH_MAIN(run)
