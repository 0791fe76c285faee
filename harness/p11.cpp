// P11: every combination of float flags.
#include "flt.hpp"
using namespace gen;
#ifndef CH
#define CH char
#endif
using C = CH;
#ifndef PART
#define PART 0
#endif
static const strf::lettercase lcs[] = { strf::lowercase, strf::uppercase, strf::mixedcase };
template <typename F> static F value(Rng& g) { if (g.chance(1, 12)) { static const F s[] = { (F)NAN, (F)-NAN, (F)HUGE_VAL, (F)-HUGE_VAL, (F)0.0, (F)-0.0 }; return g.pick(s); } 
    if (g.chance(1, 4)) { // large integral parts, runs of nines that carry
        std::string s; unsigned n = 1 + (unsigned)g.below(17), pt = (unsigned)g.below(n + 1); unsigned nines = (unsigned)g.below(3);
        for (unsigned i = 0; i < n; ++i) { if (i == pt) s += '.'; s += nines && g.chance(nines * 2, 5) ? '9' : (char)('0' + g.below(10)); }
        return (F)strtod(s.c_str(), nullptr) * (g.coin() ? 1 : -1);
    }
    return gen_float<F>(g); }
static char32_t gen_pt(Rng& g) { static const char32_t e[] = { U'.', U',', 0x66B, 0xB7, 0x20AC, 0x10FFFF, 0x7F, 0x80, 0xA4, 0xFF, 0x100, U'*' }; return g.coin() ? g.pick(e) : gen_scalar(g); }
static Punct gen_punct(Rng& g) { Punct p; p.grp = gen_grp(g); p.sep = g.chance(1, 4) ? 0x110000 + (char32_t)g.below(9) : gen_pt(g); p.dec = gen_pt(g); p.hexdec = gen_pt(g); return p; }

template <typename F> static void one(Rng& g) {
    F v = value<F>(g);
    auto lc = g.pick(lcs);
    Punct pu = gen_punct(g); bool given = !g.chance(1, 5);
    if (!given) pu = Punct{};
    AF a; bool al = g.coin(); if (al) a = gen_af(g);
    FF f; f.nt = (Nt)g.below(4); f.prec = g.coin() ? -1 : (int)g.below(g.coin() ? 6 : 40); f.point = g.chance(1, 3); f.punct = g.coin(); f.sign = (int)g.below(3);
    f.pad0 = g.coin() ? 0 : (int)g.below(g.coin() ? 20 : 120);
    with_charset<C>(g, [&](const auto& cs, DestCs dc) {
        auto pack = strf::pack(lc, cs, strf::numpunct<10>(given ? to_strf(pu.grp) : strf::digits_grouping()).thousands_sep(pu.sep).decimal_point(pu.dec), strf::numpunct<16>(given ? to_strf(gen_grp(g)) : strf::digits_grouping()).thousands_sep(gen_pt(g)).decimal_point(pu.hexdec));
        auto make = [&](const FF& q) { return float_aligned(v, q, lc, &pu, dc, a); };
        std::basic_string<C> got; const char* how;
        const bool static_flags = !f.punct && g.coin();
        if (static_flags) {
            how = "no-punct";
            auto fin = [&](auto&& h) {
                auto q = std::move(h).pad0(f.pad0);
                if (f.prec >= 0) q = std::move(q).p(f.prec);
                if (f.point) q = *std::move(q);
                if (f.sign == 1) q = +std::move(q); else if (f.sign == 2) q = ~std::move(q);
                got = al ? print<C>(g, pack, std::move(q).set_alignment_format(to_strf(a))) : print<C>(g, pack, q);
            };
            switch (f.nt) { case Nt::fixed: fin(strf::fixed(v)); break; case Nt::sci: fin(strf::sci(v)); break; case Nt::gen: fin(strf::gen(v)); break; default: fin(strf::hex(v)); }
        } else if (f.punct && g.coin()) {
            how = "punct";
            auto fin = [&](auto&& h) {
                auto q = !std::move(h);
                if (f.point) q = *std::move(q);
                if (f.prec >= 0) q = std::move(q).p(f.prec);
                if (f.sign == 1) q = +std::move(q); else if (f.sign == 2) q = ~std::move(q);
                q = std::move(q).pad0(f.pad0);
                got = al ? print<C>(g, pack, std::move(q).set_alignment_format(to_strf(a))) : print<C>(g, pack, q);
            };
            switch (f.nt) { case Nt::fixed: fin(strf::fixed(v)); break; case Nt::sci: fin(strf::sci(v)); break; case Nt::gen: fin(strf::gen(v)); break; default: fin(strf::hex(v)); }
        } else {
            how = "dynamic";
            auto q = strf::fmt(v).set_float_format(to_strf(f));
            got = al ? print<C>(g, pack, std::move(q).set_alignment_format(to_strf(a))) : print<C>(g, pack, q);
        }
        auto ref = dc.encode<C>(make(f));
        FF lf = f; lf.lossy = true;   // P09's known finding is not judged again here
        if (got != ref && got != dc.encode<C>(make(lf)))
            vh::violation(std::string("flags:") + how, ff_desc(v, f) + vh::fmt(" %s charset %s grouping (%s) sep U+%X point U+%X/U+%X align=%s fill=U+%X width=%d/65536 printed ", lcname(lc), dc.name(), pu.grp.show().c_str(), (unsigned)pu.sep,
                (unsigned)pu.dec, (unsigned)pu.hexdec, al_name(a.al).c_str(), (unsigned)a.fill, a.w.underlying_value()) + vh::show(got) + " expected " + vh::show(ref));
        if (vh::want_sample()) vh::sample(ff_desc(v, f) + " -> " + vh::show(got));
        if (!std::isfinite(v)) vh::event(std::isnan(v) ? "nan" : "inf");
        if (f.punct && std::isfinite(v) && f.nt != Nt::hex && parts(v, f, nullptr).grouped && !pu.grp.cuts((int)parts(v, f, nullptr).ip.size()).empty()) vh::event(dc.has(pu.sep) ? "grouped" : "grouping-not-encodable");
        if (f.pad0) vh::event("pad0");
    });
    std::uint64_t u = 0; memcpy(&u, &v, sizeof v);
    vh::nontrivial(vh::hash_of(u, (int)f.nt, f.prec, f.point, f.punct, f.sign, f.pad0, (int)lc, (int)a.al, a.w.underlying_value()));
}
// formats without any float option: alignment and letter case only
template <typename F> static void simple(Rng& g) {
    F v = value<F>(g); auto lc = g.pick(lcs); AF a; bool al = g.coin(); if (al) a = gen_af(g);
    FF f; Punct pu;
    auto ref = enc<C>(float_aligned(v, f, lc, &pu, DestCs{}, a));
    auto got = al ? print<C>(g, strf::pack(lc), strf::fmt(v).set_alignment_format(to_strf(a))) : g.coin() ? print<C>(g, strf::pack(lc), v) : print<C>(g, strf::pack(lc), strf::fmt(v));
    expect_eq(got, ref, "simple", ff_desc(v, f) + vh::fmt(" %s align=%s fill=U+%X width=%d/65536", lcname(lc), al_name(a.al).c_str(), (unsigned)a.fill, a.w.underlying_value()));
    std::uint64_t u = 0; memcpy(&u, &v, sizeof v);
    vh::nontrivial(vh::hash_of(u, (int)lc, (int)a.al, a.w.underlying_value()));
}
static void run() {
    std::string cn = cname<C>::v;
#if PART != 1
    vh::section(("flags-double-" + cn).c_str(), 40000, 3000000, [](Rng& g, std::uint64_t) { one<double>(g); });
    vh::section(("simple-" + cn).c_str(), 12000, 600000, [](Rng& g, std::uint64_t) { if (g.coin()) simple<double>(g); else simple<float>(g); });
#endif
#if PART != 0
    vh::section(("flags-float-" + cn).c_str(), 25000, 2000000, [](Rng& g, std::uint64_t) { one<float>(g); });
#endif
}
VH_MAIN(run)
