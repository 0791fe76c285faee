// P08: floats without precision: shortest round-trip digits in the notation asked for.
#include "flt.hpp"
using namespace gen;
#ifndef CH
#define CH char
#endif
using C = CH;

template <typename F> static bool same(F a, F b) { return memcmp(&a, &b, sizeof a) == 0; }
template <typename F> static F rd(const char* s, char** e) { if constexpr (sizeof(F) == 4) return strtof(s, e); else return strtod(s, e); }

template <typename F, typename P> static void judge(F v, Nt nt, const char* how, P&& printer) {
    C buf[1200]; auto r = printer(buf);
    std::basic_string<C> got(buf, r);
    FF f; f.nt = nt;
    auto want = float_text(v, f, strf::lowercase, nullptr, DestCs{}, U' ');
    bool ok = got.size() == want.size() && std::equal(got.begin(), got.end(), want.begin(), [](C a, char32_t b) { return (char32_t)a == b; });
    if (!ok) vh::violation(std::string("digits:") + how, ff_desc(v, f) + " printed " + vh::show(got) + " expected " + vh::show(want));
    if (vh::want_sample()) vh::sample(ff_desc(v, f) + " -> " + vh::show(got));
    // independently of to_chars: the text reads back to the very value
    if (!std::isnan(v)) {
        std::string s; for (auto c : got) s += (char)c;
        char* e; F back = rd<F>(s.c_str(), &e);
        if (*e || !same(back, v)) vh::violation(std::string("round-trip:") + how, ff_desc(v, f) + " printed " + vh::show(got) + vh::fmt(" which reads as %.17g", (double)back));
        else vh::event("read-back");
    }
}
template <typename F> static void all(Rng& g, F v) {
    auto to = [](C* b, const auto& a) { return strf::to(b, 1200)(a).ptr; };
    judge(v, Nt::gen, "plain", [&](C* b) { return to(b, v); });
    switch (g.below(4)) {
        case 0: judge(v, Nt::gen, "general", [&](C* b) { return to(b, g.coin() ? strf::gen(v) : strf::gen(strf::fmt(v))); }); break;
        case 1: judge(v, Nt::fixed, "fixed", [&](C* b) { return to(b, strf::fixed(v)); }); break;
        case 2: judge(v, Nt::sci, "sci", [&](C* b) { return to(b, strf::sci(v)); }); break;
        default: judge(v, Nt::gen, "fmt", [&](C* b) { return to(b, strf::fmt(v)); }); break;
    }
    std::uint64_t u = 0; memcpy(&u, &v, sizeof v);
    vh::nontrivial(vh::hash_of(u, sizeof v));
}
static void run() {
    std::string cn = cname<C>::v;
#ifdef FAST
    // whole ranges of float bit patterns; all of them in the thorough tier
    vh::section("float-blocks", 500, 65536, [](Rng& g, std::uint64_t i) {
        std::uint32_t blk = vh::rt().thorough ? (std::uint32_t)i : (std::uint32_t)(vh::mix(vh::rt().seed * 977 + i) & 0xFFFF);
        for (unsigned k = 0; k < 65536; k += vh::rt().thorough ? 1 : 13) {
            std::uint32_t u = blk << 16 | k; float v; memcpy(&v, &u, 4);
            C b[400]; auto r = strf::to(b)(v);
            char t[64]; 
            std::string s(b, r.ptr);
            if (std::isfinite(v)) {
                char* e; float back = strtof(s.c_str(), &e);
                if (*e || !same(back, v)) vh::violation("round-trip:plain", ff_desc(v, FF{}) + " printed " + vh::show(s));
                Dec d = shortest(v); std::string ds;
                for (char c : s) { if (c == 'e') break; if (c >= '0' && c <= '9') ds += c; }
                auto a = ds.find_first_not_of('0'), z = ds.find_last_not_of('0');
                if (a != ds.npos) ds = ds.substr(a, z - a + 1); else ds = "0";
                if (ds != d.d) vh::violation("digits:plain", ff_desc(v, FF{}) + " printed " + vh::show(s) + " expected the digits " + d.d);
            }
            (void)t;
        }
        vh::event("float-values", 65536 / (vh::rt().thorough ? 1 : 13));
        vh::nontrivial(vh::hash_of(blk));
    });
    vh::section("doubles-bulk", 500000, 60000000, [](Rng& g, std::uint64_t) { all<double>(g, gen_float<double>(g)); });
    // decimal texts of up to 17 digits: values with a short representation near a boundary
    vh::section("short-decimals", 200000, 20000000, [](Rng& g, std::uint64_t) {
        std::string s = std::to_string(g.next() >> (8 + g.below(56))) + "e" + std::to_string(g.range(-330, 300));
        double v = strtod(s.c_str(), nullptr); if (std::isinf(v)) v = 1;
        all<double>(g, g.coin() ? v : -v);
    });
#else
    vh::section(("double-" + cn).c_str(), 30000, 2000000, [](Rng& g, std::uint64_t) { all<double>(g, gen_float<double>(g)); });
    vh::section(("float-" + cn).c_str(), 20000, 2000000, [](Rng& g, std::uint64_t) { all<float>(g, gen_float<float>(g)); });
    // every power of two and its neighbours
    vh::exhaustive(("powers-of-two-" + cn).c_str(), 2098, [](Rng& g, std::uint64_t i) {
        double v = std::ldexp(1.0, (int)i - 1074);
        for (double w : { v, std::nextafter(v, 0.0), std::nextafter(v, HUGE_VAL) }) { all<double>(g, w); all<double>(g, -w); if (i > 900 && i < 1230) all<float>(g, (float)w); }
    });
    vh::section(("hostile-buffers-" + cn).c_str(), 6000, 200000, [](Rng& g, std::uint64_t) {
        double v = gen_float<double>(g); FF f; f.nt = (Nt)g.below(3);
        auto got = f.nt == Nt::fixed ? print<C>(g, strf::pack(), strf::fixed(v)) : f.nt == Nt::sci ? print<C>(g, strf::pack(), strf::sci(v)) : g.coin() ? print<C>(g, strf::pack(), v) : print<C>(g, strf::pack(), strf::gen(v));
        expect_eq(got, enc<C>(float_text(v, f, strf::lowercase, nullptr, DestCs{}, U' ')), "hostile-buffer", ff_desc(v, f));
        vh::nontrivial(vh::hash_of(v, (int)f.nt));
    });
#endif
}
VH_MAIN(run)
