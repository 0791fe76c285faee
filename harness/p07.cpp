// P07: digit grouping: API against a reference on plain vectors, and printed numbers.
#include "grp.hpp"
#include <charconv>
#include <climits>
using namespace gen;
#ifndef CH
#define CH char
#endif
using C = CH;
#ifndef PART
#define PART 0
#endif

static std::string digs(std::uint64_t v, int base) {
    std::string s;
    do { s.insert(s.begin(), "0123456789abcdef"[v % (unsigned)base]); v /= (unsigned)base; } while (v);
    return s;
}

// ------------------------------------------------------------------ the classes
static void api(Rng& g, std::uint64_t) {
    Grp r = gen_grp(g);
    unsigned how = (unsigned)g.below(6);
    auto d = to_strf(r, how);
    auto name = [&] { return vh::fmt("grouping (%s) built in way %u", r.show().c_str(), how % 3); };
    VH_CHECK(d.empty() == r.g.empty(), "grouping:empty", name());
    // all ways agree; finish() is documented to merge repeated groups
    bool canonical = r.fin || r.g.size() < 2 || r.g[r.g.size() - 1] != r.g[r.g.size() - 2];
    if (canonical) {
        for (unsigned h = 0; h < 3; ++h) {
            auto e = to_strf(r, h);
            VH_CHECK(e == d && !(e != d), "grouping:equality", name() + vh::fmt(" differs from way %u", h));
        }
    }
    Grp other = gen_grp(g);
    if (canonical && !(other.fin == r.fin && other.g == r.g) && !(other.g.empty() && r.g.empty())) {
        bool oc = other.fin || other.g.size() < 2 || other.g[other.g.size() - 1] != other.g[other.g.size() - 2];
        auto e = to_strf(other, how);
        if (oc) VH_CHECK(e != d && !(e == d), "grouping:inequality", name() + " equals (" + other.show() + ")");
    }
    // the iterator enumerates the groups
    if (!r.g.empty() && how % 3 == 2) {
        auto it = d.get_iterator();
        for (std::size_t i = 0; i < r.g.size(); ++i) {
            bool last = i + 1 == r.g.size();
            VH_CHECK(!it.ended(), "iterator:ended", name());
            if (it.ended()) break;
            VH_CHECK(it.current() == r.g[i] && it.is_last() == last && it.shall_repeat_current() == (last && !r.fin) && it.is_final() == (last && r.fin), "iterator",
                     name() + vh::fmt(" at %zu: current %d last %d repeat %d final %d", i, it.current(), it.is_last(), it.shall_repeat_current(), it.is_final()));
            it.advance();
        }
        VH_CHECK(it.ended(), "iterator:not-ended", name());
    } else VH_CHECK(r.g.empty() == d.get_iterator().ended(), "iterator:empty", name());
    auto sep = gen_scalar(g), pt = gen_scalar(g);
    strf::numpunct<10> np = g.coin() ? strf::numpunct<10>(d).thousands_sep(sep).decimal_point(pt) : strf::numpunct<10>().grouping(d).decimal_point(pt).thousands_sep(sep);
    VH_CHECK(np.grouping() == d && np.thousands_sep() == sep && np.decimal_point() == pt, "numpunct:members", name());
    for (unsigned k = 0; k < 24; ++k) {
        int n = k < 4 ? (int)k : g.coin() ? (int)g.below(40) : (int)g.below(400);
        auto cuts = r.cuts(n);
        int cnt = (int)cuts.size();
        VH_CHECK(d.separators_count(n) == cnt, "separators_count", name() + vh::fmt(" separators_count(%d)=%d expected %d", n, d.separators_count(n), cnt));
        VH_CHECK(d.any_separator(n) == (cnt > 0), "any_separator", name() + vh::fmt(" any_separator(%d)=%d", n, d.any_separator(n)));
        VH_CHECK(np.thousands_sep_count(n) == cnt && np.any_group_separation(n) == (cnt > 0), "numpunct:counts", name() + vh::fmt(" %d digits", n));
        if (n > 0) {
            auto x = g.coin() ? d.distribute(n) : np.distribute(n);
            // rebuild the positions: highest, then middle_groups_count times the group last pushed, then the low ones
            std::vector<int> sizes{ x.highest_group };
            bool bad = x.highest_group < 1 || x.middle_groups_count < 0 || (x.middle_groups_count > 0 && x.low_groups.empty());
            if (!bad) {
                for (int i = 0; i < x.middle_groups_count; ++i) sizes.push_back(x.low_groups.highest_group());
                int guard = 0;
                // the repeating group on top of low_groups is counted in middle_groups_count
                auto low = x.low_groups;
                std::vector<int> lows;
                while (!low.empty() && guard++ < 10) { lows.push_back(low.highest_group()); low.pop_high(); }
                if (x.middle_groups_count > 0) lows.erase(lows.begin());
                sizes.insert(sizes.end(), lows.begin(), lows.end());
                std::vector<int> want; int prev = 0;
                for (int c : cuts) { want.insert(want.begin(), c - prev); prev = c; }
                want.insert(want.begin(), n - prev);
                bad = sizes != want;
            }
            if (bad) {
                std::string s; for (int v : sizes) s += vh::fmt("%d ", v);
                vh::violation("distribute", name() + vh::fmt(" distribute(%d): highest %d middle %d sizes %s", n, x.highest_group, x.middle_groups_count, s.c_str()));
            }
        }
        vh::nontrivial(vh::hash_of(r.show(), how % 3, n));
    }
    if (vh::want_sample()) vh::sample(name() + vh::fmt(" separators in 40 digits: %d", d.separators_count(40)));
    // creator
    strf::digits_grouping_creator c; bool failed = false; std::vector<int> pushed;
    bool uns = g.coin(); static const int odd[] = { 0, 31, 32, 33, -1, 64, INT_MAX };
    for (unsigned n = (unsigned)g.below(9), i = 0; i < n; ++i) {
        int v = g.chance(1, 12) ? g.pick(odd) : (int)g.range(1, 31);
        if (uns) c.push_high((unsigned)v); else c.push_high(v);
        if (failed || v < 1 || v > 31 || pushed.size() == 6) failed = true; else pushed.push_back(v);
        VH_CHECK(c.failed() == failed, "creator:failed", vh::fmt("after push_high(%d): failed()=%d", v, c.failed()));
    }
    Grp want; if (!failed) want.g = pushed;
    want.fin = g.coin() && !want.g.empty();
    auto fin = want.fin || g.coin() * 0 ? c.finish_no_more_sep() : c.finish();
    for (int n : { 1, 2, 3, 7, 20, 64, 130, 300 })
        VH_CHECK(fin.separators_count(n) == (int)want.cuts(n).size(), "creator:result", vh::fmt("groups %s separators_count(%d)=%d", want.show().c_str(), n, fin.separators_count(n)));
    // strings, byte by byte
    std::string s; Grp sw; bool sfail = false, ended = false;
    for (unsigned n = (unsigned)g.below(9), i = 0; i < n; ++i) {
        int b = g.chance(1, 10) ? (int)g.range(1, 255) : (int)g.range(1, 31);
        s += (char)b;
        if (ended) continue;
        if (b & 0x80 || b == CHAR_MAX) { ended = true; sw.fin = true; continue; }
        if (sfail || b > 31 || sw.g.size() == 6) sfail = true; else sw.g.push_back(b);
    }
    if (sfail) sw.g.clear();
    auto* heap = new char[s.size() + 1]; memcpy(heap, s.c_str(), s.size() + 1);
    strf::digits_grouping ds(static_cast<const char*>(heap));
    delete[] heap;
    for (int n : { 1, 2, 3, 7, 20, 64, 130, 300 })
        VH_CHECK(ds.separators_count(n) == (int)sw.cuts(n).size(), "string:result", "grouping string " + vh::show(s) + vh::fmt(" separators_count(%d)=%d", n, ds.separators_count(n)));
    vh::event("groupings-built", 3);
}

// ------------------------------------------------------------------ printed integers
static char32_t gen_sep(Rng& g) {
    static const char32_t e[] = { U',', U'.', U'\'', U' ', 0x20AC, 0x152, 0xA4, 0xA0, 0xB7, 0x202F, 0x2019, 0xFFFF, 0x10FFFF, 0x1F40A, 0x7F, 0x80, 0xFF, 0x100, 0x7FF, 0x800 };
    if (g.chance(1, 4)) { char32_t c = sbt::Tables<>::get((int)g.below(sbt::count)).dec[0x80 + g.below(0x80)]; if (c != 0xFFFF) return c; }
    return g.chance(1, 30) ? 0x110000 + (char32_t)g.below(100) : g.chance(1, 3) ? gen_scalar(g) : g.pick(e);
}
template <int Base, typename I> static void print_int(Rng& g) {
    using U = std::make_unsigned_t<I>;
    I x = gen_int<I>(g);
    Grp r = gen_grp(g), r2 = gen_grp(g);
    char32_t sep = gen_sep(g);
    auto np = strf::numpunct<Base>(to_strf(r, (unsigned)g.below(3))).thousands_sep(sep);
    constexpr int Other = Base == 10 ? 16 : 10;
    auto np2 = strf::numpunct<Other>(to_strf(r2, 0)).thousands_sep(gen_sep(g));
    AF a; bool al = g.coin(); if (al) a = gen_af(g);
    int prec = g.coin() ? (int)g.below(g.coin() ? 30 : 140) : 0, pad0 = g.coin() ? (int)g.below(g.coin() ? 30 : 200) : 0;
    int sign = Base == 10 ? (int)g.below(3) : 0; bool showbase = Base != 10 && g.coin();
    unsigned mode = (unsigned)g.below(3);   // numpunct, none given, no_grouping
    with_charset<C>(g, [&](const auto& cs, DestCs dc) {
        bool group = mode == 0 && dc.has(sep);
        std::string pre, d; bool fs = false; int p = prec;
        if (Base == 10) {
            d = digs(x < 0 ? 0 - (std::uint64_t)(std::int64_t)x : (std::uint64_t)x, 10);
            if (x < 0) pre = "-"; else if (std::is_signed<I>::value && sign == 1) pre = "+"; else if (std::is_signed<I>::value && sign == 2) fs = true;
        } else {
            d = digs((U)x, Base);
            if (showbase) { if (Base == 16) pre = "0x"; else if (Base == 2) pre = "0b"; else if ((U)x) { pre = "0"; --p; } }
        }
        u32s dd = group ? r.apply(u32(d), sep) : u32(d);
        int nsep = (int)(dd.size() - d.size());
        int w = (int)(d.size() + pre.size()) + fs + nsep;
        int zeros = std::max({ 0, p - (int)d.size(), pad0 - w });
        u32s want = align((fs ? u32s(1, al ? a.fill : U' ') : u32s()) + u32(pre) + u32s((std::size_t)zeros, U'0') + dd, round_w(a.w) - (w + zeros), a.al, a.fill);
        auto ref = dc.encode<C>(want);
        auto go = [&](const auto& arg) {
            std::basic_string<C> got;
            if (mode == 0) got = print<C>(g, strf::pack(cs, np2, np), arg);
            else if (mode == 1) got = print<C>(g, strf::pack(cs, np2), arg);
            else got = print<C>(g, strf::pack(cs, strf::no_grouping<Base>().decimal_point(sep), np2), arg);
            if (got != ref)
                vh::violation("print-int", vh::fmt("%s%zu %lld base %d grouping (%s) mode %u sep U+%X charset %s p=%d pad0=%d sign=%d prefix=%d align=%s fill=U+%X width=%d/65536 printed ",
                    std::is_signed<I>::value ? "i" : "u", sizeof(I) * 8, (long long)x, Base, r.show().c_str(), mode, (unsigned)sep, dc.name(), prec, pad0, sign, showbase, al_name(a.al).c_str(), (unsigned)a.fill, a.w.underlying_value()) + vh::show(got) + " expected " + vh::show(ref));
            if (nsep) { vh::event("numbers-with-separators"); vh::event("separators-printed", (unsigned)nsep); }
            if (!group && mode == 0 && r.cuts((int)d.size()).size()) vh::event("unencodable-separators");
            if (vh::want_sample()) vh::sample(vh::fmt("%lld base %d grouping (%s) -> ", (long long)x, Base, r.show().c_str()) + vh::show(got));
        };
        if (g.coin()) {
            strf::int_format f; f.base = Base; f.precision = prec; f.pad0width = pad0; f.showbase = showbase; f.punctuate = true;
            f.sign = sign == 1 ? strf::showsign::positive_also : sign == 2 ? strf::showsign::fill_instead_of_positive : strf::showsign::negative_only;
            if (al) go(strf::fmt(x).set_int_format(f).set_alignment_format(to_strf(a))); else go(strf::fmt(x).set_int_format(f));
        } else {
            auto fin = [&](auto&& h) { auto q = !std::move(h).p(prec).pad0(pad0); if (al) go(std::move(q).set_alignment_format(to_strf(a))); else go(q); };
            if constexpr (Base == 10) { if (sign == 1) fin(+strf::dec(x)); else if (sign == 2) fin(~strf::dec(x)); else fin(strf::dec(x)); }
            else {
                auto h = [&] { if constexpr (Base == 16) return strf::hex(x); else if constexpr (Base == 8) return strf::oct(x); else return strf::bin(x); }();
                if (showbase) fin(*std::move(h)); else fin(std::move(h));
            }
        }
    });
    vh::nontrivial(vh::hash_of((std::uint64_t)x, sizeof(I), Base, r.show(), (unsigned)sep, prec, pad0, sign, showbase, (int)a.al, mode));
}

// integral part and decimal point of floats; the digits of numbers below 2^53 come from to_chars
static void print_float(Rng& g, std::uint64_t) {
    double x = g.coin() ? (double)(g.next() >> (11 + g.below(53))) : std::ldexp((double)(g.next() >> 12), -(int)g.below(50));
    if (g.coin()) x = -x;
    char b[64]; auto e = std::to_chars(b, b + 64, std::fabs(x), std::chars_format::fixed);
    std::string d(b, e.ptr), frac; auto dot = d.find('.');
    if (dot != d.npos) { frac = d.substr(dot + 1); d.erase(dot); }
    Grp r = gen_grp(g); auto sep = gen_sep(g), pt = gen_scalar(g);
    with_charset<C>(g, [&](const auto& cs, DestCs dc) {
        bool group = dc.has(sep);
        u32s dd = group ? r.apply(u32(d), sep) : u32(d);
        bool dotshown = !frac.empty();
        u32s want = (std::signbit(x) ? U"-" : U"") + dd + (dotshown ? u32s(1, pt) : u32s()) + u32(frac);
        auto ref = dc.encode<C>(want);
        auto got = print<C>(g, strf::pack(cs, strf::numpunct<10>(to_strf(r, (unsigned)g.below(3))).thousands_sep(sep).decimal_point(pt)), !strf::fixed(x));
        if (got != ref) vh::violation("print-float", vh::fmt("%.17g grouping (%s) sep U+%X point U+%X charset %s printed ", x, r.show().c_str(), (unsigned)sep, (unsigned)pt, dc.name()) + vh::show(got) + " expected " + vh::show(ref));
        if (dd.size() != d.size()) vh::event("numbers-with-separators");
        vh::nontrivial(vh::hash_of(x, r.show(), (unsigned)sep, (unsigned)pt));
    });
}
static void facets(Rng& g, std::uint64_t) {
    char32_t pt = gen_scalar(g);
    auto n = strf::no_grouping<10>().decimal_point(pt);
    strf::numpunct<10> c(n);
    int k = (int)g.below(100);
    VH_CHECK(n.decimal_point() == pt && c.decimal_point() == pt && c.grouping().empty() && n.grouping().empty() && n.thousands_sep_count(k) == 0 && !n.any_group_separation(k) && c.thousands_sep_count(k) == 0, "no_grouping", vh::fmt("U+%X", (unsigned)pt));
    auto chk = [&](auto d, auto b) {
        constexpr int B = decltype(b)::value;
        strf::numpunct<B> q(d);
        VH_CHECK(d.grouping().empty() && d.decimal_point() == U'.' && d.thousands_sep_count(k) == 0 && !d.any_group_separation(k) && q.grouping().empty() && q.decimal_point() == U'.', "default_numpunct", vh::fmt("base %d", B));
        auto x = d.distribute(k + 1);
        VH_CHECK(x.highest_group == k + 1 && x.middle_groups_count == 0 && x.low_groups.empty(), "default_numpunct:distribute", vh::fmt("base %d", B));
    };
    chk(strf::default_numpunct<2>(), std::integral_constant<int, 2>()); chk(strf::default_numpunct<8>(), std::integral_constant<int, 8>());
    chk(strf::default_numpunct<10>(), std::integral_constant<int, 10>()); chk(strf::default_numpunct<16>(), std::integral_constant<int, 16>());
    vh::nontrivial(vh::hash_of((unsigned)pt, k));
}
template <int B> static void ints(Rng& g) {
    switch (g.below(4)) { case 0: print_int<B, long long>(g); break; case 1: print_int<B, unsigned long long>(g); break; case 2: print_int<B, int>(g); break; default: print_int<B, unsigned short>(g); }
}
static void run() {
    std::string cn = cname<C>::v;
#if PART == 0
    vh::section(("grouping-api-" + cn).c_str(), 6000, 400000, api);
    vh::section(("facets-" + cn).c_str(), 500, 5000, facets);
    vh::section(("floats-" + cn).c_str(), 6000, 400000, print_float);
    vh::section(("dec-" + cn).c_str(), 12000, 800000, [](Rng& g, std::uint64_t) { ints<10>(g); });
#elif PART == 1
    vh::section(("hex-" + cn).c_str(), 12000, 800000, [](Rng& g, std::uint64_t) { ints<16>(g); });
#elif PART == 2
    vh::section(("bin-" + cn).c_str(), 12000, 800000, [](Rng& g, std::uint64_t) { ints<2>(g); });
#else
    vh::section(("oct-" + cn).c_str(), 12000, 800000, [](Rng& g, std::uint64_t) { ints<8>(g); });
#endif
}
VH_MAIN(run)
