// P13: strings, plain, cut by width, and transcoded.
#include "tc.hpp"
#include "wid.hpp"
using namespace gen;
using wid::Wc; using wid::q16;
#ifndef CH
#define CH char
#endif
#ifndef OC
#define OC char16_t
#endif
using C = CH; using O = OC;
using S = std::basic_string<C>;
static q16 Q(strf::width_t w) { return w.underlying_value(); }
// what a width calculator makes of any string: (units that fit, their width)
template <typename T> struct Measure {
    bool known = true; std::vector<std::size_t> end; std::vector<q16> w; q16 total = 0;
    Measure(Wc k, const tc::Ch& cs, const std::basic_string<T>& s) {
        if (k == Wc::fast) { for (std::size_t i = 0; i < s.size(); ++i) { end.push_back(i + 1); w.push_back(0x10000); } total = (q16)s.size() * 0x10000; return; }
        auto v = tc::decode(cs, s.data(), s.size(), false);
        u32s t; for (auto& x : v) { t += x.cp; if (k == Wc::fast_u32len && !x.ok) known = false; if (k == Wc::std && wid::gcb(x.cp) == wid::TooNew) known = false; }
        auto p = wid::pieces(k, t, [](char32_t) { return 1; });
        for (auto e : p.end) end.push_back(v[e - 1].at + v[e - 1].n);
        w = p.w; total = p.total;
    }
    std::pair<std::size_t, q16> cut(q16 lim) const {
        if (lim < 0) lim = 0;
        std::size_t n = 0; q16 t = 0;
        for (std::size_t i = 0; i < w.size(); ++i) { if (t + w[i] > lim) break; t += w[i]; n = end[i]; }
        return { n, t };
    }
};
static strf::width_t near_limit(Rng& g, const std::vector<q16>& w) {
    if (g.chance(1, 3)) return gen_width(g, 60);
    q16 t = 0; std::size_t n = w.size() ? g.below(w.size() + 1) : 0; for (std::size_t i = 0; i < n; ++i) t += w[i];
    static const int d[] = { 0, 0, 0, 1, -1, 0x8000, -0x8000, 0x10000, -0x10000 }; t += g.pick(d);
    return strf::width_t::from_underlying((std::int32_t)std::min<q16>(t, INT32_MAX));
}
static std::size_t len(Rng& g) { return g.chance(1, 4) ? gen_len(g) : g.below(16); }
static S pad(const S& content, q16 width, const AF& a, const tc::Ch& dst) {
    q16 d = Q(a.w) - width; int n = d > 0 ? (int)((d + 0x7FFF) >> 16) : 0, l = a.al == Al::left ? 0 : a.al == Al::right ? n : n / 2;
    S f = tc::encode1<C>(dst, a.fill), r;
    for (int i = 0; i < l; ++i) r += f;
    r += content;
    for (int i = l; i < n; ++i) r += f;
    return r;
}
#if PART == 0
template <typename T> struct Alloc : std::allocator<T> { template <typename U> struct rebind { using other = Alloc<U>; }; Alloc() = default; template <typename U> Alloc(const Alloc<U>&) {} };
template <typename T> struct Traits : std::char_traits<T> {};
template <typename T> struct MyStr { using value_type = T; using traits_type = std::char_traits<T>; std::basic_string_view<T> v; operator std::basic_string_view<T>() const { return v; } };
static void plain(Rng& g) {
    auto cs = tc::any_dynamic<C>(g);
    S s = tc::gen_src<C>(g, cs.second, len(g), g.chance(1, 2));
    if (g.chance(1, 5) && s.size()) s[g.below(s.size())] = C();
    bool nul = s.find(C()) != S::npos;
    auto pk = strf::pack(cs.first);
    S got, want = s; const char* kind;
    switch (g.below(10)) {
        case 0: kind = "basic_string"; got = print<C>(g, pk, s); break;
        case 1: kind = "string_view"; { auto p = std::make_unique<C[]>(s.size()); std::copy(s.begin(), s.end(), p.get()); got = print<C>(g, pk, std::basic_string_view<C>(p.get(), s.size())); } break;
        case 2: kind = "pointer"; { auto p = std::make_unique<C[]>(s.size() + 1); std::copy(s.begin(), s.end(), p.get()); p[s.size()] = C(); want = s.substr(0, s.find(C())); got = print<C>(g, pk, (const C*)p.get()); } break;
        case 3: kind = "array"; { C arr[24]; S z = s.substr(0, 23); std::copy(z.begin(), z.end(), arr); arr[z.size()] = C(); want = z.substr(0, z.find(C())); got = print<C>(g, pk, arr); } break;
        case 4: kind = "custom-traits"; { std::basic_string<C, Traits<C>> x(s.data(), s.size()); got = print<C>(g, pk, x); } break;
        case 5: kind = "custom-allocator"; { std::basic_string<C, std::char_traits<C>, Alloc<C>> x(s.data(), s.size()); got = print<C>(g, pk, x, x); want = s + s; } break;
        case 6: kind = "view-convertible"; { MyStr<C> m; m.v = s; got = print<C>(g, pk, m); } break;
        case 7: kind = "temporary"; got = print<C>(g, pk, S(s), strf::fmt(S(s))); want = s + s; break;
        case 8: kind = "many"; got = print<C>(g, pk, s, (C)'-', s, S(), s); want = s + (C)'-' + s + s; break;
        default: kind = "fmt"; got = print<C>(g, pk, strf::fmt(s)); break;
    }
    vh::event(nul ? "with-null" : "without-null");
    expect_eq(got, want, kind, std::string(kind) + " in " + cs.second.name);
    vh::nontrivial(vh::hash_of(got, kind));
    if (vh::want_sample()) vh::sample(std::string(kind) + " " + vh::show(s, 60));
}
static void cuts(Rng& g) { wid::with_wc(g, [&](const auto& wc, Wc k) {
    auto cs = tc::any_dynamic<C>(g);
    S s;
    if (cs.second.kind != tc::Kind::sb && cs.second.kind != tc::Kind::user && g.coin()) { s = enc<C>(wid::gen_wtext(g, len(g))); if (g.chance(1, 4)) for (int i = 0; i < 3; ++i) { S b; tc::put_bad<C>(g, cs.second, b); s.insert(g.below(s.size() + 1), b); } }
    else s = tc::gen_src<C>(g, cs.second, len(g), g.chance(1, 2));
    Measure<C> m(k, cs.second, s);
    if (!m.known) { vh::event("unspecified"); return; }
    strf::width_t lim = near_limit(g, m.w);
    auto c = m.cut(Q(lim));
    auto heap = std::make_unique<C[]>(s.size()); std::copy(s.begin(), s.end(), heap.get());
    std::basic_string_view<C> v(heap.get(), s.size());
    auto pk = strf::pack(cs.first, wc);
    S got, want = s.substr(0, c.first); std::string what;
    if (g.coin()) got = print<C>(g, pk, strf::fmt(v).p(lim));
    else { AF a = gen_af(g, 60); want = pad(want, c.second, a, cs.second); got = print<C>(g, pk, strf::fmt(v).p(lim).set_alignment_format(to_strf(a))); what = " aligned"; }
    vh::event(c.first < s.size() ? "cut" : "whole");
    expect_eq(got, want, "precision", vh::show(s) + vh::fmt(" p(%d/65536) ", lim.underlying_value()) + wid::wc_name(k) + " " + cs.second.name + what);
    vh::nontrivial(vh::hash_of(got, (int)k, lim.underlying_value()));
    if (vh::want_sample()) vh::sample("p(" + std::to_string(lim.underlying_value()) + "/65536) " + wid::wc_name(k) + " of " + vh::show(s, 60) + " -> " + vh::show(got, 60));
}); }
static void run() {
    std::string cn = cname<C>::v;
    vh::section(("plain-" + cn).c_str(), 20000, 2000000, [](Rng& g, std::uint64_t) { plain(g); });
    vh::section(("cut-" + cn).c_str(), 30000, 4000000, [](Rng& g, std::uint64_t) { cuts(g); });
}
#else
enum class Op { transcode, sani, unsafe };
static const char* opn[] = { "transcode", "sani", "unsafe_transcode" };
// F: makes the format object from the string view: op and charset already given
template <typename Pk, typename F> static void judge(Rng& g, const Pk& pk0, Op op, const tc::Ch& src, const tc::Ch& dst, const char* how, F&& f) {
    bool bad = op != Op::unsafe && g.chance(2, 3);
    std::basic_string<O> s = tc::gen_src<O>(g, src, len(g), bad);
    auto heap = std::make_unique<O[]>(s.size()); std::copy(s.begin(), s.end(), heap.get());
    std::basic_string_view<O> v(heap.get(), s.size());
    auto go = [&](const auto& wc, Wc k) {
        tc::Rec rec; auto pk = strf::pack(pk0, wc, strf::transcoding_error_notifier_ptr{ &rec });
        Measure<O> m(k, src, s);
        strf::width_t lim = near_limit(g, m.w);
        AF a = gen_af(g, 60);
        auto mode = g.below(4);
        if (mode && !m.known) { vh::event("unspecified"); return; }
        std::basic_string<O> in = s; q16 w = m.total; std::string fm;
        if (mode & 1) { auto c = m.cut(Q(lim)); if (op == Op::unsafe && k == Wc::fast) { // a cut inside a character would not be valid input
                for (auto& x : tc::decode(src, s.data(), s.size(), false)) if (c.first > x.at && c.first < x.at + x.n) return; }
            in = s.substr(0, c.first); w = c.second; fm += vh::fmt(" p(%d/65536)", lim.underlying_value()); }
        S got;
        switch (mode) {
            case 0: got = print<C>(g, pk, f(strf::fmt(v))); break;
            case 1: got = print<C>(g, pk, f(strf::fmt(v).p(lim))); break;
            case 2: got = print<C>(g, pk, f(strf::fmt(v)).set_alignment_format(to_strf(a))); break;
            default: got = print<C>(g, pk, f(strf::fmt(v).set_alignment_format(to_strf(a))).p(lim)); break;
        }
        auto segs = tc::decode(src, in.data(), in.size(), false);
        S want; bool verbatim = src.id == dst.id && op != Op::sani;
        if (verbatim) { for (auto u : in) want += (C)u; vh::event("same-charset"); }
        else for (auto& x : segs) want += tc::encode1<C>(dst, x.cp);
        if (mode & 2) { want = pad(want, w, a, dst); fm += " aligned"; }
        std::string what = std::string(opn[(int)op]) + " " + how + " " + src.name + " to " + dst.name + fm + " " + wid::wc_name(k) + " of " + vh::show(s);
        expect_eq(got, want, opn[(int)op], what);
        auto told = tc::judge_notified(rec, verbatim ? std::vector<tc::Seg>() : segs, src, dst, heap.get(), op == Op::unsafe, what);
        std::size_t inv = told.first, uns = told.second;
        vh::event("invalid-sequences", inv); vh::event("unsupported-codepoints", uns);
        vh::nontrivial(vh::hash_of(got, (int)op, (int)src.id, (int)dst.id));
        if (vh::want_sample()) vh::sample(what.substr(0, 150) + " -> " + vh::show(got, 60));
    };
    switch (g.below(3)) { case 0: go(strf::std_width_calc, Wc::std); break; case 1: go(strf::fast_width, Wc::fast); break; default: go(wid::frac_width_t{}, Wc::frac); break; }
}
template <typename Pk> static void no_arg(Rng& g, const Pk& pk, const tc::Ch& src, const tc::Ch& dst, const char* how) {
    switch (g.below(3)) {
        case 0: judge(g, pk, Op::transcode, src, dst, how, [](auto&& f) { return strf::transcode(f); }); break;
        case 1: judge(g, pk, Op::sani, src, dst, how, [](auto&& f) { return strf::sani(f); }); break;
        default: judge(g, pk, Op::unsafe, src, dst, how, [](auto&& f) { return strf::unsafe_transcode(f); }); break;
    }
}
template <typename Pk, typename Cs> static void with_arg(Rng& g, const Pk& pk, const Cs& cs, const tc::Ch& src, const tc::Ch& dst, const char* how) {
    switch (g.below(3)) {
        case 0: judge(g, pk, Op::transcode, src, dst, how, [cs](auto&& f) { return f.transcode(cs); }); break;
        case 1: judge(g, pk, Op::sani, src, dst, how, [cs](auto&& f) { return f.sani(cs); }); break;
        default: judge(g, pk, Op::unsafe, src, dst, how, [cs](auto&& f) { return f.unsafe_transcode(cs); }); break;
    }
}
static void conv(Rng& g) {
    auto src = tc::any_dynamic<O>(g); auto dst = tc::any_dynamic<C>(g);
    if (g.chance(1, 3) && sizeof(O) == 1 && sizeof(C) == 1) { // the same one
        auto c = tc::any_dynamic<C>(g); dst = c;
        if constexpr (sizeof(O) == 1 && sizeof(C) == 1) { for (int i = 0; i < tc::sb_count; ++i) if (tc::sb_dynamic<O>(i).second.id == c.second.id) src = tc::sb_dynamic<O>(i); if (c.second.kind == tc::Kind::u8) src = tc::utf_dynamic<O>(); }
    }
    switch (g.below(5)) {
        case 0: no_arg(g, strf::pack(), tc::utf_ch<O>(), tc::utf_ch<C>(), "default charsets"); break;
        case 1: with_arg(g, strf::pack(dst.first), src.first, src.second, dst.second, "dynamic charset argument"); break;
        case 2: with_arg(g, strf::pack(dst.first), strf::utf<O>, tc::utf_ch<O>(), dst.second, "static charset argument"); break;
        case 3: with_arg(g, strf::pack(), src.first, src.second, tc::utf_ch<C>(), "dynamic charset argument"); break;
        default:
            if constexpr (std::is_same<O, C>::value) no_arg(g, strf::pack(dst.first), dst.second, dst.second, "charset facet");
            else no_arg(g, strf::pack(src.first, dst.first), src.second, dst.second, "charset facets");
            break;
    }
}
static void run() { vh::section((std::string("convert-") + cname<O>::v + "-" + cname<C>::v).c_str(), 40000, 3000000, [](Rng& g, std::uint64_t) { conv(g); }); }
#endif
VH_MAIN(run)
