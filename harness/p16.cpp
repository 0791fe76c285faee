// P16: joins, nested to any depth, with any facets in scope.
#include "flt.hpp"
#include "wid.hpp"
#include <deque>
#include <list>
using namespace gen;
using wid::Wc; using wid::q16;
#ifndef CH
#define CH char
#endif
using C = CH;
using S = std::basic_string<C>;
#ifndef PART
#define PART 0
#endif
#include "aln.hpp"
// what a piece of output is: its text and its width, independent of any limit
struct M { S s; q16 w = 0; };
static M operator+(M a, const M& b) { a.s += b.s; a.w += b.w; return a; }
struct Env {
    Rng& g; DestCs dc; Wc k; std::deque<S> strs; std::deque<std::vector<int>> vecs;
    Env(Rng& g_, DestCs d, Wc k_) : g(g_), dc(d), k(k_) {}
    const S& keep(S s) { strs.push_back(std::move(s)); return strs.back(); }
    q16 W(const u32s& t) const { if (k == Wc::fast) return (q16)dc.encode<C>(t).size() * 0x10000; return wid::width_of<char32_t>(k, t); }
    q16 w1(char32_t u) const { return k == Wc::frac ? wid::frac_w(u) : k == Wc::std ? wid::cp_width(u) * 0x10000 : k == Wc::fast ? (q16)0x10000 : (q16)0x10000; }
    M fill(const M& m, const AF& a) const { int n = Q(a.w) > m.w ? round_q(Q(a.w) - m.w) : 0; return { expected(m.s, m.w, a, dc), m.w + (q16)(n > 0 ? n : 0) * 0x10000 }; }
    AF af(q16 w) { AF a = rand_af(g); tune(g, a, w); if (g.chance(1, 2)) a.w = strf::width_t::from_underlying((std::int32_t)std::min<q16>(w + (q16)g.below(8 << 16), INT32_MAX)); return a; }
};
template <typename A> struct Arg { A a; M m; };
template <typename A> static Arg<A> arg(A a, M m) { return { std::move(a), std::move(m) }; }
static S num(const std::string& s) { return ascii<C>(s); }
static M nm(const std::string& s) { return { num(s), (q16)s.size() * 0x10000 }; }
// leaves ------------------------------------------------------------------------------
template <int L> static auto leaf(Env& e) {
    Rng& g = e.g;
    if constexpr (L == 0) { u32s t = text_for(g, e.dc, g.below(14)); const S& s = e.keep(e.dc.template encode<C>(t)); return arg(std::basic_string_view<C>(s), M{ s, e.W(t) }); }
    else if constexpr (L == 1) { int n = gen_int<int>(g); return arg(n, nm(std::to_string(n))); }
    else if constexpr (L == 2) { u32s t = text_for(g, e.dc, g.below(10)); const S& s = e.keep(e.dc.template encode<C>(t)); M m{ s, e.W(t) }; AF a = e.af(m.w); return arg(strf::fmt(std::basic_string_view<C>(s)).set_alignment_format(to_strf(a)), e.fill(m, a)); }
    else if constexpr (L == 3) { C c = (C)g.range(0x20, 0x7E); q16 w = e.w1((char32_t)c); int n = (int)g.range(-2, 9); return arg(strf::multi(c, n), M{ S((std::size_t)std::max(n, 0), c), w * std::max(n, 0) }); }
    else if constexpr (L == 4) { char32_t u; do u = gen_scalar(g); while (wid::gcb(u) == wid::TooNew || !e.dc.has(u)); return arg(u, M{ e.dc.template raw<C>(u), e.w1(u) }); }
    else if constexpr (L == 5) { unsigned v = gen_int<unsigned>(g); int z = (int)g.below(20); char b[64]; snprintf(b, 64, "0x%x", v); std::string x = b; while ((int)x.size() < z) x.insert(2, "0"); M m = nm(x); AF a = e.af(m.w);
        return arg((*strf::hex(v)).pad0(z).set_alignment_format(to_strf(a)), e.fill(m, a)); }
    else if constexpr (L == 6) { double d = (double)g.range(-100000, 100000) / 8; char b[64]; snprintf(b, 64, "%.3f", d); return arg(strf::fixed(d, 3), nm(b)); }
    else if constexpr (L == 7) { std::vector<int> v; for (unsigned n = (unsigned)g.below(5); n; --n) v.push_back((int)g.range(-50, 50)); e.vecs.push_back(v); const S& sep = e.keep(num(", ")); std::string x; for (std::size_t i = 0; i < v.size(); ++i) x += (i ? ", " : "") + std::to_string(v[i]);
        M m = nm(x); if (v.size() && e.k != Wc::fast) m.w += (q16)(v.size() - 1) * (e.W(u32(", ")) - 0x20000); return arg(strf::separated_range(e.vecs.back(), sep.c_str()), m); }
    else if constexpr (L == 8) { bool b = g.coin(); M m = nm(b ? "true" : "false"); AF a = e.af(m.w); return arg(strf::fmt(b).set_alignment_format(to_strf(a)), e.fill(m, a)); }
    else if constexpr (L == 9) { int n = (int)g.range(-1000000, 1000000); u32s t = text_for(g, e.dc, g.below(6)); const S& s = e.keep(e.dc.template encode<C>(t)); // inner facets: here widths are code units and digits are grouped
        std::string x = std::to_string(std::abs(n)); for (int i = (int)x.size() - 3; i > 0; i -= 3) x.insert((std::size_t)i, "'"); if (n < 0) x = "-" + x;
        AF a = rand_af(g); M m = M{ s, (q16)s.size() * 0x10000 }; tune(g, a, m.w); M in = nm(x) + Env(g, e.dc, Wc::fast).fill(m, a);
        return arg(strf::with(strf::fast_width, strf::numpunct<10>(3).thousands_sep('\''))(!strf::fmt(n), strf::fmt(std::basic_string_view<C>(s)).set_alignment_format(to_strf(a))), in); }
    else if constexpr (L == 10) { u32s t = text_for(g, e.dc, g.below(10)); const S& s = e.keep(e.dc.template encode<C>(t)); strf::width_t lim = strf::width_t((std::int16_t)g.below(12)); 
        if (e.k == Wc::fast) lim = strf::width_t((std::int16_t)(s.size())); std::pair<std::size_t, q16> c = e.k == Wc::fast ? std::make_pair(t.size(), (q16)s.size() * 0x10000) : wid::cut<C>(e.k, t, Q(lim));
        return arg(strf::fmt(std::basic_string_view<C>(s)).p(lim), M{ e.dc.template encode<C>(t.substr(0, c.first)), c.second }); }
    else if constexpr (L == 11) { const S& tr = e.keep(num("<{}>{{{1}")); int n = (int)g.range(-99, 99); M m = { num("<"), e.W(u32("<")) }; std::string x = std::to_string(n);
        M r; r.s = num("<" + x + ">{" + x); r.w = e.W(u32("<")) + e.W(u32(">")) + e.W(u32("{")) + (q16)x.size() * 0x20000; return arg(strf::tr(tr, n, n), r); }
    else { u32s t = text_for(g, e.dc, g.below(10)); e.strs.emplace_back(); // from UTF-32, converted
        static thread_local std::deque<u32s> hold; if (hold.size() > 200) hold.clear(); hold.push_back(t);
        M m{ e.dc.template encode<C>(t), wid::width_of<char32_t>(e.k, t) }; return arg(strf::transcode(std::u32string_view(hold.back()), strf::utf<char32_t>), m); }
}
// inner nodes ------------------------------------------------------------------------
template <typename... X> static M sum(const X&... x) { M m; ((m = m + x.m), ...); return m; }
template <typename... X> static auto J(Env&, const X&... x) { return arg(strf::join(x.a...), sum(x...)); }
template <typename... X> static auto JA(Env& e, const X&... x) {     // the operators and functions are run-time choices of one type
    M m = sum(x...); AF a = e.af(m.w); M r = e.fill(m, a);
    auto j = strf::join(x.a...);
    using T = decltype(strf::join_left(a.w)(x.a...));
    auto mk = [&]() -> T { switch (e.g.below(4)) {
        case 0: return apply(e.g, j, a);
        case 1: return strf::join_align(a.w, to_strf(a.al), a.fill)(x.a...);
        case 2: return a.al == Al::left ? strf::join_left(a.w, a.fill)(x.a...) : a.al == Al::right ? strf::join_right(a.w, a.fill)(x.a...) : strf::join_center(a.w, a.fill)(x.a...);
        default: if (a.fill != U' ') return apply(e.g, j, a); vh::event("default-fill"); return a.al == Al::left ? strf::join_left(a.w)(x.a...) : a.al == Al::right ? strf::join_right(a.w)(x.a...) : strf::join_center(a.w)(x.a...);
    } };
    return arg(mk(), r);
}
// judge x wherever an argument may be; it is used twice to see that printing does not consume it
template <typename Pk, typename X> static void judge_tree(Rng& g, const Pk& pk, const char* kind, Env& e, const X& x) {
    S got, ref = x.m.s; const char* place = "alone";
    bool fits = x.m.w <= Q(strf::width_max);
    switch (g.below(6)) {
        case 0: place = "twice"; got = print<C>(g, pk, x.a, (C)'|', x.a); ref = x.m.s + (C)'|' + x.m.s; break;
        case 1: place = "reserve_calc"; got = strf::to_basic_string<C>.with(pk).reserve_calc()(x.a); break;
        case 2: case 3: { place = "measured"; strf::width_t lim = g.coin() ? strf::width_max : strf::width_t::from_underlying((std::int32_t)std::max<q16>(0, std::min<q16>(x.m.w + g.range(-4, 4) * 0x8000, INT32_MAX)));
            strf::full_premeasurements pre(lim); strf::measure<C>(&pre, pk, x.a);
            if (pre.accumulated_ssize() < (std::ptrdiff_t)ref.size()) vh::violation("size", std::string(kind) + vh::fmt(": measured %td, prints %zu: ", pre.accumulated_ssize(), ref.size()) + vh::show(ref));
            q16 w = std::min<q16>(Q(lim), x.m.w);
            if (Q(pre.accumulated_width()) != w) vh::violation("width", std::string(kind) + vh::fmt(": measured width %lld/65536, is %lld/65536 (limit %d) ", (long long)Q(pre.accumulated_width()), (long long)x.m.w, lim.underlying_value()) + vh::show(ref) + " " + wid::wc_name(e.k));
            strf::premeasurements<strf::size_presence::no, strf::width_presence::yes> pw(lim); strf::measure<C>(&pw, pk, x.a);
            if (pw.accumulated_width() != pre.accumulated_width()) vh::violation("width-alone", kind);
            strf::premeasurements<strf::size_presence::yes, strf::width_presence::no> ps; strf::measure<C>(&ps, pk, x.a);
            if (ps.accumulated_ssize() < (std::ptrdiff_t)ref.size()) vh::violation("size-alone", std::string(kind) + vh::fmt(": measured %td, prints %zu: ", ps.accumulated_ssize(), ref.size()) + vh::show(ref));
            vh::event("measured"); return; }
        default: got = print<C>(g, pk, x.a); break;
    }
    vh::event(place); if (!fits) vh::event("wider-than-width_max");
    expect_eq(got, ref, kind, std::string(kind) + " " + place + " " + wid::wc_name(e.k) + " charset " + e.dc.name());
    vh::nontrivial(vh::hash_of(got, kind));
    if (vh::want_sample()) vh::sample(std::string(kind) + " " + place + " -> " + vh::show(got, 80));
}
template <int D> static auto chain(Env& e) { if constexpr (D == 0) { auto a = leaf<0>(e); return JA(e, a); } else { auto in = chain<D - 1>(e); auto b = leaf<1>(e); if constexpr (D % 2 != 0) return JA(e, in, b); else return JA(e, b, in); } }
template <int D, int L> static auto tree(Env& e) { if constexpr (D == 0) { auto x = leaf<L % 13>(e); auto y = leaf<(L + 5) % 13>(e); return JA(e, x, y); } else { auto x = tree<D - 1, L + 1>(e); auto y = tree<D - 1, L + 4>(e); if constexpr (L % 3 == 0) return J(e, x, y); else return JA(e, x, y); } }
template <int... L> static auto flat(Env& e, std::integer_sequence<int, L...>) { std::tuple<decltype(leaf<L>(e))...> t{ leaf<L>(e)... }; return std::apply([&](const auto&... x) { return JA(e, x...); }, t); }
template <typename F> static void in_env(Rng& g, F&& f) {
    with_charset<C>(g, [&](const auto& cs, DestCs dc) {
        auto go = [&](const auto& wc, Wc k) { Env e(g, dc, k); f(strf::pack(cs, wc), e); };
#if PART == 1
        go(wid::frac_width_t{}, Wc::frac);
#elif PART == 2
        go(strf::std_width_calc, Wc::std);
#else
        if (g.coin()) go(strf::std_width_calc, Wc::std); else go(wid::frac_width_t{}, Wc::frac);
#endif
    });
}
#if PART == 0
static void chains(Rng& g) { in_env(g, [&](const auto& pk, Env& e) {
    switch (g.below(3)) { case 0: { auto x = chain<1>(e); judge_tree(g, pk, "chain-2", e, x); break; }
                          case 1: { auto x = chain<4>(e); judge_tree(g, pk, "chain-5", e, x); break; }
                          default: { auto x = chain<9>(e); judge_tree(g, pk, "chain-10", e, x); } }
}); }
#endif
static void trees(Rng& g) { in_env(g, [&](const auto& pk, Env& e) {
#if PART == 1
    if (g.coin()) { auto x = tree<2, 0>(e); judge_tree(g, pk, "tree-3", e, x); } else { auto x = tree<1, 7>(e); judge_tree(g, pk, "tree-2", e, x); }
#elif PART == 2
    if (g.coin()) { auto x = tree<1, 2>(e); judge_tree(g, pk, "tree-2b", e, x); } else { auto x = tree<2, 6>(e); judge_tree(g, pk, "tree-3b", e, x); }
#endif
}); }
#if PART == 3
static void flats(Rng& g) { in_env(g, [&](const auto& pk, Env& e) {
    if (g.chance(1, 3)) { auto x = JA(e); judge_tree(g, pk, "empty", e, x); }
    else if (g.coin()) { auto x = flat(e, std::integer_sequence<int, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12>{}); judge_tree(g, pk, "flat-13", e, x); }
    else { auto a = leaf<0>(e); auto x = JA(e, a); judge_tree(g, pk, "single", e, x); }
}); }
// contents that together are wider than width_max: the sum saturates, no fill, nothing is lost
static void huge(Rng& g) { with_charset<C>(g, [&](const auto& cs, DestCs dc) {
    Env e(g, dc, Wc::frac); auto pk = strf::pack(cs, wid::frac_width_t{});
    auto big = [&] { int n = 15000 + (int)g.below(18000); return arg(strf::multi((C)'m', n), M{ S((std::size_t)n, (C)'m'), wid::frac_w(U'm') * (q16)n }); };
    auto a = big(); auto b = big(); auto c = leaf<2>(e);
    M m = sum(a, b, c); AF f = rand_af(g); f.w = g.coin() ? strf::width_max : strf::width_t((std::int16_t)(32767 - g.below(30)));
    if (m.w < Q(f.w)) { f.w = strf::width_t::from_underlying((std::int32_t)std::min<q16>(Q(strf::width_max), m.w + 0x8000 * (q16)g.below(9))); }
    auto x = arg(strf::join(a.a, b.a, c.a).set_alignment_format(to_strf(f)), e.fill(m, f));
    judge_tree(g, pk, "huge", e, x);
    auto y = leaf<0>(e); auto z = JA(e, y, x); judge_tree(g, pk, "huge-nested", e, z);
}); }
// joins made by a function for each element of a range, and joins as arguments of tr-strings and lines
static void places(Rng& g) { in_env(g, [&](const auto& pk, Env& e) {
    std::vector<int> v; for (unsigned n = (unsigned)g.below(8); n; --n) v.push_back((int)g.range(-500, 500));
    AF a = rand_af(g), o = rand_af(g); a.w = strf::width_t((std::int16_t)g.below(12));
    q16 b1 = e.W(u32("[")), b2 = e.W(u32("]"));
    auto one = [&](int n) { M m = nm(std::to_string(n)); m.s = num("[") + m.s + num("]"); m.w += b1 + b2; return e.fill(m, a); };
    M all; for (int n : v) all = all + one(n);
    auto op = [&](int n) { return strf::join((C)'[', n, (C)']').set_alignment_format(to_strf(a)); };
    switch (g.below(3)) {
        case 0: { auto x = arg(strf::range(v, op), all); judge_tree(g, pk, "range-of-joins", e, x); break; }
        case 1: { tune(g, o, all.w); auto x = arg(strf::join(strf::range(v, op)).set_alignment_format(to_strf(o)), e.fill(all, o)); judge_tree(g, pk, "join-of-range-of-joins", e, x); break; }
        default: { u32s t = text_for(g, e.dc, g.below(9)); S s = e.dc.template encode<C>(t); auto l = leaf<5>(e); M m = M{ s, e.W(t) } + l.m; tune(g, o, m.w); M w = e.fill(m, o); auto j = strf::join(s, l.a).set_alignment_format(to_strf(o));
            TinyDst<C> d(g.next(), g.below(70)); S ref;
            if (g.coin()) { strf::to(d).with(pk).tr(num("{}-{0}"), j); ref = w.s + num("-") + w.s; } else { strf::to(d).with(pk).trline(num("a{1}b{}"), 1, j); ref = num("a") + w.s + num("b1\n"); }
            S got = d.finish(); expect_eq(got, ref, "join-in-tr", std::string("join in tr ") + wid::wc_name(e.k)); vh::event("in-tr"); vh::nontrivial(vh::hash_of(got)); }
    }
}); }
#endif
static void run() {
    std::string cn = cname<C>::v;
#if PART == 0
    vh::section(("chains-" + cn).c_str(), 20000, 1000000, [](Rng& g, std::uint64_t) { chains(g); });
#elif PART == 3
    vh::section(("flat-" + cn).c_str(), 20000, 1000000, [](Rng& g, std::uint64_t) { flats(g); });
    vh::section(("huge-" + cn).c_str(), 150, 3000, [](Rng& g, std::uint64_t) { huge(g); });
    vh::section(("places-" + cn).c_str(), 20000, 1000000, [](Rng& g, std::uint64_t) { places(g); });
#else
    vh::section(("trees-" + cn).c_str(), 20000, 1000000, [](Rng& g, std::uint64_t) { trees(g); });
#endif
}
VH_MAIN(run)
