// P17: tr-strings.
#include "flt.hpp"
#include "wid.hpp"
#include <deque>
using namespace gen;
using wid::Wc; using wid::q16;
#ifndef CH
#define CH char
#endif
using C = CH;
using S = std::basic_string<C>;
using V = std::basic_string_view<C>;
#ifndef PART
#define PART 0
#endif
#include "aln.hpp"
static S num(const std::string& s) { return ascii<C>(s); }
// --------------------------------------------------------------- the notifier
struct Note { S str; std::ptrdiff_t pos; strf::charset_id cs; };
struct Log { std::vector<Note> v; const C* at = nullptr; std::size_t len = 0; bool elsewhere = false; };
struct Notifier {
    using category = strf::tr_error_notifier_c;
    Log* log;
    explicit Notifier(Log* l) : log(l) {}
    template <typename Cs> void handle(const C* s, std::ptrdiff_t n, Cs cs, std::ptrdiff_t pos) const noexcept {
        if (log->at && (s != log->at || (std::size_t)n != log->len)) log->elsewhere = true;
        log->v.push_back({ S(s, (std::size_t)std::max<std::ptrdiff_t>(n, 0)), pos, cs.id() });
    }
};
// --------------------------------------------------------------- reference
struct A { S s; q16 w; };
struct Piece { bool lit; S s; long arg; std::size_t pos; };
// apart: literal text next to a comment or an escaped brace makes separate pieces
static std::vector<Piece> parse(const S& t, std::size_t nargs, bool apart = true) {
    std::vector<Piece> r; S lit; std::size_t i = 0, next = 0, n = t.size();
    auto flush = [&] { if (!lit.empty()) r.push_back({ true, lit, 0, 0 }); lit.clear(); };
    auto put = [&](std::size_t k, std::size_t p) { flush(); r.push_back({ false, S(), k < nargs ? (long)k : -1L, p }); };
    while (i < n) {
        if (t[i] != (C)'{') { lit += t[i++]; continue; }
        std::size_t p = i++;
        if (i == n) { put(next, p); break; }
        C c = t[i];
        if (c == (C)'{') { if (apart) flush(); lit += (C)'{'; ++i; continue; }
        if (c == (C)'}') { put(next++, p); ++i; continue; }
        if (c >= (C)'0' && c <= (C)'9') { std::size_t k = 0; while (i < n && t[i] >= (C)'0' && t[i] <= (C)'9') { k = std::min<std::size_t>(k * 10 + (std::size_t)(t[i] - (C)'0'), 1000000); ++i; } put(k, p); }
        else { if (c != (C)'-') put(next++, p); else if (apart) flush(); ++i; }
        while (i < n && t[i] != (C)'}') ++i;
        if (i == n) break;
        ++i;
    }
    flush();
    return r;
}
// --------------------------------------------------------------- templates
static S gen_tr(Rng& g, DestCs dc, bool plain) {
    static const char* const tok[] = { "{}", "{{", "{0}", "{1}", "{2}", "{3}", "{-a note}", "{-}", "{name}", "{", "}", "{ }", "{-", "{x", "{{}", "{{{", "{{{}", "{0x}", "{1 {2}", "{00}", "{01}", "{10}", "{4294967296}", "{18446744073709551616}",
        "{99999999999999999999999999999999999999}", "{2147483648", "{-{}", "{{{{", "}}", "{?}", "{:}", "{/}", "{9}", "{4}", "{5}", "{[]}", "{-{-}}", "{a{b}c}" };
    S t; for (unsigned n = (unsigned)g.below(g.chance(1, 10) ? 40 : 7); n; --n) {
        if (g.chance(3, 5)) { if (plain) { static const char* const p[] = { "{}", "{0}", "{1}", "{2}", "{{", "{a}", "{-}" }; t += num(g.pick(p)); } else t += num(g.pick(tok)); }
        if (g.coin()) { u32s x = text_for(g, dc, g.below(g.chance(1, 6) ? 90 : 8)); t += dc.template encode<C>(x); }
        if (!plain && g.chance(1, 30)) t += (C)g.next(); // any unit at all
    }
    return t;
}
// the template as the library gets it, in memory that has nothing behind it
struct Tmpl { S s; C* p; bool z; Tmpl(const S& t, bool zero) : s(t), p(new C[t.size() + zero]), z(zero) { std::copy(t.begin(), t.end(), p); if (zero) p[t.size()] = C(); } ~Tmpl() { delete[] p; } Tmpl(const Tmpl&) = delete; V view() const { return V(p, s.size()); } };
// --------------------------------------------------------------- arguments
struct Env { Rng& g; DestCs dc; Wc k; std::deque<S> strs; std::vector<int> vec;
    Env(Rng& g_, DestCs d, Wc k_) : g(g_), dc(d), k(k_) {}
    const S& keep(S s) { strs.push_back(std::move(s)); return strs.back(); }
    q16 W(const u32s& t) const { return wid::width_of<char32_t>(k, t); } };
template <typename X> struct Arg { X a; A m; };
template <typename X> static Arg<X> arg(X a, A m) { return { std::move(a), std::move(m) }; }
static A nm(const std::string& s) { return { num(s), (q16)s.size() * 0x10000 }; }
static A filled(const A& m, const AF& a, DestCs dc) { int n = Q(a.w) > m.w ? round_q(Q(a.w) - m.w) : 0; return { expected(m.s, m.w, a, dc), m.w + (q16)(n > 0 ? n : 0) * 0x10000 }; }
template <int L> static auto leaf(Env& e) {
    Rng& g = e.g;
    if constexpr (L == 0) { u32s t = text_for(g, e.dc, g.below(14)); const S& s = e.keep(e.dc.template encode<C>(t)); return arg(V(s), A{ s, e.W(t) }); }
    else if constexpr (L == 1) { int n = gen_int<int>(g); return arg(n, nm(std::to_string(n))); }
    else if constexpr (L == 2) { u32s t = text_for(g, e.dc, g.below(10)); const S& s = e.keep(e.dc.template encode<C>(t)); A m{ s, e.W(t) }; AF a = rand_af(g); tune(g, a, m.w); return arg(strf::fmt(V(s)).set_alignment_format(to_strf(a)), filled(m, a, e.dc)); }
    else if constexpr (L == 3) { int n = (int)g.range(-99, 99); A m = nm(std::to_string(n) + "7"); AF a = rand_af(g); tune(g, a, m.w); return arg(strf::join(n, 7).set_alignment_format(to_strf(a)), filled(m, a, e.dc)); }
    else { bool b = g.coin(); return arg(b, nm(b ? "true" : "false")); }
}
struct Want { S s; q16 w = 0; std::vector<std::size_t> missing; bool measurable = true; };
static Want want(const Env& e, const S& t, const std::vector<A>& args) {
    Want r;
    for (auto& p : parse(t, args.size())) {
        if (p.lit) { r.s += p.s; }
        else if (p.arg >= 0) { r.s += args[(std::size_t)p.arg].s; }
        else { r.s += e.dc.id == Cs::utf ? enc1<C>(0xFFFD) : S(1, (C)'?'); r.missing.push_back(p.pos); }
    }
    return r;
}
// width: texts between the braces are measured on their own
template <typename Cs> static q16 width_of(const Env& e, const Cs& cs, const S& t, const std::vector<A>& args, bool apart = true) {
    q16 w = 0;
    for (auto& p : parse(t, args.size(), apart)) {
        if (!p.lit) { w += p.arg >= 0 ? args[(std::size_t)p.arg].w : 0x10000; continue; }
        u32s u; const C* b = p.s.data(), *n = b + p.s.size();
        while (b != n) { char32_t c[1]; auto r = cs.to_u32().transcode(b, n, c, c + 1, nullptr, strf::transcode_flags::none); u += c[0]; b = r.src_ptr; }
        w += e.W(u);
    }
    return w;
}
static void check_notes(const Log& log, const Want& w, const S& t, strf::charset_id id, const std::string& what, unsigned times = 1) {
    if (log.v.size() != w.missing.size() * times) { vh::violation("notifications", what + vh::fmt(" template %s: %zu notifications, %zu missing arguments x %u", vh::show(t).c_str(), log.v.size(), w.missing.size(), times)); return; }
    for (std::size_t i = 0; i < log.v.size(); ++i) {
        auto pos = w.missing[i % w.missing.size()];
        if (log.v[i].pos != (std::ptrdiff_t)pos || log.v[i].str != t || log.v[i].cs != id) { vh::violation("notification", what + vh::fmt(" template %s: notification %zu says position %td (expected %zu) in %s, charset %u (%u)", vh::show(t).c_str(), i, log.v[i].pos, pos, vh::show(log.v[i].str).c_str(), (unsigned)log.v[i].cs, (unsigned)id)); return; }
    }
    if (log.elsewhere) vh::violation("notification-other-template", what + " notified about a string that is not the template, " + vh::show(t));
    vh::event("missing-arguments", w.missing.size());
}
struct Announce { using char_type = C; using destination_type = strf::basic_string_maker<C>; using sized_destination_type = strf::basic_sized_string_maker<C>; std::size_t* n;
    destination_type create() const { return destination_type(); }
    sized_destination_type create(std::size_t s) const { *n = s; return sized_destination_type(s); } };
// all places a tr-string may be in ----------------------------------------------------
template <typename Pk, typename Cs, typename... X> static void judge(Rng& g, Env& e, const Pk& pk0, const Cs& cs, const X&... x) {
    std::vector<A> args{ x.m... };
    bool measuring = g.chance(1, 3);
    S t = gen_tr(g, e.dc, measuring);
    Log log; auto id = cs.id();
    Notifier notifier(&log); auto pk = strf::pack(pk0, notifier);
    S got; const char* place = ""; unsigned times = 1;
    if (measuring) {
        Tmpl T(t, false); log.at = T.p; log.len = t.size();
        Want w = want(e, t, args); q16 ww = width_of(e, cs, t, args);
        if (ww != width_of(e, cs, t, args, false)) { vh::event("cluster-over-a-brace"); return; } // whether a cluster goes on behind a comment is nobody's business
        strf::width_t lim = g.coin() ? strf::width_max : strf::width_t::from_underlying((std::int32_t)std::max<q16>(0, std::min<q16>(ww + g.range(-4, 4) * 0x8000, INT32_MAX)));
        switch (g.below(3)) {
            case 0: { strf::full_premeasurements pre(lim); strf::measure<C>(&pre, pk, strf::tr(T.view(), x.a...));
                if (pre.accumulated_ssize() != (std::ptrdiff_t)w.s.size() && pre.accumulated_ssize() < (std::ptrdiff_t)w.s.size()) vh::violation("size", vh::fmt("template %s: measured size %td, prints %zu", vh::show(t).c_str(), pre.accumulated_ssize(), w.s.size()));
                if (Q(pre.accumulated_width()) != std::min<q16>(Q(lim), ww)) vh::violation("width", vh::fmt("template %s: measured width %lld/65536, is %lld/65536, limit %lld", vh::show(t).c_str(), (long long)Q(pre.accumulated_width()), (long long)ww, (long long)Q(lim))); break; }
            case 1: { strf::premeasurements<strf::size_presence::no, strf::width_presence::yes> pre(lim); strf::measure<C>(&pre, pk, strf::tr(T.view(), x.a...));
                if (Q(pre.accumulated_width()) != std::min<q16>(Q(lim), ww)) vh::violation("width", vh::fmt("template %s: measured width alone %lld/65536, is %lld/65536, limit %lld", vh::show(t).c_str(), (long long)Q(pre.accumulated_width()), (long long)ww, (long long)Q(lim))); break; }
            default: { strf::premeasurements<strf::size_presence::yes, strf::width_presence::no> pre; strf::measure<C>(&pre, pk, strf::tr(T.view(), x.a...));
                if (pre.accumulated_ssize() < (std::ptrdiff_t)w.s.size()) vh::violation("size", vh::fmt("template %s: measured size alone %td, prints %zu", vh::show(t).c_str(), pre.accumulated_ssize(), w.s.size())); }
        }
        if (!log.v.empty()) vh::violation("notified-while-measuring", vh::show(t));
        AF a = rand_af(g); tune(g, a, ww);
        if (ww <= Q(strf::width_max)) { got = print<C>(g, pk, strf::join(strf::tr(T.view(), x.a...)).set_alignment_format(to_strf(a))); expect_eq(got, expected(w.s, ww, a, e.dc), "aligned", "join of template " + vh::show(t) + " " + af_desc(a) + " " + wid::wc_name(e.k)); check_notes(log, w, t, id, "aligned join"); }
        vh::event("measured"); vh::nontrivial(vh::hash_of(t, got)); return;
    }
    switch (g.below(7)) {
        case 0: { place = "tr()"; Tmpl T(t, false); log.at = T.p; log.len = t.size(); TinyDst<C> d(g.next(), g.below(70)); strf::to(d).with(pk).tr(T.view(), x.a...); got = d.finish(); break; }
        case 1: { place = "tr(const CharT*)"; t = t.substr(0, t.find(C())); Tmpl T(t, true); log.at = T.p; log.len = t.size(); TinyDst<C> d(g.next(), g.below(70)); strf::to(d).with(pk).tr((const C*)T.p, x.a...); got = d.finish(); break; }
        case 2: { place = "trline(std::string)"; log.at = t.data(); log.len = t.size(); TinyDst<C> d(g.next(), g.below(70)); strf::to(d).with(pk).trline(t, x.a...); got = d.finish(); if (got.empty() || got.back() != (C)'\n') vh::violation("no-newline", vh::show(t)); else got.pop_back(); break; }
        case 3: { place = "reserve_calc"; Tmpl T(t, false); std::size_t n = 0; got = strf::printing_syntax<Announce>(Announce{ &n }).with(pk).reserve_calc().tr(T.view(), x.a...);
            if (n < got.size()) vh::violation("size", vh::fmt("template %s: reserve_calc announced %zu, printed %zu", vh::show(t).c_str(), n, got.size())); break; }
        case 4: { place = "argument"; Tmpl T(t, false); log.at = T.p; log.len = t.size(); S r = print<C>(g, pk, (C)'<', strf::tr(T.view(), x.a...), (C)'>', strf::tr(T.view(), x.a...)); times = 2;
            std::size_t h = (r.size() - std::min<std::size_t>(2, r.size())) / 2; if (r.size() < 2 || r[0] != (C)'<' || r[h + 1] != (C)'>' || r.substr(1, h) != r.substr(h + 2)) vh::violation("argument", "tr-string as argument, twice: " + vh::show(r) + " template " + vh::show(t)); got = r.substr(std::min<std::size_t>(1, r.size()), h); break; }
        case 5: { place = "argument with reserve_calc, inner facets"; Tmpl T(t, false); got = strf::to_basic_string<C>.with(notifier, cs).reserve_calc()(strf::with(strf::get_facet<strf::width_calculator_c, C>(pk0))(strf::tr(T.view(), x.a...))); break; }
        default: { place = "range of tr-strings"; Tmpl T(t, false); log.at = T.p; log.len = t.size(); int one[3] = { 1, 2, 3 }; S r = print<C>(g, pk, strf::range(one, [&](int) { return strf::tr(T.view(), x.a...); })); times = 3;
            std::size_t h = r.size() / 3; if (r.size() != h * 3 || r.substr(0, h) != r.substr(h, h) || r.substr(0, h) != r.substr(2 * h)) vh::violation("range", "tr-string for each element of a range: " + vh::show(r) + " template " + vh::show(t)); got = r.substr(0, h); break; }
    }
    Want w = want(e, t, args);
    vh::event(place);
    if (t.find((C)'{') != S::npos) vh::event("with-braces");
    expect_eq(got, w.s, "text", std::string(place) + vh::fmt(" template %s with %zu arguments", vh::show(t).c_str(), args.size()));
    check_notes(log, w, t, id, place, times);
    vh::nontrivial(vh::hash_of(t, got));
    if (vh::want_sample()) vh::sample(std::string(place) + " " + vh::show(t, 60) + " -> " + vh::show(got, 80));
}
template <typename F> static void in_env(Rng& g, F&& f) {
    with_charset<C>(g, [&](const auto& cs, DestCs dc) {
        auto go = [&](const auto& wc, Wc k) { Env e(g, dc, k); f(strf::pack(cs, wc), e, cs); };
#if PART == 0
        go(strf::std_width_calc, Wc::std);
#else
        go(wid::frac_width_t{}, Wc::frac);
#endif
    });
}
static void trs(Rng& g) { in_env(g, [&](const auto& pk, Env& e, const auto& cs) {
    switch (g.below(PART == 0 ? 3 : 4)) {
#if PART == 0
        case 0: judge(g, e, pk, cs, leaf<0>(e)); break;
        case 1: judge(g, e, pk, cs, leaf<0>(e), leaf<1>(e), leaf<2>(e)); break;
        default: judge(g, e, pk, cs, leaf<3>(e), leaf<1>(e), leaf<4>(e), leaf<0>(e), leaf<2>(e)); break;
#else
        case 0: if constexpr (true) judge(g, e, pk, cs, leaf<2>(e), leaf<1>(e)); break;
        case 1: { // a tr-string as argument of a tr-string
            S in = gen_tr(g, e.dc, true); const S& k = e.keep(in); auto l = leaf<0>(e); auto n = leaf<1>(e);
            for (auto& p : parse(k, 2)) if (!p.lit && p.arg < 0) return; // missing arguments in the inner one are seen elsewhere
            Want w = want(e, k, { l.m, n.m }); q16 ww = width_of(e, cs, k, { l.m, n.m }); if (ww != width_of(e, cs, k, { l.m, n.m }, false)) return;
            vh::event("tr-in-tr"); judge(g, e, pk, cs, leaf<1>(e), arg(strf::tr(V(k), l.a, n.a), A{ w.s, ww })); break; }
        case 2: judge(g, e, pk, cs, leaf<1>(e), leaf<0>(e), leaf<2>(e), leaf<3>(e), leaf<4>(e), leaf<0>(e), leaf<1>(e), leaf<1>(e), leaf<1>(e), leaf<1>(e), leaf<0>(e), leaf<4>(e)); break;
        default: vh::event("no-arguments"); judge(g, e, pk, cs); break;
#endif
    }
}); }
static void run() {
    std::string cn = cname<C>::v;
    vh::section(("tr-" + cn).c_str(), 40000, 3000000, [](Rng& g, std::uint64_t) { trs(g); });
}
VH_MAIN(run)
