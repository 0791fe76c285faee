// P30: types made printable, and printable types overridden, by the user's code.
#include "gen.hpp"
#include <complex>
using namespace gen;
using q16 = std::int64_t;
#ifndef CH
#define CH char
#endif
using C = CH;
using S = std::basic_string<C>;
#ifndef PART
#define PART 0
#endif
namespace wid { inline u32s gen_wtext(Rng& g, std::size_t n) { return gen_text(g, n); } enum { TooNew = -1 }; inline int gcb(char32_t) { return 0; } }
#include "aln.hpp"

static S num(const std::string& s) { return ascii<C>(s); }
struct M { S s; q16 w = 0; };       // expected text and width
static M text(const std::string& t) { return { num(t), (q16)t.size() * 0x10000 }; }
static M operator+(M a, const M& b) { a.s += b.s; a.w += b.w; return a; }
// the full-width letter x: two columns wide, also where it is replaced by '?' (the width is that of the code point)
static constexpr char32_t WX = 0xFF58;
#if defined(FASTW)
static constexpr strf::fast_width_t wcalc{}; static constexpr q16 wide_w = 0x10000;
#else
static constexpr strf::std_width_calc_t wcalc{}; static constexpr q16 wide_w = 0x20000;
#endif
// the facets in force, besides the charset, which the definitions hand on to what they print
struct Env {
    DestCs dc; int grp; char sep; strf::lettercase lc;
    static const strf::lettercase* cases() { static const strf::lettercase c[] = { strf::lowercase, strf::mixedcase, strf::uppercase }; return c; }
    Env(Rng& g, DestCs d) : dc(d), grp((int)g.range(1, 4)), sep(g.coin() ? ',' : '\''), lc(cases()[g.below(3)]) { if (g.chance(1, 4)) grp = 20; }
    template <typename... F> auto pack(const F&... f) const { return strf::pack(wcalc, f..., strf::numpunct<10>(grp).thousands_sep((char32_t)sep), lc); }
    std::string dec(long long v) const { std::string d = std::to_string(v), r; std::size_t neg = d[0] == '-'; for (std::size_t i = 0; i < d.size(); ++i) { if (i > neg && (d.size() - i) % (std::size_t)grp == 0) r += sep; r += d[i]; } return r; }
    std::string hex(unsigned v) const { char b[32]; snprintf(b, sizeof b, lc == strf::lowercase ? "%x" : "%X", v); return (lc == strf::uppercase ? "0X" : "0x") + std::string(b); }
};
static M wide(const Env& e) { return { e.dc.raw<C>(WX), wide_w }; }
static M fill(const Env& e, const M& m, const AF& a) { int n = Q(a.w) > m.w ? round_q(Q(a.w) - m.w) : 0; return { expected(m.s, m.w, a, e.dc), m.w + (q16)n * 0x10000 }; }
static AF some_af(Rng& g) { AF a = gen_af(g, 40); if (g.chance(1, 3)) a.w = 0; return a; }

// ------------------------------------------------------------------ what is checked of each print call
template <bool Meas, typename Pack, typename... A>
static void check(Rng& g, const Env& e, const char* kind, const Pack& pk, const M& m, const A&... a) {
    const std::string what = std::string(kind) + " charset " + e.dc.name();
    auto eq = [&](const S& got, const S& want, const char* how) { vh::event(how); if (got != want) vh::violation(std::string(kind) + ":" + how, what + " " + how + " printed " + vh::show(got) + " expected " + vh::show(want)); };
    eq(print<C>(g, pk, a...), m.s, "direct");
    { auto x = strf::to_basic_string<C>.with(pk); switch (g.below(3)) { case 0: eq(x.no_reserve()(a...), m.s, "no_reserve"); break; case 1: eq(x.reserve(g.below(300))(a...), m.s, "reserve"); break; default: eq(x.line(a...), m.s + num("\n"), "line"); } }
    S tmpl, pieces; for (std::size_t i = 0; i < sizeof...(a); ++i) tmpl += num("{}");
    { TinyDst<C> d(g.next(), g.below(70)); if (g.coin()) { strf::to(d).with(pk).tr(tmpl, a...); eq(d.finish(), m.s, "tr"); } else { strf::to(d).with(pk).trline(num("a") + tmpl + num("b"), a...); eq(d.finish(), num("a") + m.s + num("b\n"), "tr"); } }
    { TinyDst<C> d(g.next(), g.below(70)); strf::to(d).with(pk)(strf::join(a...), (C)'.', strf::join((C)'<', strf::join(a...))); eq(d.finish(), m.s + num(".<") + m.s, "in-join"); }
    if constexpr (Meas) {
        auto x = strf::to_basic_string<C>.with(pk).reserve_calc();
        eq(x(a...), m.s, "reserve_calc");
        if (g.coin()) eq(x.tr(tmpl, a...), m.s, "tr-reserve_calc");
        strf::full_premeasurements pre; strf::measure<C>(&pre, pk, a...);
        if ((std::size_t)pre.accumulated_ssize() < m.s.size()) vh::violation(std::string(kind) + ":size", what + vh::fmt(" measures size %td, prints %zu", pre.accumulated_ssize(), m.s.size()));
        if (Q(pre.accumulated_width()) != m.w) vh::violation(std::string(kind) + ":width", what + vh::fmt(" measures width %d/65536, expected %lld: ", pre.accumulated_width().underlying_value(), (long long)m.w) + vh::show(m.s));
        { // a printer must not recycle when there is room for the announced size
            std::size_t n = (std::size_t)pre.accumulated_ssize(); TinyDst<C> d(1, n); strf::to(d).with(pk)(a...);
            if (d.recycles) vh::violation(std::string(kind) + ":recycles", what + vh::fmt(" recycles though it has the %zu units it announced", n)); }
        AF al = some_af(g); tune(g, al, m.w);
        { TinyDst<C> d(g.next(), g.below(70)); strf::to(d).with(pk)(strf::join(a...).set_alignment_format(to_strf(al))); eq(d.finish(), fill(e, m, al).s, "in-aligned-join"); }
        { TinyDst<C> d(g.next(), g.below(70)); strf::to(d).with(pk)(strf::tr(tmpl + num("/{0}"), strf::join(a...), strf::join(a...), strf::join(a...))); if (sizeof...(a) == 1) eq(d.finish(), m.s + num("/") + m.s, "strf::tr"); }
        vh::event("measured");
    }
    vh::nontrivial(vh::hash_of(m.s, kind));
    if (vh::want_sample()) vh::sample(std::string(kind) + " -> " + vh::show(m.s, 60));
}
// the elements of a range
template <bool Meas, typename Pack, typename T, typename F>
static void check_range(Rng& g, const Env& e, const char* kind, const Pack& pk, const T* first, std::size_t n, const M& sep, F&& each) {
    M plain, withsep; for (std::size_t i = 0; i < n; ++i) { M x = each(i); plain = plain + x; withsep = (i ? withsep + sep : M{}) + x; }
    const S& s = sep.s; std::string k = std::string(kind) + ":range";
    check<Meas>(g, e, k.c_str(), pk, plain, strf::range(first, first + n));
    check<Meas>(g, e, k.c_str(), pk, withsep, strf::separated_range(first, first + n, s.c_str()));
    vh::event("ranges");
}
static M a_sep(Rng& g) { static const char* const p[] = { "", ",", ", ", "--------------------------------------------------------------------------------" }; return text(g.pick(p)); }

// integer format used by some of the definitions below
struct IntF { int v; unsigned kind; AF a; };
static std::string int_text(const Env& e, int v, unsigned k) { char b[64]; switch (k) { case 1: snprintf(b, sizeof b, "%+d", v); break; case 2: return e.hex((unsigned)v); case 3: snprintf(b, sizeof b, "%.12d", v); break; case 4: return e.dec(v); default: snprintf(b, sizeof b, "%d", v); } return b; }
template <typename V, typename F> static void with_int_fmt(unsigned k, V&& x, F&& f) { switch (k) { case 1: f(+strf::fmt(x)); break; case 2: f(*strf::hex(x)); break; case 3: f(strf::fmt(x).p(12)); break; case 4: f(!strf::fmt(x)); break; default: f(strf::fmt(x)); } }

#if PART == 0
// ---- make_printer for the value only; no format specifiers
struct A { int x; };
// ---- make_printer for values and for formatted values, alignment and integer format
struct B { int x; };
// ---- print only, value only
struct D { int x; };
namespace strf {
template <> struct printable_def<A> { using forwarded_type = A;
    template <class Ch, class P, class F> static auto make_printer(strf::tag<Ch>, P* pre, const F& f, A a) { return strf::make_printer<Ch>(pre, f, strf::join((Ch)'<', !strf::dec(a.x), (Ch)'>')); } };
template <> struct printable_def<B> { using forwarded_type = B; using representative = B; using format_specifiers = strf::tag<strf::int_format_specifier, strf::alignment_format_specifier>;
    template <class Ch, class P, class F> static auto make_printer(strf::tag<Ch>, P* pre, const F& f, B a) { return strf::make_printer<Ch>(pre, f, strf::join(a.x, WX, !strf::dec(a.x))); }
    template <class Ch, class P, class F, class... T> static auto make_printer(strf::tag<Ch>, P* pre, const F& f, strf::value_and_format<printable_def<B>, T...> a) {
        return strf::make_printer<Ch>(pre, f, strf::join(strf::fmt(a.value().x).set_int_format(a.get_int_format()), WX, !strf::dec(a.value().x)).set_alignment_format(a.get_alignment_format())); } };
template <> struct printable_def<D> { using forwarded_type = D; using representative = D;
    template <class Ch, class F> static void print(strf::destination<Ch>& d, const F& f, D a) { strf::to(d).with(f)((Ch)'{', !strf::dec(a.x), (Ch)'}'); } };
}
static M mA(const Env& e, const A& a) { return text("<" + e.dec(a.x) + ">"); }
static M mB(const Env& e, int x, unsigned k) { return text(int_text(e, x, k)) + wide(e) + text(e.dec(x)); }
static M mD(const Env& e, const D& a) { return text("{" + e.dec(a.x) + "}"); }
static void one(Rng& g) { with_charset<C>(g, [&](const auto& cs, DestCs dc) {
    Env e(g, dc); auto pk = e.pack(cs); int x = gen_int<int>(g), y = gen_int<int>(g);
    A a{ x }; B b{ y }; D d{ x };
    switch (g.below(9)) {
        case 0: check<true>(g, e, "A", pk, mA(e, a), a); break;
        case 1: check<true>(g, e, "fmt(A)", pk, mA(e, a), strf::fmt(a)); break;
        case 2: { unsigned k = (unsigned)g.below(5); AF al = some_af(g); M m = mB(e, y, k); tune(g, al, m.w); if (al.w < 1) al.w = 1;
            if (g.coin()) with_int_fmt(k, b, [&](auto v) { check<true>(g, e, "fmt(B)", pk, m, v); }); else with_int_fmt(k, b, [&](auto v) { check<true>(g, e, "aligned B", pk, fill(e, m, al), std::move(v).set_alignment_format(to_strf(al))); }); break; }
        case 3: check<true>(g, e, "B", pk, mB(e, y, 0), b); break;
        case 4: check<false>(g, e, "D", pk, mD(e, d), d); break;
        case 5: check<false>(g, e, "fmt(D)", pk, mD(e, d), strf::fmt(d)); break;
        case 6: { A v[5]; for (auto& q : v) q.x = (int)g.next() >> g.below(32); check_range<true>(g, e, "A", pk, v, g.below(6), a_sep(g), [&](std::size_t i) { return mA(e, v[i]); }); break; }
        case 7: { B v[5]; for (auto& q : v) q.x = (int)g.next() >> g.below(32); check_range<true>(g, e, "B", pk, v, g.below(6), a_sep(g), [&](std::size_t i) { return mB(e, v[i].x, 0); }); 
            // formatted and transformed
            std::size_t n = g.below(6); M f, t; for (std::size_t i = 0; i < n; ++i) { f = f + mB(e, v[i].x, 1); t = t + mA(e, A{ v[i].x }) + mB(e, v[i].x, 2); }
            check<true>(g, e, "fmt_range(B)", pk, f, +strf::fmt_range(v, v + n));
            check<true>(g, e, "range(B, op)", pk, t, strf::range(v, v + n, [](B q) { return strf::join(A{ q.x }, *strf::hex(q)); })); break; }
        default: { D v[5]; for (auto& q : v) q.x = (int)g.next() >> g.below(32); check_range<false>(g, e, "D", pk, v, g.below(6), a_sep(g), [&](std::size_t i) { return mD(e, v[i]); });
            check<false>(g, e, "A,D,B", pk, mA(e, a) + mD(e, d) + mB(e, y, 0), a, d, b); break; }
    }
}); }
#endif

#if PART == 1
// ---- print only, with formatting
struct D2 { int x; };
// ---- not copyable, forwarded as a reference; the printer is a lambda and measures by itself
struct E { int x; S pad; E(int v, S p) : x(v), pad(std::move(p)) {} E(const E&) = delete; };
// ---- abstract class, forwarded as a reference_wrapper; found for derived classes
namespace user {
struct W { virtual ~W() = default; virtual const std::string& say() const = 0; };
struct W1 : W { std::string t; explicit W1(int v) : t("one" + std::to_string(v)) {} const std::string& say() const override { return t; } };
struct W2 : W1 { std::string u; explicit W2(int v) : W1(v), u("two" + std::to_string(v)) {} const std::string& say() const override { return u; } };
// ---- found through an implicit conversion
struct Inner { int x; };
struct Conv { int x; operator Inner() const { return { x ^ 1 }; } };
// ---- both print and make_printer: the same text by either way
struct Both { int x; };
}
namespace strf {
template <> struct printable_def<D2> { using forwarded_type = D2; using format_specifiers = strf::tag<strf::alignment_format_specifier, strf::int_format_specifier>;
    template <class Ch, class F> static void print(strf::destination<Ch>& d, const F& f, D2 a) { strf::to(d).with(f)(WX, a.x, (Ch)'/', !strf::dec(a.x)); }
    template <class Ch, class F, class... T> static void print(strf::destination<Ch>& d, const F& f, const strf::value_and_format<printable_def<D2>, T...>& a) {
        strf::to(d).with(f)(strf::join(WX, strf::fmt(a.value().x).set_int_format(a.get_int_format()), (Ch)'/', !strf::dec(a.value().x)).set_alignment_format(a.get_alignment_format())); } };
template <> struct printable_def<E> { using forwarded_type = const E&; using format_specifiers = strf::tag<strf::alignment_format_specifier>;
    template <class Ch, class P, class F> static auto make_printer(strf::tag<Ch>, P* pre, const F& f, const E& a) {
        pre->add_width(2); pre->add_size(2);
        auto w = strf::make_printer<Ch>(pre, f, !strf::dec(a.x)); auto p = strf::make_printer<Ch>(pre, f, a.pad);
        return [w, p](strf::destination<Ch>& d) { strf::to(d)((Ch)'('); w(d); strf::to(d)((Ch)')'); p(d); }; }
    template <class Ch, class P, class F> static auto make_printer(strf::tag<Ch> t, P* pre, const F& f, const strf::value_and_format<printable_def<E>, strf::alignment_format_specifier_q<false>>& a) { return make_printer(t, pre, f, a.value()); }
    template <class Ch, class P, class F> static auto make_printer(strf::tag<Ch>, P* pre, const F& f, const strf::value_and_format<printable_def<E>, strf::alignment_format_specifier_q<true>>& a) {
        return strf::make_printer<Ch>(pre, f, strf::join(a.clear_alignment_format()).set_alignment_format(a.get_alignment_format())); } };
template <> struct printable_def<user::W> { using forwarded_type = std::reference_wrapper<const user::W>; using representative = user::W; using format_specifiers = strf::tag<strf::alignment_format_specifier>;
    template <class Ch, class P, class F> static auto make_printer(strf::tag<Ch>, P* pre, const F& f, const user::W& a) { return strf::make_printer<Ch>(pre, f, strf::unsafe_transcode(a.say())); }
    template <class Ch, class P, class F, class... T> static auto make_printer(strf::tag<Ch>, P* pre, const F& f, const strf::value_and_format<printable_def<user::W>, T...>& a) { return strf::make_printer<Ch>(pre, f, strf::unsafe_transcode(a.value().get().say()).set_alignment_format(a.get_alignment_format())); } };
strf::printable_def<user::W> get_printable_def(strf::printable_tag, const user::W&);
template <> struct printable_def<user::Inner> { using forwarded_type = user::Inner; using format_specifiers = strf::tag<strf::alignment_format_specifier>;
    template <class Ch, class P, class F> static auto make_printer(strf::tag<Ch>, P* pre, const F& f, user::Inner a) { return strf::make_printer<Ch>(pre, f, strf::join((Ch)'i', !strf::dec(a.x))); }
    template <class Ch, class P, class F, class... T> static auto make_printer(strf::tag<Ch>, P* pre, const F& f, const strf::value_and_format<printable_def<user::Inner>, T...>& a) { return strf::make_printer<Ch>(pre, f, strf::join((Ch)'i', !strf::dec(a.value().x)).set_alignment_format(a.get_alignment_format())); } };
strf::printable_def<user::Inner> get_printable_def(strf::printable_tag, user::Inner);
template <> struct printable_def<user::Both> { using forwarded_type = user::Both; using format_specifiers = strf::tag<strf::alignment_format_specifier>;
    template <class Ch, class F, class A> static void print(strf::destination<Ch>& d, const F& f, const A& a) { strf::no_premeasurements pre; make_printer(strf::tag<Ch>(), &pre, f, a)(d); }
    template <class Ch, class P, class F> static auto make_printer(strf::tag<Ch>, P* pre, const F& f, user::Both a) { return strf::make_printer<Ch>(pre, f, strf::join((Ch)'b', !strf::dec(a.x))); }
    template <class Ch, class P, class F, class... T> static auto make_printer(strf::tag<Ch>, P* pre, const F& f, const strf::value_and_format<printable_def<user::Both>, T...>& a) { return strf::make_printer<Ch>(pre, f, strf::join((Ch)'b', !strf::dec(a.value().x)).set_alignment_format(a.get_alignment_format())); } };
}
static_assert(std::is_same<strf::printable_def_of<user::W2>, strf::printable_def<user::W>>::value && std::is_same<strf::representative_of_printable<const user::W1&>, user::W>::value, "");
static_assert(std::is_same<strf::forwarded_printable_type<user::Conv>, user::Inner>::value && !strf::is_printable_and_overridable_v<E>, "");
static M mD2(const Env& e, int x, unsigned k) { return wide(e) + text(int_text(e, x, k) + "/" + e.dec(x)); }
static void one(Rng& g) { with_charset<C>(g, [&](const auto& cs, DestCs dc) {
    Env e(g, dc); auto pk = e.pack(cs); int x = gen_int<int>(g); std::string xs = e.dec(x);
    AF al = some_af(g);
    switch (g.below(11)) {
        case 0: { D2 d{ x }; check<false>(g, e, "D2", pk, mD2(e, x, 0), d); unsigned k = (unsigned)g.below(5); M m = mD2(e, x, k);
            with_int_fmt(k, d, [&](auto v) { if (g.coin()) check<false>(g, e, "fmt(D2)", pk, m, v); else { tune(g, al, m.w); check<false>(g, e, "aligned D2", pk, fill(e, m, al), std::move(v).set_alignment_format(to_strf(al))); } }); break; }
        case 1: { D2 v[4]; for (auto& q : v) q.x = (int)g.next() >> g.below(32); std::size_t n = g.below(5); check_range<false>(g, e, "D2", pk, v, n, a_sep(g), [&](std::size_t i) { return mD2(e, v[i].x, 0); });
            M f; for (std::size_t i = 0; i < n; ++i) f = f + fill(e, mD2(e, v[i].x, 1), al);
            check<false>(g, e, "fmt_range(D2)", pk, f, (+strf::fmt_range(v, v + n)).set_alignment_format(to_strf(al))); break; }
        case 2: case 3: { E v(x, num(std::string(g.below(120), 'p'))); M m = text("(" + xs + ")") + M{ v.pad, (q16)v.pad.size() * 0x10000 };
            switch (g.below(3)) { case 0: check<true>(g, e, "E", pk, m, v); break; case 1: check<true>(g, e, "fmt(E)", pk, m, strf::fmt(v)); break; default: tune(g, al, m.w); check<true>(g, e, "aligned E", pk, fill(e, m, al), strf::fmt(v).set_alignment_format(to_strf(al))); } break; }
        case 4: { const E v[3] = { { 1, num("x") }, { x, num("yy") }, { x / 3, num("") } }; std::size_t n = g.below(4); check_range<true>(g, e, "E", pk, v, n, a_sep(g), [&](std::size_t i) { return text("(" + e.dec(v[i].x) + ")" + (i == 0 ? "x" : i == 1 ? "yy" : "")); });
            M f; for (std::size_t i = 0; i < n; ++i) f = f + fill(e, text("(" + e.dec(v[i].x) + ")" + (i == 0 ? "x" : i == 1 ? "yy" : "")), al);
            check<true>(g, e, "fmt_range(E)", pk, f, strf::fmt_range(v, v + n).set_alignment_format(to_strf(al))); break; }
        case 5: { user::W1 a(x); user::W2 b(x); const user::W& r = g.coin() ? (const user::W&)a : b; M m = text(r.say());
            switch (g.below(3)) { case 0: check<true>(g, e, "W", pk, m, r); break; case 1: check<true>(g, e, "fmt(W)", pk, m, strf::fmt(r)); break; default: tune(g, al, m.w); check<true>(g, e, "aligned W", pk, fill(e, m, al), strf::fmt(r).set_alignment_format(to_strf(al))); } break; }
        case 6: { user::W1 a(x); user::W2 b(x / 5 / 2); check<true>(g, e, "W1,W2", pk, text(a.say()) + text(b.say()), a, b);
            std::reference_wrapper<const user::W> v[4] = { a, b, b, a }; check_range<true>(g, e, "W", pk, v, g.below(5), a_sep(g), [&](std::size_t i) { return text(v[i].get().say()); }); break; }
        case 7: { user::Conv c{ x }; M m = text("i" + e.dec(x ^ 1));
            switch (g.below(3)) { case 0: check<true>(g, e, "Conv", pk, m, c); break; case 1: check<true>(g, e, "fmt(Conv)", pk, m, strf::fmt(c)); break; default: tune(g, al, m.w); check<true>(g, e, "aligned Conv", pk, fill(e, m, al), strf::fmt(c).set_alignment_format(to_strf(al))); } break; }
        case 8: { user::Conv v[4]; for (auto& q : v) q.x = (int)g.next() >> g.below(32); check_range<true>(g, e, "Conv", pk, v, g.below(5), a_sep(g), [&](std::size_t i) { return text("i" + e.dec(v[i].x ^ 1)); }); break; }
        default: { user::Both b{ x }; M m = text("b" + xs); switch (g.below(3)) { case 0: check<true>(g, e, "Both", pk, m, b); break; case 1: check<true>(g, e, "fmt(Both)", pk, m, strf::fmt(b)); break; default: tune(g, al, m.w); check<true>(g, e, "aligned Both", pk, fill(e, m, al), strf::fmt(b).set_alignment_format(to_strf(al))); } break; }
    }
}); }
#endif

#if PART == 2
// ---- a format specifier of the user's (quotes, kept through other format functions), and a facet category of the user's
enum class Style { plain, square, curly };
struct style_c { static constexpr bool constrainable = true; static constexpr Style get_default() noexcept { return Style::plain; } };
namespace strf { template <> struct facet_traits<Style> { using category = style_c; }; }
struct quote_format {
    template <class T> class fn {
        int n_ = 0; char32_t q_ = U'"';
    public:
        constexpr fn() noexcept = default;
        constexpr explicit fn(int n, char32_t q) noexcept : n_(n), q_(q) {}
        template <class U> constexpr explicit fn(const fn<U>& u) noexcept : n_(u.quotes()), q_(u.quote_char()) {}
        T&& quoted(int n) && { n_ = n; T* d = static_cast<T*>(this); return static_cast<T&&>(*d); }
        T& quoted(int n) & { n_ = n; return static_cast<T&>(*this); }
        T quoted(int n) const & { fn f(n, q_); return T{ static_cast<const T&>(*this), strf::tag<quote_format>{}, f }; }
        constexpr explicit fn(const fn& o, int) noexcept : fn(o) {}
        T&& quote_with(char32_t q) && { q_ = q; T* d = static_cast<T*>(this); return static_cast<T&&>(*d); }
        constexpr int quotes() const { return n_; }
        constexpr char32_t quote_char() const { return q_; }
    };
};
struct G { double d; int x; };
struct KTag {};
struct K { int x; };
namespace strf {
template <> struct printable_def<G> { using forwarded_type = G; using format_specifiers = strf::tag<strf::alignment_format_specifier, quote_format, strf::float_format_specifier>;
    template <class Ch, class P, class F> static auto make_printer(strf::tag<Ch>, P* pre, const F& f, G a) { return strf::make_printer<Ch>(pre, f, strf::join(a.d, (Ch)':', !strf::dec(a.x))); }
    template <class Ch, class P, class F, class... T> static auto make_printer(strf::tag<Ch>, P* pre, const F& f, const strf::value_and_format<printable_def<G>, T...>& a) {
        return strf::make_printer<Ch>(pre, f, strf::join(strf::multi(a.quote_char(), a.quotes()), strf::fmt(a.value().d).set_float_format(a.get_float_format()), (Ch)':', !strf::dec(a.value().x), strf::multi(a.quote_char(), a.quotes())).set_alignment_format(a.get_alignment_format())); } };
template <> struct printable_def<K> { using forwarded_type = K; using representative = KTag;
    template <class Ch, class P, class F> static auto make_printer(strf::tag<Ch>, P* pre, const F& f, K a) { auto s = strf::get_facet<style_c, KTag>(f); int n = s != Style::plain; Ch o = s == Style::square ? '[' : '{', c = s == Style::square ? ']' : '}';
        return strf::make_printer<Ch>(pre, f, strf::join(strf::multi(o, n), !strf::dec(a.x), strf::multi(c, n))); } };
}
static_assert(std::is_same<strf::representative_of_printable<K>, KTag>::value, "");
template <class T> using is_ktag = std::is_same<T, KTag>;
template <class T> using is_k = std::is_same<T, K>;
static M mG(const Env& e, const G& v, int nq, char32_t q, int how, int prec) { char b[64]; snprintf(b, sizeof b, how == 1 ? "%+.*f" : how == 2 ? "%.*f" : "%.0f", prec, v.d); if (how == 0) snprintf(b, sizeof b, "%.0f", v.d);
    M r; M qq{ e.dc.raw<C>(q), 0x10000 }; for (int i = 0; i < nq; ++i) r = r + qq; r = r + text(std::string(b) + ":" + e.dec(v.x)); for (int i = 0; i < nq; ++i) r = r + qq; return r; }
static M mK(const Env& e, Style s, int x) { std::string t = e.dec(x); return text(s == Style::plain ? t : s == Style::square ? "[" + t + "]" : "{" + t + "}"); }
static void one(Rng& g) { with_charset<C>(g, [&](const auto& cs, DestCs dc) {
    Env e(g, dc); auto pk = e.pack(cs); int x = gen_int<int>(g); AF al = some_af(g);
    switch (g.below(6)) {
        case 0: case 1: case 2: { G v{ (double)g.range(-99999, 99999), x }; int nq = g.chance(1, 4) ? (int)g.below(90) : (int)g.below(4); char32_t q = g.coin() ? U'"' : g.coin() ? U'\'' : 0x2018; int p = (int)g.below(12);
            switch (g.below(7)) {
                case 0: check<true>(g, e, "G", pk, mG(e, v, 0, q, 0, 0), v); break;
                case 1: check<true>(g, e, "quoted", pk, mG(e, v, nq, q, 0, 0), strf::fmt(v).quoted(nq).quote_with(q)); break;
                case 2: check<true>(g, e, "quoted fixed", pk, mG(e, v, nq, q, 2, p), strf::fixed(v, (unsigned)p).quoted(nq).quote_with(q)); break;
                case 3: check<true>(g, e, "quoted +fixed", pk, mG(e, v, nq, q, 1, p), +strf::fmt(v).quoted(nq).quote_with(q).fixed().p((unsigned)p)); break;
                case 4: { M m = mG(e, v, nq, q, 1, p); tune(g, al, m.w); check<true>(g, e, "quoted aligned", pk, fill(e, m, al), (+strf::fmt(v).quoted(nq).quote_with(q)).set_alignment_format(to_strf(al)).fixed().p((unsigned)p)); break; }
                case 5: { M m = mG(e, v, nq, q, 2, p); tune(g, al, m.w); auto a = strf::fixed(v, (unsigned)p).set_alignment_format(to_strf(al)).quote_with(q); const auto c = a; M m0 = mG(e, v, 0, q, 2, p);
                    auto b = c.quoted(nq);         // does not change c
                    check<true>(g, e, "quoted const&", pk, fill(e, m0, al) + fill(e, m, al), c, b); a.quoted(nq); check<true>(g, e, "quoted &", pk, fill(e, m, al), a); break; }
                default: { M m = mG(e, v, nq, q, 2, p); auto a = strf::right(v, al.w, U'.').quoted(nq).quote_with(q).fixed().p((unsigned)p); check<true>(g, e, "cleared alignment", pk, m, a.clear_alignment_format()); } }
            break; }
        case 3: { K k{ x }; Style s = (Style)g.below(3), t = (Style)g.below(3);
            switch (g.below(6)) {
                case 0: check<true>(g, e, "K", pk, mK(e, Style::plain, x), k); break;
                case 1: check<true>(g, e, "K facet", e.pack(cs, s), mK(e, s, x), k); break;
                case 2: check<true>(g, e, "K constrained", e.pack(cs, s, strf::constrain<is_ktag>(t)), mK(e, t, x), k); break;
                case 3: check<true>(g, e, "K constrained for others", e.pack(s, cs, strf::constrain<is_k>(t)), mK(e, s, x), k); break;
                case 4: check<true>(g, e, "K later wins", e.pack(strf::constrain<is_ktag>(t), s, cs), mK(e, s, x), k); break;
                default: check<true>(g, e, "K with()", e.pack(s, cs), mK(e, s, x) + mK(e, t, x) + mK(e, s, x), k, strf::with(t)(k), k); } break; }
        default: { K v[4]; for (auto& q : v) q.x = (int)g.next() >> g.below(32); Style s = (Style)g.below(3); check_range<true>(g, e, "K", e.pack(s, cs), v, g.below(5), a_sep(g), [&](std::size_t i) { return mK(e, s, v[i].x); }); break; }
    }
}); }
#endif

#if PART == 3
// ---- overriders
struct O { int x; };
namespace strf { template <> struct printable_def<O> { using forwarded_type = O; using representative = O; using is_overridable = std::true_type; using format_specifiers = strf::tag<strf::alignment_format_specifier>;
    template <class Ch, class P, class F> static auto make_printer(strf::tag<Ch>, P* pre, const F& f, O a) { return strf::make_printer<Ch>(pre, f, strf::join((Ch)'o', !strf::dec(a.x))); }
    template <class Ch, class P, class F, class... T> static auto make_printer(strf::tag<Ch>, P* pre, const F& f, const strf::value_and_format<printable_def<O>, T...>& a) { return strf::make_printer<Ch>(pre, f, strf::join((Ch)'o', !strf::dec(a.value().x)).set_alignment_format(a.get_alignment_format())); } }; }
static_assert(std::is_same<strf::representative_of_printable<void*>, const void*>::value && std::is_same<strf::representative_of_printable<int>, int>::value && std::is_same<strf::representative_of_printable<C>, C>::value && std::is_same<strf::representative_of_printable<const double&>, double>::value, "");
static_assert(strf::is_printable_and_overridable_v<O> && strf::is_printable_and_overridable_v<bool> && strf::is_printable_and_overridable_v<double> && !strf::is_printable_and_overridable_v<int> && !strf::is_printable_and_overridable_v<char>, "");
// with state, make_printer
struct OverO { using category = strf::printable_overrider_c_of<O>; char32_t mark;
    template <class Ch, class P, class F> auto make_printer(strf::tag<Ch>, P* pre, const F& f, O a) const { return strf::make_printer<Ch>(pre, f, strf::join(mark, !strf::dec(a.x), mark)); }
    template <class Ch, class P, class F, class... T> auto make_printer(strf::tag<Ch>, P* pre, const F& f, const strf::value_and_format<T...>& a) const { return strf::make_printer<Ch>(pre, f, strf::join(mark, !strf::dec(a.value().x), mark).set_alignment_format(a.get_alignment_format())); } };
// with state, print only
struct PrintO { using category = strf::printable_overrider_c_of<O>; char32_t mark;
    template <class Ch, class F> void print(strf::destination<Ch>& d, const F& f, O a) const { strf::to(d).with(f)(!strf::dec(a.x), mark); }
    template <class Ch, class F, class... T> void print(strf::destination<Ch>& d, const F& f, const strf::value_and_format<T...>& a) const { strf::to(d).with(f)(strf::join(!strf::dec(a.value().x), mark).set_alignment_format(a.get_alignment_format())); } };
// static, for bool
struct OverBool { using category = strf::printable_overrider_c_of<bool>;
    template <class Ch, class P, class F> static auto make_printer(strf::tag<Ch>, P* pre, const F&, bool x) { return strf::make_printer<Ch>(pre, strf::pack(), strf::unsafe_transcode(x ? "vero" : "falso")); }
    template <class Ch, class P, class F, class... T> static auto make_printer(strf::tag<Ch>, P* pre, const F& f, const strf::value_and_format<T...>& x) { return strf::make_printer<Ch>(pre, f, strf::unsafe_transcode(x.value() ? "vero" : "falso").set_alignment_format(x.get_alignment_format())); } };
// print only, for double: prints the integral part
struct PrintDouble { using category = strf::printable_overrider_c<double>;
    template <class Ch, class F> static void print(strf::destination<Ch>& d, const F& f, double x) { strf::to(d).with(f)((Ch)'d', !strf::dec((long)x)); }
    template <class Ch, class F, class... T> static void print(strf::destination<Ch>& d, const F& f, const strf::value_and_format<T...>& x) { strf::to(d).with(f)(strf::join((Ch)'d', !strf::dec((long)x.value())).set_alignment_format(x.get_alignment_format())); } };
struct OverPtr { using category = strf::printable_overrider_c<const void*>; int bias;
    template <class Ch, class P, class F> auto make_printer(strf::tag<Ch>, P* pre, const F& f, const void* p) const { return strf::make_printer<Ch>(pre, f, strf::join((Ch)'@', !strf::dec((long long)(std::uintptr_t)p + bias))); }
    template <class Ch, class P, class F, class... T> auto make_printer(strf::tag<Ch>, P* pre, const F& f, const strf::value_and_format<T...>& p) const { return strf::make_printer<Ch>(pre, f, strf::join((Ch)'@', !strf::dec((long long)(std::uintptr_t)p.value() + bias)).set_alignment_format(p.get_alignment_format())); } };
template <class T> using is_O = std::is_same<T, O>;
template <class T> using is_int = std::is_same<T, int>;
static M rawm(const Env& e, char32_t c) { return { e.dc.raw<C>(c), 0x10000 }; }
static void one(Rng& g) { with_charset<C>(g, [&](const auto& cs, DestCs dc) {
    Env e(g, dc); int x = gen_int<int>(g); std::string xs = e.dec(x); AF al = some_af(g); char32_t mk = g.coin() ? U'%' : 0xE9; M mm = rawm(e, mk), tx = text(xs); O o{ x };
    auto aligned = [&](const M& m) { tune(g, al, m.w); return fill(e, m, al); };
    switch (g.below(12)) {
        case 0: { M f = aligned(text("o" + xs)); check<true>(g, e, "O", e.pack(cs), text("o" + xs) + f, o, strf::fmt(o).set_alignment_format(to_strf(al))); break; }
        case 1: case 2: { auto pk = e.pack(OverO{ mk }, cs); M m = mm + tx + mm; M f = aligned(m);
            if (g.coin()) check<true>(g, e, "overridden O", pk, m, o); else if (g.coin()) check<true>(g, e, "overridden fmt(O)", pk, m, strf::fmt(o)); else check<true>(g, e, "overridden aligned O", pk, f, strf::fmt(o).set_alignment_format(to_strf(al))); break; }
        case 3: { auto pk = e.pack(cs, PrintO{ mk }); M m = tx + mm; M f = aligned(m);
            if (g.coin()) check<false>(g, e, "print-overridden O", pk, m, o); else if (g.coin()) check<false>(g, e, "print-overridden fmt(O)", pk, m, strf::fmt(o)); else check<false>(g, e, "print-overridden aligned O", pk, f, strf::fmt(o).set_alignment_format(to_strf(al))); break; }
        case 4: { O v[4]; for (auto& q : v) q.x = (int)g.next() >> g.below(32); if (g.coin()) check_range<true>(g, e, "overridden O", e.pack(cs, OverO{ mk }), v, g.below(5), a_sep(g), [&](std::size_t i) { return mm + text(e.dec(v[i].x)) + mm; });
            else check_range<false>(g, e, "print-overridden O", e.pack(cs, PrintO{ mk }), v, g.below(5), a_sep(g), [&](std::size_t i) { return text(e.dec(v[i].x)) + mm; }); break; }
        case 5: { // constrained: seen by the representative only
            check<true>(g, e, "constrained overrider", e.pack(strf::constrain<is_O>(OverO{ mk }), cs), mm + tx + mm, o); check<true>(g, e, "overrider constrained for others", e.pack(cs, strf::constrain<is_int>(OverO{ mk })), text("o" + xs), o); break; }
        case 6: { // in an inner pack, and back
            check<true>(g, e, "overrider in with()", e.pack(cs), text("o" + xs) + mm + tx + mm + text("o" + xs), o, strf::with(OverO{ mk })(o), o);
            check<true>(g, e, "overrider taken back", e.pack(cs, OverO{ mk }), mm + tx + mm + text("o" + xs), o, strf::with(strf::dont_override<O>{})(o)); break; }
        case 7: case 8: { bool b = g.coin(); M m = text(b ? "vero" : "falso"); M f = aligned(m);
            check<true>(g, e, "overridden bool", e.pack(cs, OverBool{}), m + f + text(std::to_string(x)), b, strf::fmt(b).set_alignment_format(to_strf(al)), x);
            bool v[3] = { b, !b, true }; check_range<true>(g, e, "overridden bool", e.pack(OverBool{}, cs), v, g.below(4), a_sep(g), [&](std::size_t i) { return text(v[i] ? "vero" : "falso"); }); break; }
        case 9: { double d = (double)(x / 2); M m = text("d" + e.dec((long)d)); M f = aligned(m);
            check<false>(g, e, "print-overridden double", e.pack(cs, PrintDouble{}), m + f, d, strf::fmt(d).set_alignment_format(to_strf(al)));
            check<true>(g, e, "float is another type", e.pack(cs, PrintDouble{}), text("0.5"), 0.5f); break; }
        default: { const void* p = (const void*)(std::uintptr_t)(unsigned)x; M m = text("@" + e.dec((long long)(unsigned)x + 3)); M f = aligned(m);
            check<true>(g, e, "overridden pointer", e.pack(OverPtr{ 3 }, cs), m + f, p, strf::fmt(p).set_alignment_format(to_strf(al))); break; }
    }
}); }
#endif
static void run() { vh::section(vh::fmt("user%d-%s", PART, cname<C>::v).c_str(), 3000, 300000, [](Rng& g, std::uint64_t) { one(g); }); }
VH_MAIN(run)
