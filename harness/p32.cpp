// P32: format functions set exactly what they say: whatever their order, their
// number, the kind of reference they are called through and the way they are
// spelled (member, operator, global function), the format that results is the one
// a plain record of the calls gives, and prints as that format set at once.
#include "flt.hpp"
#include <deque>
using namespace gen;
#ifndef CH
#define CH char
#endif
#ifndef PART
#define PART 0
#endif
using C = CH;
using S = std::basic_string<C>;

#if PART == 2
#define N_OPS 47
#else
#define N_OPS 80
#endif
enum class Pol { none, unsafe, diff, always };
struct Model {
    strf::alignment_format a; strf::int_format i; strf::float_format f;
    std::size_t count = 1; bool has_prec = false; strf::width_t prec; Pol pol = Pol::none; int cs = 0; // 0 none 1 static 2 dynamic
    unsigned calls = 0; std::uint64_t path = 0;
};
static std::string g_log;
static void log(const std::string& s) { g_log += s; }

template <typename F> concept is_int = requires(const F& f) { f.get_int_format(); };
template <typename F> concept is_float = requires(const F& f) { f.get_float_format(); };
template <typename F> concept is_quant = requires(const F& f) { f.scount(); };
template <typename F> concept is_str = requires(const F& f) { f.has_string_precision(); };
template <typename F> constexpr int static_base() { // 0: chosen at run time
    if constexpr (requires { requires decltype(std::declval<const F&>().get_int_format())::base > 0; }) return decltype(std::declval<const F&>().get_int_format())::base; else return 0;
}
template <typename F> concept int_default = requires(const F& f) { { f.get_int_format() } -> std::same_as<strf::default_int_format>; };
template <typename F, int B> concept static_ok = int_default<F> || (is_int<F> && static_base<F>() != 0 && (static_base<F>() == B || !requires(const F& f) { { f.get_int_format() } -> std::same_as<strf::int_format_no_pad0_nor_punct<static_base<F>()>>; }));
template <typename F> concept plus_ok = is_float<F> || (is_int<F> && (static_base<F>() == 10 || static_base<F>() == 0));
template <typename F> concept star_ok = is_float<F> || (is_int<F> && static_base<F>() != 10);

template <typename A, typename B> static std::string d2(const char* n, A a, B b) { return vh::fmt("%s is %lld, expected %lld", n, (long long)a, (long long)b); }
#define SAME(nm, got, want) do { if (!((got) == (want))) vh::violation("getter", g_log + ": " + when + d2(nm, (got), (want))); } while (0)
#define SAMEW(nm, got, want) do { if (!((got) == (want))) vh::violation("getter", g_log + ": " + when + d2(nm, (got).underlying_value(), (want).underlying_value())); } while (0)

template <typename F> static void check(const F& f, const Model& m, const char* when) {
    vh::event("formats read back");
    if constexpr (requires { f.get_alignment_format(); }) {
        strf::alignment_format a = f.get_alignment_format();
        SAMEW("width", a.width, m.a.width); SAME("fill", a.fill, m.a.fill); SAME("alignment", (int)a.alignment, (int)m.a.alignment);
        SAMEW("width()", f.width(), m.a.width); SAME("fill()", f.fill(), m.a.fill); SAME("alignment()", (int)f.alignment(), (int)m.a.alignment);
    }
    if constexpr (is_int<F>) {
        auto t = f.get_int_format(); strf::int_format i = t;
        SAME("base", i.base, m.i.base); SAME("precision", i.precision, m.i.precision); SAME("pad0width", i.pad0width, m.i.pad0width);
        SAME("sign", (int)i.sign, (int)m.i.sign); SAME("showbase", i.showbase, m.i.showbase); SAME("punctuate", i.punctuate, m.i.punctuate);
        SAME("member base", t.base, m.i.base); SAME("member precision", t.precision, m.i.precision); SAME("member pad0width", t.pad0width, m.i.pad0width);
        SAME("member sign", (int)t.sign, (int)m.i.sign); SAME("member showbase", t.showbase, m.i.showbase); SAME("member punctuate", t.punctuate, m.i.punctuate);
        if constexpr (requires { f.base(); }) SAME("base()", f.base(), m.i.base);
    }
    if constexpr (is_float<F>) {
        auto t = f.get_float_format(); strf::float_format i = t;
        SAME("precision", i.precision, m.f.precision); SAME("pad0width", i.pad0width, m.f.pad0width); SAME("notation", (int)i.notation, (int)m.f.notation);
        SAME("sign", (int)i.sign, (int)m.f.sign); SAME("showpoint", i.showpoint, m.f.showpoint); SAME("punctuate", i.punctuate, m.f.punctuate);
        SAME("float_notation()", (int)f.float_notation(), (int)m.f.notation); SAME("pad0width()", f.pad0width(), m.f.pad0width);
    }
    if constexpr (is_quant<F>) { SAME("count()", f.count(), m.count); SAME("scount()", f.scount(), (std::ptrdiff_t)m.count); }
    if constexpr (is_str<F>) {
        SAME("has_string_precision", f.has_string_precision(), m.has_prec);
        if constexpr (requires { f.precision(); }) SAMEW("precision()", f.precision(), m.prec);
        SAME("has_charset", f.has_charset(), m.cs != 0); SAME("has_static_charset", f.has_static_charset(), m.cs == 1); SAME("has_dynamic_charset", f.has_dynamic_charset(), m.cs == 2);
    }
}
template <typename K, typename F> static void step(const K& k, F f, const Model& m, Rng& g, int left);

// one call, through a mutable value, a const reference or a reference
template <typename K, typename F, typename Op> static void apply(const K& k, F f, const Model& m, Model after, Rng& g, int left, const std::string& nm, std::uint64_t id, const Op& op) {
    using R = std::remove_cvref_t<typename std::conditional_t<std::is_invocable_v<const Op&, F&&>, std::invoke_result<const Op&, F&&>, std::conditional_t<std::is_invocable_v<const Op&, const F&>, std::invoke_result<const Op&, const F&>, std::type_identity<F>>>::type>;
    ++after.calls; after.path = vh::mix(after.path ^ id);
    switch (g.below(4)) {
        case 0:
            if constexpr (std::is_invocable_v<const Op&, const F&>) {
                log(" const" + nm); const F& cf = f; auto&& r = op(cf); std::remove_cvref_t<decltype(r)> r2(r);
                check(f, m, "the original, through a const reference: "); vh::event("called through a const reference");
                return step(k, std::move(r2), after, g, left);
            }
            [[fallthrough]];
        case 1:
            if constexpr (std::is_invocable_v<const Op&, F&>) {
                log(" lvalue" + nm);
                if constexpr (std::is_same_v<std::invoke_result_t<const Op&, F&>, F&>) {
                    F& r = op(f); if (&r != &f) vh::violation("in-place", g_log + ": returns another object");
                    check(f, after, "in place: "); vh::event("called in place");
                    F r2(r); return step(k, std::move(r2), after, g, left);
                } else {
                    auto&& r = op(f); std::remove_cvref_t<decltype(r)> r2(r);
                    check(f, m, "the original, through a reference: "); vh::event("called through a reference");
                    return step(k, std::move(r2), after, g, left);
                }
            }
            [[fallthrough]];
        default:
            if constexpr (std::is_invocable_v<const Op&, F&&>) { log(nm); R r(op(std::move(f))); vh::event("called on a temporary"); return step(k, std::move(r), after, g, left); }
    }
    step(k, std::move(f), m, g, left); // cannot be called this way
}

#define FWD static_cast<decltype(x)&&>(x)
#define OP(N, NAME, COND, UPD, ...) case N: if constexpr (COND) { Model a = m; UPD; return apply(k, std::move(f), m, a, g, left - 1, NAME, N, [=](auto&& x) -> decltype(__VA_ARGS__) { return __VA_ARGS__; }); } break;
// the global functions take a value_and_format by any reference their member takes; they are only given temporaries here
#define GOP(N, NAME, COND, UPD, ...) case N: if constexpr (COND) { Model a = m; UPD; ++a.calls; a.path = vh::mix(a.path ^ N); log(NAME); auto&& x = f; auto r = __VA_ARGS__; vh::event("global function"); return step(k, std::move(r), a, g, left - 1); } break;
#define RV(EXPR) (requires(F& q) { EXPR; })
#define MV static_cast<F&&>(x)

template <int B> static strf::int_format_no_pad0_nor_punct<B> npf(const strf::int_format& i) { strf::int_format_no_pad0_nor_punct<B> r; r.sign = i.sign; r.showbase = i.showbase; return r; }
template <int B, bool P> static strf::int_format_static_base_and_punct<B, P> sbf(const strf::int_format& i) { strf::int_format_static_base_and_punct<B, P> r; r.precision = i.precision; r.pad0width = i.pad0width; r.sign = i.sign; r.showbase = i.showbase; return r; }
static int small(Rng& g) { return g.chance(1, 4) ? 0 : g.chance(1, 12) ? (int)g.range(20, 70) : (int)g.below(14); }
static strf::width_t awidth(Rng& g) { return g.chance(1, 6) ? strf::width_t::from_underlying((std::int32_t)g.below(12 << 16)) : strf::width_t((int)g.below(15)); }
static const int bases[] = { 2, 8, 10, 16 };
static strf::int_format rnd_int(Rng& g) {
    strf::int_format i; i.base = g.pick(bases); i.precision = small(g); i.pad0width = small(g); i.punctuate = g.coin();
    if (i.base == 10) i.sign = (strf::showsign)g.below(3); else i.showbase = g.coin();
    return i;
}
static strf::int_format ri2(strf::int_format i, int b) { i.base = b; if (b == 10) i.showbase = false; else i.sign = strf::showsign::negative_only; return i; }
static strf::float_format rnd_float(Rng& g) {
    strf::float_format f; f.precision = g.coin() ? -1 : small(g); f.pad0width = small(g); f.notation = (strf::float_notation)g.below(4); f.sign = (strf::showsign)g.below(3); f.showpoint = g.coin(); f.punctuate = g.coin(); return f;
}
static strf::float_format_no_punct nopf(const strf::float_format& f) { strf::float_format_no_punct r; r.precision = f.precision; r.pad0width = f.pad0width; r.notation = f.notation; r.sign = f.sign; r.showpoint = f.showpoint; return r; }
static strf::alignment_format rnd_align(Rng& g) { strf::alignment_format a; a.fill = U" *x~"[g.below(4)]; a.width = awidth(g); a.alignment = (strf::text_alignment)g.below(3); return a; }

#if PART == 2
// C as a dependent name: the single-byte charsets are only for one-byte types
static strf::static_charset<C, sizeof(C) == 1 ? strf::csid_windows_1252 : sizeof(C) == 2 ? strf::csid_utf16 : strf::csid_utf32> the_static() { return {}; }
template <typename X = C> static strf::dynamic_charset<X> the_dynamic() { if constexpr (sizeof(X) == 1) return strf::iso_8859_3<X>.to_dynamic(); else return strf::utf<X>.to_dynamic(); }
#endif

template <typename K, typename F> static void finish(const K& k, const F& f, const Model& m, Rng& g) {
    check(f, m, "");
    auto got = k.print(f), want = k.canon(m); vh::event("printed");
    std::string w = k.show() + g_log;
    if (k.comparable(m)) expect_eq(got, want, "printed", w);
    auto& again = strf::fmt(f); if ((const void*)&again != (const void*)&f) vh::violation("fmt", w + ": fmt of a formatted value is another object");
    if constexpr (requires { k.other(f); }) { // the same format on another value
        auto o = k.other(f); check(o, m, "given to another value: "); if (k.comparable(m)) expect_eq(k.print(o), k.other_canon(m), "other-value", w); vh::event("format given to another value");
    }
    if (m.calls >= 4) vh::event("four calls or more");
    vh::nontrivial(vh::hash_of(got, m.path));
    if (vh::want_sample()) vh::sample(w + " -> " + vh::show(got));
    (void)g;
}

template <typename K, typename F> static void step(const K& k, F f, const Model& m, Rng& g, int left) {
    if (left <= 0) return finish(k, f, m, g);
    check(f, m, "");
    for (int tries = 0; tries < 40; ++tries) {
    strf::width_t w = awidth(g); char32_t fc = U" *x~"[g.below(4)]; int n = small(g); int b = g.pick(bases); auto ri = rnd_int(g); auto rf = rnd_float(g); auto ra = rnd_align(g); (void)b; (void)n; (void)ri; (void)rf;
    if (left > 1 && g.chance(1, 40)) { auto&& r = strf::fmt(std::move(f)); log(" fmt"); F r2(r); return step(k, std::move(r2), m, g, left - 1); }
    using A = strf::text_alignment; using N = strf::float_notation; using Sg = strf::showsign;
    switch (g.below(N_OPS)) {
    // ---- alignment
    OP(0, vh::fmt("<%g", (double)w.underlying_value() / 65536), true, (a.a.alignment = A::left, a.a.width = w), FWD < w)
    OP(1, vh::fmt(">%g", (double)w.underlying_value() / 65536), true, (a.a.alignment = A::right, a.a.width = w), FWD > w)
    OP(2, vh::fmt("^%g", (double)w.underlying_value() / 65536), true, (a.a.alignment = A::center, a.a.width = w), FWD ^ w)
    OP(3, vh::fmt(".fill(%c)", (int)fc), true, a.a.fill = fc, FWD.fill(fc))
    OP(4, vh::fmt(".fill(char %c)", (int)fc), true, a.a.fill = fc, FWD.fill((C)fc))
    OP(5, ".set_alignment_format(default)", true, a.a = strf::alignment_format(), FWD.set_alignment_format(strf::default_alignment_format{}))
    OP(6, ".clear_alignment_format()", true, a.a = strf::alignment_format(), FWD.clear_alignment_format())
    OP(7, ".set_alignment_format()", true, a.a = ra, FWD.set_alignment_format(ra))
    GOP(8, " strf::left", RV(std::move(q) < w), (a.a.alignment = A::left, a.a.width = w), strf::left(MV, w))
    GOP(9, " strf::right", RV(std::move(q) > w), (a.a.alignment = A::right, a.a.width = w), strf::right(MV, w))
    GOP(10, " strf::center", RV(std::move(q) ^ w), (a.a.alignment = A::center, a.a.width = w), strf::center(MV, w))
    GOP(11, vh::fmt(" strf::left(%c)", (int)fc), RV(std::move(q) < w), (a.a.alignment = A::left, a.a.width = w, a.a.fill = fc), strf::left(MV, w, fc))
    GOP(12, vh::fmt(" strf::right(%c)", (int)fc), RV(std::move(q) > w), (a.a.alignment = A::right, a.a.width = w, a.a.fill = fc), strf::right(MV, w, fc))
    GOP(13, vh::fmt(" strf::center(%c)", (int)fc), RV(std::move(q) ^ w), (a.a.alignment = A::center, a.a.width = w, a.a.fill = fc), strf::center(MV, w, fc))
#if PART == 0 || PART == 3
    // ---- integers
    OP(20, ".hex()", is_int<F>, a.i.base = 16, FWD.hex())
    OP(21, ".dec()", is_int<F>, a.i.base = 10, FWD.dec())
    OP(22, ".oct()", is_int<F>, a.i.base = 8, FWD.oct())
    OP(23, ".bin()", is_int<F>, a.i.base = 2, FWD.bin())
    OP(24, vh::fmt(".base(%d)", b), is_int<F>, a.i.base = b, FWD.base(b))
    OP(25, vh::fmt(".p(%d)", n), is_int<F>, a.i.precision = n, FWD.p(n))
    OP(26, vh::fmt(".pad0(%d)", n), is_int<F>, a.i.pad0width = n, FWD.pad0(n))
    OP(27, "+", is_int<F> && plus_ok<F>, a.i.sign = Sg::positive_also, +FWD)
    OP(28, "~", is_int<F> && plus_ok<F>, a.i.sign = Sg::fill_instead_of_positive, ~FWD)
    OP(29, ".fill_sign()", is_int<F> && plus_ok<F>, a.i.sign = Sg::fill_instead_of_positive, FWD.fill_sign())
    OP(30, "*", is_int<F> && star_ok<F>, a.i.showbase = true, *FWD)
    OP(31, "!", is_int<F>, a.i.punctuate = true, !FWD)
    OP(32, ".punct()", is_int<F>, a.i.punctuate = true, FWD.punct())
    // set_int_format(default_int_format) only compiles where the format is already the default one
    GOP(79, ".set_int_format(default)", is_int<F> && int_default<F>, a.i = strf::int_format(), MV.set_int_format(strf::default_int_format{}))
    OP(34, ".set_int_format(full)", is_int<F>, a.i = ri, FWD.set_int_format(ri))
#define NP(NN, B) OP(NN, ".set_int_format(no_pad0_nor_punct<" #B ">)", is_int<F>, (a.i = strf::int_format(), a.i.base = B, a.i.sign = B == 10 ? ri.sign : Sg::negative_only, a.i.showbase = B != 10 && ri.showbase), FWD.set_int_format(npf<B>(ri2(ri, B))))
#define SB(NN, B, P) OP(NN, ".set_int_format(static_base_and_punct<" #B ", " #P ">)", (static_ok<F, B>), (a.i = ri2(ri, B), a.i.base = B, a.i.punctuate = P), FWD.set_int_format(sbf<B, P>(ri2(ri, B))))
    NP(35, 10) NP(36, 16) NP(37, 8) NP(38, 2) SB(39, 10, false) SB(40, 10, true) SB(41, 16, false) SB(42, 16, true) SB(43, 8, false) SB(44, 8, true) SB(45, 2, false) SB(46, 2, true)
    GOP(47, " strf::hex", is_int<F> && RV(std::move(q).hex()), a.i.base = 16, strf::hex(MV))
    GOP(48, " strf::dec", is_int<F> && RV(std::move(q).dec()), a.i.base = 10, strf::dec(MV))
    GOP(49, " strf::oct", is_int<F> && RV(std::move(q).oct()), a.i.base = 8, strf::oct(MV))
    GOP(50, " strf::bin", is_int<F> && RV(std::move(q).bin()), a.i.base = 2, strf::bin(MV))
    GOP(51, " strf::pad0", is_int<F> && RV(std::move(q).pad0(n)), a.i.pad0width = n, strf::pad0(MV, n))
    GOP(52, " strf::punct", is_int<F> && RV(std::move(q).punct()), a.i.punctuate = true, strf::punct(MV))
#endif
#if PART == 1 || PART == 3
    // ---- floating-point
    OP(53, ".sci()", is_float<F>, a.f.notation = N::scientific, FWD.sci())
    OP(54, ".fixed()", is_float<F>, a.f.notation = N::fixed, FWD.fixed())
    OP(55, ".gen()", is_float<F>, a.f.notation = N::general, FWD.gen())
    OP(56, ".hex()", is_float<F>, a.f.notation = N::hex, FWD.hex())
    OP(57, vh::fmt(".p(%d)", n), is_float<F>, a.f.precision = n, FWD.p(n))
    OP(58, vh::fmt(".pad0(%d)", n), is_float<F>, a.f.pad0width = n, FWD.pad0(n))
    OP(59, "+", is_float<F>, a.f.sign = Sg::positive_also, +FWD)
    OP(60, "~", is_float<F>, a.f.sign = Sg::fill_instead_of_positive, ~FWD)
    OP(61, ".fill_sign()", is_float<F>, a.f.sign = Sg::fill_instead_of_positive, FWD.fill_sign())
    OP(62, "*", is_float<F>, a.f.showpoint = true, *FWD)
    OP(63, "!", is_float<F>, a.f.punctuate = true, !FWD)
    OP(64, ".punct()", is_float<F>, a.f.punctuate = true, FWD.punct())
    OP(65, ".set_float_notation()", is_float<F>, a.f.notation = rf.notation, FWD.set_float_notation(rf.notation))
    OP(66, ".float_notation()", is_float<F>, a.f.notation = rf.notation, FWD.float_notation(rf.notation))
    OP(67, ".set_float_format(default)", is_float<F>, a.f = strf::float_format(), FWD.set_float_format(strf::default_float_format{}))
    OP(68, ".set_float_format(no_punct)", is_float<F>, (a.f = rf, a.f.punctuate = false), FWD.set_float_format(nopf(rf)))
    OP(69, ".set_float_format(full)", is_float<F>, a.f = rf, FWD.set_float_format(rf))
    GOP(70, " strf::sci", is_float<F> && RV(std::move(q).sci()), a.f.notation = N::scientific, strf::sci(MV))
    GOP(71, " strf::fixed", is_float<F> && RV(std::move(q).fixed()), a.f.notation = N::fixed, strf::fixed(MV))
    GOP(72, " strf::gen", is_float<F> && RV(std::move(q).gen()), a.f.notation = N::general, strf::gen(MV))
    GOP(73, vh::fmt(" strf::sci(%d)", n), is_float<F> && RV(std::move(q).sci().p(n)), (a.f.notation = N::scientific, a.f.precision = n), strf::sci(MV, n))
    GOP(74, vh::fmt(" strf::fixed(%d)", n), is_float<F> && RV(std::move(q).fixed().p(n)), (a.f.notation = N::fixed, a.f.precision = n), strf::fixed(MV, n))
    GOP(75, vh::fmt(" strf::gen(%d)", n), is_float<F> && RV(std::move(q).gen().p(n)), (a.f.notation = N::general, a.f.precision = n), strf::gen(MV, n))
    GOP(76, " strf::hex", is_float<F> && RV(std::move(q).hex()), a.f.notation = N::hex, strf::hex(MV))
    GOP(77, " strf::pad0", is_float<F> && RV(std::move(q).pad0(n)), a.f.pad0width = n, strf::pad0(MV, n))
    GOP(78, " strf::punct", is_float<F> && RV(std::move(q).punct()), a.f.punctuate = true, strf::punct(MV))
#endif
#if PART == 2
    // ---- strings
    OP(20, ".p()", is_str<F>, (a.has_prec = true, a.prec = w), FWD.p(w))
    OP(21, ".transcode()", is_str<F>, a.pol = Pol::diff, FWD.transcode())
    OP(22, ".sani()", is_str<F>, a.pol = Pol::always, FWD.sani())
    OP(23, ".sanitize()", is_str<F>, a.pol = Pol::always, FWD.sanitize())
    OP(24, ".unsafe_transcode()", is_str<F>, a.pol = Pol::unsafe, FWD.unsafe_transcode())
    OP(25, ".transcode(static)", is_str<F>, (a.pol = Pol::diff, a.cs = 1), FWD.transcode(the_static()))
    OP(26, ".sani(static)", is_str<F>, (a.pol = Pol::always, a.cs = 1), FWD.sani(the_static()))
    OP(27, ".sanitize(static)", is_str<F>, (a.pol = Pol::always, a.cs = 1), FWD.sanitize(the_static()))
    OP(28, ".unsafe_transcode(static)", is_str<F>, (a.pol = Pol::unsafe, a.cs = 1), FWD.unsafe_transcode(the_static()))
    OP(29, ".transcode_from(static)", is_str<F>, (a.pol = Pol::diff, a.cs = 1), FWD.transcode_from(the_static()))
    OP(30, ".sanitize_from(static)", is_str<F>, (a.pol = Pol::always, a.cs = 1), FWD.sanitize_from(the_static()))
    OP(31, ".transcode(dynamic)", is_str<F>, (a.pol = Pol::diff, a.cs = 2), FWD.transcode(the_dynamic()))
    OP(32, ".sani(dynamic)", is_str<F>, (a.pol = Pol::always, a.cs = 2), FWD.sani(the_dynamic()))
    OP(33, ".sanitize(dynamic)", is_str<F>, (a.pol = Pol::always, a.cs = 2), FWD.sanitize(the_dynamic()))
    OP(34, ".unsafe_transcode(dynamic)", is_str<F>, (a.pol = Pol::unsafe, a.cs = 2), FWD.unsafe_transcode(the_dynamic()))
    OP(35, ".transcode_from(dynamic)", is_str<F>, (a.pol = Pol::diff, a.cs = 2), FWD.transcode_from(the_dynamic()))
    OP(36, ".sanitize_from(dynamic)", is_str<F>, (a.pol = Pol::always, a.cs = 2), FWD.sanitize_from(the_dynamic()))
    OP(37, ".conv()", is_str<F>, a.pol = Pol::diff, FWD.conv())
    OP(38, ".sanitize_charset()", is_str<F>, a.pol = Pol::always, FWD.sanitize_charset())
    OP(39, ".convert_from_charset(static)", is_str<F>, (a.pol = Pol::diff, a.cs = 1), FWD.convert_from_charset(the_static()))
    OP(40, ".sanitize_from_charset(dynamic)", is_str<F>, (a.pol = Pol::always, a.cs = 2), FWD.sanitize_from_charset(the_dynamic()))
    GOP(41, " strf::transcode", is_str<F>, a.pol = Pol::diff, strf::transcode(MV))
    GOP(42, " strf::sani", is_str<F>, a.pol = Pol::always, strf::sani(MV))
    GOP(43, " strf::unsafe_transcode", is_str<F>, a.pol = Pol::unsafe, strf::unsafe_transcode(MV))
    GOP(44, " strf::transcode(static)", is_str<F>, (a.pol = Pol::diff, a.cs = 1), strf::transcode(MV, the_static()))
    GOP(45, " strf::sani(dynamic)", is_str<F>, (a.pol = Pol::always, a.cs = 2), strf::sani(MV, the_dynamic()))
    GOP(46, " strf::unsafe_transcode(static)", is_str<F>, (a.pol = Pol::unsafe, a.cs = 1), strf::unsafe_transcode(MV, the_static()))
#endif
#if PART == 3
    OP(14, vh::fmt(".multi(%d)", n), is_quant<F>, a.count = (std::size_t)n, FWD.multi(n))
    OP(15, vh::fmt(".multi(unsigned %d)", n), is_quant<F>, a.count = (std::size_t)n, FWD.multi((unsigned short)n))
    OP(16, ".multi(negative)", is_quant<F>, a.count = 0, FWD.multi(-1 - n))
    GOP(17, vh::fmt(" strf::multi(%d)", n), is_quant<F> && RV(std::move(q).multi(n)), a.count = (std::size_t)n, strf::multi(MV, n))
#endif
    default:;
    }
    }
    finish(k, f, m, g);
}

// ---------------------------------------------------------------- what is formatted
static const strf::numpunct<10> np10 = strf::numpunct<10>{ 3, 2 }.thousands_sep(U'.').decimal_point(U',');
static const strf::numpunct<16> np16 = strf::numpunct<16>{ 4 }.thousands_sep(U'\'');
static const strf::numpunct<8> np8 = strf::numpunct<8>{ 3 }.thousands_sep(U'_');
static const strf::numpunct<2> np2 = strf::numpunct<2>{ 4, 1 }.thousands_sep(U':');
template <typename F> static S text(const F& f) { return strf::to_basic_string<C>.with(np10, np16, np8, np2, strf::mixedcase)(f); }
template <typename D> struct Base {
    template <typename F> S print(const F& f) const { return text(f); }
    bool comparable(const Model&) const { return true; }
    S canon(const Model& m) const { return self().of(m, false); }
    S other_canon(const Model& m) const { return self().of(m, true); }
    const D& self() const { return static_cast<const D&>(*this); }
};
// signs are for base ten and base prefixes for the others
static bool int_ok(const strf::int_format& i) { return i.base == 10 ? !i.showbase : i.sign == strf::showsign::negative_only; }
#if PART == 0
template <typename T> struct Int : Base<Int<T>> {
    T v, v2;
    std::string show() const { return std::to_string(v); }
    bool comparable(const Model& m) const { return int_ok(m.i); }
    S of(const Model& m, bool o) const { return text(strf::fmt(o ? v2 : v).set_int_format(m.i).set_alignment_format(m.a)); }
    template <typename F> F other(const F& f) const { return F{ v2, f }; }
};
template <typename T> static void ints(Rng& g, std::uint64_t) { g_log = ""; Int<T> k; k.v = (T)gen_int<T>(g); k.v2 = (T)gen_int<T>(g); step(k, strf::fmt(k.v), Model{}, g, (int)g.below(9)); }
static void run() {
    vh::section("int", 6000, 600000, ints<int>);
    vh::section("unsigned-long-long", 4000, 400000, ints<unsigned long long>);
}
#elif PART == 1
template <typename T> struct Flt : Base<Flt<T>> {
    T v, v2;
    std::string show() const { return vh::fmt("%a", (double)v); }
    S of(const Model& m, bool o) const { return text(strf::fmt(o ? v2 : v).set_float_format(m.f).set_alignment_format(m.a)); }
    template <typename F> F other(const F& f) const { return F{ v2, f }; }
};
template <typename T> static void floats(Rng& g, std::uint64_t) { g_log = ""; Flt<T> k; auto val = [&] { return g.coin() ? gen_float<T>(g) : (T)((double)g.range(-99999, 99999) / 64); }; k.v = val(); k.v2 = val(); step(k, strf::fmt(k.v), Model{}, g, (int)g.below(9)); }
static void run() {
    vh::section("double", 6000, 600000, floats<double>);
    vh::section("float", 6000, 600000, floats<float>);
}
#elif PART == 2
struct Str : Base<Str> {
    S v, v2; bool valid = true, foreign = false;
    std::string show() const { return vh::show(v); }
    bool comparable(const Model& m) const { return m.pol != Pol::unsafe || valid; }
    template <typename F, typename X = C> S print(const F& f) const { if constexpr (sizeof(X) == 1) if (foreign) return strf::to_basic_string<C>.with(strf::windows_1250<X>)(f); return text(f); }
    S of(const Model& m, bool o) const {
        auto base = strf::fmt(o ? v2 : v);
        auto last = [&](auto f) { return m.has_prec ? print(f.p(m.prec).set_alignment_format(m.a)) : print(f.set_alignment_format(m.a)); };
        auto cs = [&](auto c) { switch (m.pol) { case Pol::unsafe: return last(base.unsafe_transcode(c)); case Pol::diff: return last(base.transcode(c)); case Pol::always: return last(base.sani(c)); default: return last(base); } };
        if (m.cs == 1) return cs(the_static());
        if (m.cs == 2) return cs(the_dynamic());
        switch (m.pol) { case Pol::unsafe: return last(base.unsafe_transcode()); case Pol::diff: return last(base.transcode()); case Pol::always: return last(base.sani()); default: return last(base); }
    }
};
static void strings(Rng& g, std::uint64_t) {
    g_log = ""; Str k; k.foreign = g.chance(1, 3);
    auto val = [&] { S s; for (unsigned i = (unsigned)g.below(9); i; --i) { if (g.chance(1, 8)) { k.valid = false; s += sizeof(C) == 1 ? (C)(0x80 + g.below(128)) : (C)(0xD800 + g.below(2048)); } else if (g.chance(1, 4)) { k.valid = k.valid && sizeof(C) > 1; put_cp<C>(s, U"\u00E9\u20AC\u3042\U0001F600"[g.below(4)]); } else s += (C)('a' + g.below(26)); } return s; };
    k.v = val(); k.v2 = val();
    step(k, strf::fmt(k.v), Model{}, g, (int)g.below(8));
}
static void run() { vh::section("strings", 10000, 800000, strings); }
#else
static strf::int_format di;
struct Chr : Base<Chr> {
    char32_t v, v2;
    std::string show() const { return vh::fmt("U+%X", (unsigned)v); }
    S of(const Model& m, bool o) const {
        strf::alignment_format a = m.a; u32s s(m.count, o ? v2 : v); // the same as a string of that many
        return text(strf::fmt(s).transcode().set_alignment_format(a)); }
    template <typename F> F other(const F& f) const { return F{ v2, f }; }
};
struct Bol : Base<Bol> {
    bool v, v2;
    std::string show() const { return v ? "true" : "false"; }
    S of(const Model& m, bool o) const { return text(strf::fmt(ascii<C>((o ? v2 : v) ? "true" : "false")).set_alignment_format(m.a)); }
    template <typename F> S print(const F& f) const { return strf::to_basic_string<C>.with(strf::lowercase)(f); }
    template <typename F> F other(const F& f) const { return F{ v2, f }; }
};
struct Ptr : Base<Ptr> {
    const void *v, *v2;
    std::string show() const { return vh::fmt("%p", v); }
    S of(const Model& m, bool o) const { return text((*strf::hex((std::size_t)(o ? v2 : v))).set_alignment_format(m.a)); }
    template <typename F> F other(const F& f) const { return F{ v2, f }; }
};
struct Joined : Base<Joined> {
    int v; S s;
    std::string show() const { return vh::fmt("join of %d and ", v) + vh::show(s); }
    S of(const Model& m, bool) const { return text(strf::fmt(text(strf::dec(v)) + s).set_alignment_format(m.a)); }
};
struct IRange : Base<IRange> {
    std::vector<int> v; bool sep;
    std::string show() const { std::string r = "range"; for (int i : v) r += vh::fmt(" %d", i); return r; }
    bool comparable(const Model& m) const { return int_ok(m.i); }
    S of(const Model& m, bool) const { S r; for (auto& e : v) { if (sep && !r.empty() && &e != &v[0]) r += (C)'/'; if (sep && r.empty() && &e != &v[0]) r += (C)'/'; r += text(strf::fmt(e).set_int_format(m.i).set_alignment_format(m.a)); } return r; }
};
struct DRange : Base<DRange> {
    std::deque<double> v; bool sep;
    std::string show() const { std::string r = "range"; for (double i : v) r += vh::fmt(" %g", i); return r; }
    S of(const Model& m, bool) const { S r; bool first = true; for (double e : v) { if (sep && !first) r += (C)'/'; first = false; r += text(strf::fmt(e).set_float_format(m.f).set_alignment_format(m.a)); } return r; }
};
static void run() {
    vh::section("characters", 3000, 200000, [](Rng& g, std::uint64_t) { g_log = ""; Chr k; k.v = U"aZ\u00E9\u3042"[g.below(4)]; k.v2 = (char32_t)('0' + g.below(10)); step(k, strf::fmt(k.v), Model{}, g, (int)g.below(8)); });
    vh::section("bool", 1500, 100000, [](Rng& g, std::uint64_t) { g_log = ""; Bol k; k.v = g.coin(); k.v2 = g.coin(); step(k, strf::fmt(k.v), Model{}, g, (int)g.below(8)); });
    vh::section("pointers", 1500, 100000, [](Rng& g, std::uint64_t) { g_log = ""; Ptr k; k.v = (const void*)(std::size_t)(g.next() >> g.below(64)); k.v2 = nullptr; Model m; step(k, strf::fmt(k.v), m, g, (int)g.below(8)); });
    vh::section("joins", 2000, 200000, [](Rng& g, std::uint64_t) { g_log = ""; Joined k; k.v = (int)g.range(-99, 99); k.s = ascii<C>(std::string(g.below(5), 'x')); Model m;
        if (g.coin()) return step(k, strf::fmt(strf::join(k.v, k.s)), m, g, (int)g.below(8));
        m.a = rnd_align(g); auto w = m.a.width;
        switch (m.a.alignment) {
            case strf::text_alignment::left: return step(k, strf::join_left(w, m.a.fill)(k.v, k.s), m, g, (int)g.below(8));
            case strf::text_alignment::right: return step(k, strf::join_right(w, m.a.fill)(k.v, k.s), m, g, (int)g.below(8));
            default: return step(k, strf::join_center(w, m.a.fill)(k.v, k.s), m, g, (int)g.below(8));
        } });
    vh::section("ranges-of-int", 3000, 300000, [](Rng& g, std::uint64_t) { g_log = ""; IRange k; k.sep = g.coin(); for (unsigned n = (unsigned)g.below(4); n; --n) k.v.push_back(gen_int<int>(g)); static const C sep[2] = { '/', 0 };
        if (k.sep) step(k, strf::fmt_separated_range(k.v, sep), Model{}, g, (int)g.below(8)); else step(k, strf::fmt_range(k.v), Model{}, g, (int)g.below(8)); });
    vh::section("ranges-of-double", 3000, 300000, [](Rng& g, std::uint64_t) { g_log = ""; DRange k; k.sep = g.coin(); for (unsigned n = (unsigned)g.below(4); n; --n) k.v.push_back((double)g.range(-9999, 9999) / 16); static const C sep[2] = { '/', 0 };
        if (k.sep) step(k, strf::fmt_separated_range(k.v, sep), Model{}, g, (int)g.below(8)); else step(k, strf::fmt_range(k.v), Model{}, g, (int)g.below(8)); });
}
#endif
VH_MAIN(run)
