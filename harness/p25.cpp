// P25: width_t is saturating Q16.16 arithmetic; _w literals.
#include "vh.hpp"
#include <strf.hpp>
using strf::width_t;
using q16 = std::int64_t; using i128 = __int128;
static const q16 MX = 0x7FFFFFFF, MN = -MX - 1;
static q16 sat(i128 x) { return x > MX ? MX : x < MN ? MN : (q16)x; }
static width_t U(q16 x) { return width_t::from_underlying((std::int32_t)x); }
static std::string ds(q16 u) { return vh::fmt("[%llX](%.6f)", (unsigned long long)(u & 0xFFFFFFFF), (double)u / 65536.0); }
static std::string is(i128 i) { return vh::fmt("%s%llX", i < 0 ? "-" : "", (unsigned long long)(i < 0 ? -i : i)); }
static int sgn(i128 x) { return x < 0 ? -1 : x > 0; }
static q16 operand(vh::Rng& g) {
    static const q16 b[] = {0, 1, 2, 0x7FFF, 0x8000, 0x8001, 0xFFFF, 0x10000, 0x10001, 0x17FFF, 0x18000, 0x18001, 0x20000, 0x30000, 0x7FFF0000, 0x7FFF8000, 0x7FFF0001, 0x7FFEFFFF, 0x7FFFFFFE, 0x7FFFFFFF, 0xB504F3, 0xB504F4, 0x1000000, 0x40000000};
    switch (g.below(8)) {
        case 0: return MN; case 1: case 2: { q16 x = g.pick(b); return g.coin() ? x : -x; }
        case 3: return g.range(-0x8000, 0x7FFF) * 0x10000; case 4: return g.range(-300000, 300000);
        case 5: { q16 x = (q16)(g.next() & 0x7FFFFFFF) >> g.below(31); return g.coin() ? x : -x; }
        case 6: { q16 x = g.pick(b) + g.range(-3, 3); if (g.coin()) x = -x; return sat(x); }
        default: return (std::int32_t)g.next();
    }
}
template <typename I> static I integer(vh::Rng& g) {
    static const unsigned long long b[] = {0, 1, 2, 0x7E, 0x7F, 0x80, 0xFF, 0x100, 0x7FFE, 0x7FFF, 0x8000, 0x8001, 0xFFFE, 0xFFFF, 0x10000, 0x10001, 0x1FFFF, 0x7FFFFFFF, 0x80000000, 0x80000001, 0xFFFFFFFF, 0x100000000, 0x800000000000, 0x7FFFFFFFFFFF, 0x1000000000000, 0x7FFFFFFFFFFFFFFF, 0x8000000000000000, 0xFFFFFFFFFFFFFFFF, 0x8000000000000001, 0xFFFF000000000000};
    switch (g.below(4)) {
        case 0: { auto x = g.pick(b); return (I)(g.coin() ? x : 0 - x); }
        case 1: return (I)(g.next() >> g.below(64)); case 2: return (I)g.range(-0x8002, 0x8002);
        default: return (I)(0 - (g.next() >> g.below(64)));
    }
}
static void eq(const char* what, width_t got, q16 want, const std::string& ops) {
    vh::event(what); if (want == MX || want == MN) vh::event("saturated");
    if (got.underlying_value() != want) vh::violation(what, std::string(what) + " of " + ops + " : " + ds(got.underlying_value()) + " expected " + ds(want));
}
static void eqi(const char* what, i128 got, i128 want, const std::string& ops) {
    if (got != want) vh::violation(what, std::string(what) + " of " + ops + " : " + is(got) + " expected " + is(want));
}
template <typename I> static void ctor(I x) {
    eq("constructor", width_t(x), sat((i128)x * 65536), is(x)); width_t w; w = width_t{x}; eq("assigned", w, sat((i128)x * 65536), is(x));
    width_t v = x; eq("copy-initialized", v, sat((i128)x * 65536), is(x));
}
template <typename I> static void sat_cast(I x) { eq("sat_cast", width_t::sat_cast(x), sat((i128)x * 65536), is(x)); }
template <typename I> static void with_integer(vh::Rng& g) {
    q16 a = operand(g); I x = integer<I>(g); auto w = U(a); std::string ops = ds(a) + " and " + is(x) + vh::fmt(" (%zu bytes%s)", sizeof(I), std::is_signed<I>::value ? "" : ", unsigned"); i128 ix = (i128)x; i128 xx = ix * 65536;
    eq("sat_add(w,i)", strf::sat_add(w, x), sat(a + xx), ops); eq("sat_add(i,w)", strf::sat_add(x, w), sat(a + xx), ops);
    eq("sat_sub(w,i)", strf::sat_sub(w, x), sat(a - xx), ops); eq("sat_mul(w,i)", strf::sat_mul(w, x), sat((i128)a * ix), ops); eq("sat_mul(i,w)", strf::sat_mul(x, w), sat((i128)a * ix), ops);
    eqi("sign of compare(w,i)", sgn(strf::compare(w, x)), sgn(a - xx), ops); eqi("sign of compare(i,w)", sgn(strf::compare(x, w)), sgn(xx - a), ops);
    vh::event("compare"); if (x < 0) vh::event("negative integer"); if (xx > MX || xx < MN) vh::event("integer beyond the range"); if (xx == a) vh::event("equal");
    // a near or equal value: the comparison has to see the fraction
    q16 near = sat(xx + g.range(-1, 1)); auto v = U(near); std::string o2 = ds(near) + " and " + is(x);
    eqi("sign of compare(w,i)", sgn(strf::compare(v, x)), sgn(near - xx), o2); eqi("sign of compare(i,w)", sgn(strf::compare(x, v)), sgn(xx - near), o2);
    eq("sat_sub(w,i)", strf::sat_sub(v, x), sat(near - xx), o2);
    vh::nontrivial(vh::hash_of(a, (std::uint64_t)x, (int)sizeof(I)));
    if (vh::want_sample()) vh::sample(ops);
}
static void unary(q16 a) {
    auto w = U(a); std::string ops = ds(a);
    q16 fl = a >> 16, ce = -((-a) >> 16), ro = a >= 0 ? (a + 0x7FFF) >> 16 : -((-a + 0x7FFF) >> 16);
    eqi("floor", w.floor(), fl, ops); eqi("ceil", w.ceil(), ce, ops); eqi("round", w.round(), ro, ops);
    eqi("non_negative_floor", w.non_negative_floor(), a < 0 ? 0 : fl, ops); eqi("non_negative_ceil", w.non_negative_ceil(), a < 0 ? 0 : ce, ops);
    if (w.zero() != (a == 0) || w.not_zero() != (a != 0) || w.gt_zero() != (a > 0) || w.ge_zero() != (a >= 0) || w.lt_zero() != (a < 0) || w.le_zero() != (a <= 0)) vh::violation("comparison with zero", "comparison with zero of " + ops);
    eq("underlying", w, a, ops); eq("unary +", +w, a, ops); if (a != MN) eq("unary -", -w, -a, ops);
    eq("from_underlying_tag", width_t(width_t::from_underlying_tag{}, (std::int32_t)a), a, ops);
}
static void binary(vh::Rng& g) {
    q16 a = operand(g), b = g.below(8) ? operand(g) : sat(a + g.range(-1, 1)); auto w = U(a), v = U(b); std::string ops = ds(a) + " and " + ds(b);
    if (g.chance(1, 6)) { q16 p = g.coin() ? MX : MN; b = sat(p - a + g.range(-1, 1)); v = U(b); ops = ds(a) + " and " + ds(b); }
    if (g.chance(1, 6) && a) { i128 p = (g.coin() ? MX : MN); b = sat(p * 65536 / a + g.range(-1, 1)); v = U(b); ops = ds(a) + " and " + ds(b); }
    eq("sat_add", strf::sat_add(w, v), sat((i128)a + b), ops); eq("sat_sub", strf::sat_sub(w, v), sat((i128)a - b), ops);
    i128 p = (i128)a * b / 65536;
    eq("sat_mul", strf::sat_mul(w, v), sat(p), ops); eq("operator *", w * v, sat(p), ops);
    { auto x = w; x *= v; eq("operator *=", x, sat(p), ops); } { auto x = w; x.sat_add(v); eq("member sat_add", x, sat((i128)a + b), ops); } { auto x = w; x.sat_sub(v); eq("member sat_sub", x, sat((i128)a - b), ops); } { auto x = w; x.sat_mul(v); eq("member sat_mul", x, sat(p), ops); }
    if (a + b == sat(a + b)) { eq("operator +", w + v, a + b, ops); auto x = w; x += v; eq("operator +=", x, a + b, ops); }
    if (a - b == sat(a - b)) { eq("operator -", w - v, a - b, ops); auto x = w; x -= v; eq("operator -=", x, a - b, ops); }
    if (b) { i128 d = (i128)a * 65536 / b; if (d == sat(d)) { eq("operator /", w / v, (q16)d, ops); auto x = w; x /= v; eq("operator /=", x, (q16)d, ops); } }
    if ((w == v) != (a == b) || (w != v) != (a != b) || (w < v) != (a < b) || (w > v) != (a > b) || (w <= v) != (a <= b) || (w >= v) != (a >= b) || sgn(strf::compare(w, v)) != sgn(a - b)) vh::violation("comparison of widths", "comparison of " + ops);
    // with short integers
    auto i = integer<std::int16_t>(g); if (g.chance(1, 3)) { a = sat((q16)i * 65536 + g.range(-1, 1)); w = U(a); } q16 n = (q16)i * 65536; ops = ds(a) + " and " + is(i);
    if ((w == i) != (a == n) || (w != i) != (a != n) || (w < i) != (a < n) || (w > i) != (a > n) || (w <= i) != (a <= n) || (w >= i) != (a >= n)
        || (i == w) != (a == n) || (i != w) != (a != n) || (i < w) != (n < a) || (i > w) != (n > a) || (i <= w) != (n <= a) || (i >= w) != (n >= a)) vh::violation("comparison with int16_t", "comparison of " + ops);
    eq("operator *(w,i)", w * i, sat((i128)a * i), ops); eq("operator *(i,w)", i * w, sat((i128)a * i), ops);
    if (a + n == sat(a + n)) { eq("operator +(w,i)", w + i, a + n, ops); eq("operator +(i,w)", i + w, a + n, ops); }
    if (a - n == sat(a - n)) eq("operator -(w,i)", w - i, a - n, ops); if (n - a == sat(n - a)) eq("operator -(i,w)", i - w, n - a, ops);
    if (i) { i128 d = (i128)a / i; if (d == sat(d)) eq("operator /(w,i)", w / i, (q16)d, ops); } if (a) { i128 d = (i128)n * 65536 / a; if (d == sat(d)) eq("operator /(i,w)", i / w, (q16)d, ops); }
    { width_t x; x = i; eq("assigned int16_t", x, n, ops); }
    vh::nontrivial(vh::hash_of(a, b));
    if (vh::want_sample()) vh::sample(ops);
}
namespace lit { using namespace strf::width_literal;
struct Lit { const char* s; std::uint32_t lo, hi; std::int32_t v; };
static const Lit list[] = {
#define L(x, lo, hi) {#x, lo, hi, (x ## _w).underlying_value()},
#include "wlit.inc"
#undef L
}; }
// constant expressions
static_assert(strf::sat_add(strf::width_max, 1) == strf::width_max && strf::sat_mul(width_t(3), width_t(-20000)) == strf::width_min && strf::compare(width_t(2), 3u) < 0 && (width_t(7) / 2).round() == 3, "");
static void body() {
    vh::section("binary", 600000, 40000000, [](vh::Rng& g, std::uint64_t) { binary(g); });
    vh::section("with integers", 800000, 40000000, [](vh::Rng& g, std::uint64_t) { switch (g.below(13)) {
        case 0: with_integer<std::int8_t>(g); break; case 1: with_integer<std::uint8_t>(g); break; case 2: with_integer<std::int16_t>(g); break; case 3: with_integer<std::uint16_t>(g); break;
        case 4: with_integer<int>(g); break; case 5: with_integer<unsigned>(g); break; case 6: with_integer<long>(g); break; case 7: with_integer<unsigned long>(g); break; case 8: with_integer<long long>(g); break; case 9: with_integer<unsigned long long>(g); break;
        case 10: with_integer<int>(g); break; case 11: with_integer<long long>(g); break; default: with_integer<char>(g); } });
    vh::section("constructors", 200000, 10000000, [](vh::Rng& g, std::uint64_t) {
        ctor(integer<std::int16_t>(g)); ctor(integer<std::uint16_t>(g)); ctor(integer<int>(g)); ctor(integer<unsigned>(g)); ctor(integer<long>(g)); ctor(integer<unsigned long>(g)); ctor(integer<long long>(g)); ctor(integer<unsigned long long>(g)); ctor(integer<std::int8_t>(g)); ctor(integer<std::uint8_t>(g));
        sat_cast(integer<int>(g)); sat_cast(integer<unsigned>(g)); sat_cast(integer<long>(g)); sat_cast(integer<unsigned long>(g)); sat_cast(integer<long long>(g)); sat_cast(integer<unsigned long long>(g));
        vh::nontrivial(g.s); });
    // every fraction with some integral parts, every integral part with some fractions, of both signs
    vh::exhaustive("roundings", 65536, [](vh::Rng&, std::uint64_t i) {
        static const q16 hi[] = {0, 1, 2, 3, 0x7E, 0xFF, 0x7FFE, 0x7FFF, -0x8000, -0x7FFF, -2, -1}, lo[] = {0, 1, 2, 0x7FFE, 0x7FFF, 0x8000, 0x8001, 0x8002, 0xFFFE, 0xFFFF};
        for (auto h : hi) unary(h * 65536 + (q16)i); for (auto l : lo) unary(((q16)i - 0x8000) * 65536 + l); vh::event("roundings"); vh::nontrivial(i); });
    vh::section("unary", 200000, 5000000, [](vh::Rng& g, std::uint64_t) { q16 a = operand(g); unary(a); vh::nontrivial(a); });
    vh::exhaustive("literals", sizeof lit::list / sizeof lit::list[0], [](vh::Rng&, std::uint64_t i) { auto& l = lit::list[i]; vh::event("literal"); vh::nontrivial(i);
        if (l.v < (q16)l.lo || l.v > (q16)l.hi) vh::violation("literal", std::string(l.s) + "_w : " + ds(l.v) + " expected " + ds(l.lo)); });
    vh::section("limits", 1, 1, [](vh::Rng&, std::uint64_t) { eq("max", width_t::max(), MX, "max"); eq("min", width_t::min(), MN, "min"); eq("width_max", strf::width_max, MX, ""); eq("width_min", strf::width_min, MN, ""); eq("default", width_t(), 0, ""); vh::nontrivial(1); });
}
VH_MAIN(body)
