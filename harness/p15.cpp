// P15: ranges.
#include "gen.hpp"
#include <list>
#include <deque>
#include <set>
#include <map>
#include <forward_list>
#include <memory>
using namespace gen;
#ifndef CH
#define CH char
#endif
#ifndef PART
#define PART 0
#endif
#ifndef PLACES
#define PLACES 0x7F
#endif
using C = CH;
using S = std::basic_string<C>;
// one element alone
template <typename Pk, typename... A> static S alone(const Pk& pk, const A&... a) { return strf::to_basic_string<C>.with(pk).no_reserve()(a...); }
// an iterator with nothing but what a forward iterator must have, over memory that ASan watches
template <typename T> struct It {
    using iterator_category = std::forward_iterator_tag; using value_type = T; using difference_type = std::ptrdiff_t; using pointer = const T*; using reference = const T&;
    const T* p = nullptr;
    const T& operator*() const { ++derefs(); return *p; }
    const T* operator->() const { return p; }
    It& operator++() { ++p; return *this; }
    It operator++(int) { It t = *this; ++p; return t; }
    bool operator==(const It& o) const { return p == o.p; }
    bool operator!=(const It& o) const { return p != o.p; }
    static unsigned long& derefs() { static unsigned long n = 0; return n; }
};
// an iterator whose elements do not exist anywhere
struct Squares {
    using iterator_category = std::input_iterator_tag; using value_type = long; using difference_type = std::ptrdiff_t; using pointer = void; using reference = long;
    long i = 0;
    long operator*() const { return i * i; }
    Squares& operator++() { ++i; return *this; }
    Squares operator++(int) { Squares t = *this; ++i; return t; }
    bool operator==(const Squares& o) const { return i == o.i; }
    bool operator!=(const Squares& o) const { return i != o.i; }
};
template <typename T> struct Own { // a user's container
    using const_iterator = It<T>; using value_type = T;
    std::unique_ptr<T[]> d; std::size_t n;
    explicit Own(const std::vector<T>& v) : d(new T[v.size()]), n(v.size()) { std::copy(v.begin(), v.end(), d.get()); }
    It<T> begin() const { return It<T>{ d.get() }; }
    It<T> end() const { return It<T>{ d.get() + n }; }
};
static std::size_t count(Rng& g) { switch (g.below(8)) { case 0: return 0; case 1: return 1; case 2: return 2; case 3: return 20 + g.below(60); case 4: return g.chance(1, 10) ? 200 + g.below(100) : 3; default: return g.below(9); } }
static S rand_text(Rng& g, std::size_t n) { return ascii<C>([&] { std::string s; for (std::size_t i = 0; i < n; ++i) s += (char)g.range(0x20, 0x7E); return s; }()); }
// the sections of the range argument r are judged in every place an argument may be in
template <typename Pk, typename R> static void places(Rng& g, const Pk& pk, const char* kind, const std::string& what, const S& want, R&& r) {
    S got, ref = want; const char* place = "";
    S a = rand_text(g, g.below(6));
    place = "alone"; int pl = (int)g.below(9) - 2;
    if (pl < 0 || !((PLACES >> pl) & 1)) got = print<C>(g, pk, r());
    if constexpr ((PLACES >> 0) & 1) if (pl == 0) { place = "between"; got = print<C>(g, pk, a, r(), (C)'|', r()); ref = a + want + (C)'|' + want; }
    if constexpr ((PLACES >> 1) & 1) if (pl == 1) { place = "in-join"; AF al = gen_af(g, 60); if (al.fill > 0x7E) al.fill = U'~'; long w = (long)(a.size() + want.size()); if (g.coin()) al.w = strf::width_t((std::int16_t)(w + g.range(-2, 9)));
            got = print<C>(g, strf::pack(pk, strf::fast_width), strf::fmt(strf::join(a, r())).set_alignment_format(to_strf(al)));
            std::int64_t d = (std::int64_t)al.w.underlying_value() - w * 65536; int n = d > 0 ? (int)((d + 0x7FFF) >> 16) : 0, l = al.al == Al::left ? 0 : al.al == Al::right ? n : n / 2;
            ref = S((std::size_t)l, (C)al.fill) + a + want + S((std::size_t)(n - l), (C)al.fill); }
    if constexpr ((PLACES >> 2) & 1) if (pl == 2) { place = "in-with"; got = print<C>(g, strf::pack(), a, strf::with(pk)(r(), (C)'/'), a); ref = a + want + (C)'/' + a; }
    if constexpr ((PLACES >> 3) & 1) if (pl == 3) { place = "in-tr"; S t = a; for (auto& c : t) if (c == (C)'{' || c == (C)'}') c = (C)'('; S tr = t + ascii<C>("{}<{0}>{ x}"); ref = t + want + ascii<C>("<") + want + ascii<C>(">") + ascii<C>("1");
            TinyDst<C> d(g.next(), g.below(70)); strf::to(d).with(pk).tr(tr, r(), 1); got = d.finish(); if (std::string(kind).find("punct") != std::string::npos) return; }
    if constexpr ((PLACES >> 4) & 1) if (pl == 4) { place = "reserve_calc"; got = strf::to_basic_string<C>.with(pk).reserve_calc()(r(), a); ref = want + a; }
    if constexpr ((PLACES >> 5) & 1) if (pl == 5) { place = "line"; TinyDst<C> d(g.next(), g.below(70)); strf::to(d).with(pk).line(r()); got = d.finish(); ref = want + (C)'\n'; }
    if constexpr ((PLACES >> 6) & 1) if (pl == 6) { place = "measured"; strf::width_t lim = g.coin() ? strf::width_max : strf::width_t((std::int16_t)g.below(want.size() + 20));
            strf::full_premeasurements pre(lim); strf::measure<C>(&pre, strf::pack(pk, strf::fast_width), r());
            if (pre.accumulated_ssize() < (std::ptrdiff_t)want.size()) vh::violation("size", std::string(kind) + " " + what + vh::fmt(" measures %td, prints %zu", pre.accumulated_ssize(), want.size()));
            std::int64_t w = std::min<std::int64_t>(lim.underlying_value(), (std::int64_t)want.size() * 65536);
            if (pre.accumulated_width().underlying_value() != w) vh::violation("width", std::string(kind) + " " + what + vh::fmt(" measures width %d/65536 (limit %d), printed %zu", pre.accumulated_width().underlying_value(), lim.underlying_value(), want.size()));
            vh::event("measured"); return; }
    vh::event(place);
    expect_eq(got, ref, kind, std::string(kind) + " " + place + " " + what);
    vh::nontrivial(vh::hash_of(got, kind));
    if (vh::want_sample()) vh::sample(std::string(kind) + " " + place + " " + what + " -> " + vh::show(got, 60));
}
// elements printed alone, with the separator between
template <typename Seq, typename F> static S joined(const Seq& v, const S& sep, F&& one) { S r; bool first = true; for (auto&& x : v) { if (!first) r += sep; first = false; r += one(x); } return r; }
// the ranges of one sequence: F gets (kind, range maker) for many sorts of range of the elements v; sep: separated
template <typename T, typename M> static void kinds(Rng& g, const std::vector<T>& v, M&& m) {
    switch (g.below(std::is_same<T, bool>::value ? 4 : 12)) {
        case 0: m("vector", [&](auto f) { return f(v); }); return;
        case 1: { std::list<T> c(v.begin(), v.end()); m("list", [&](auto f) { return f(c); }); return; }
        case 2: { std::deque<T> c(v.begin(), v.end()); m("deque", [&](auto f) { return f(c); }); return; }
        case 3: { std::forward_list<T> c(v.begin(), v.end()); m("forward_list", [&](auto f) { return f(c); }); return; }
        default: break;
    }
    if constexpr (!std::is_same<T, bool>::value) switch (g.below(8)) {
        case 0: m("iterators", [&](auto f) { return f(v.begin(), v.end()); }); return;
        case 1: { std::list<T> c(v.begin(), v.end()); m("list-iterators", [&](auto f) { return f(c.begin(), c.end()); }); return; }
        case 2: { Own<T> c(v); m("own-container", [&](auto f) { return f(c); }); vh::event("own-iterator"); return; }
        case 3: { Own<T> c(v); m("own-iterators", [&](auto f) { return f(c.begin(), c.end()); }); return; }
        case 4: { Own<T> c(v); m("pointers", [&](auto f) { return f((const T*)c.d.get(), (const T*)c.d.get() + c.n); }); return; }
        case 5: { Own<T> c(v); m("mutable-pointers", [&](auto f) { return f(c.d.get(), c.d.get() + c.n); }); return; }
        case 6: { if (v.size() < 4) { m("vector", [&](auto f) { return f(v); }); return; } static T arr[4]; std::copy(v.begin(), v.begin() + 4, arr); m("array4", [&](auto f) { return f(arr); }); return; }
        default: { if (v.empty()) { m("vector", [&](auto f) { return f(v); }); return; } const T arr[1] = { v[0] }; m("const-array1", [&](auto f) { return f(arr); }); return; }
    }
}
// how many elements of v the kind takes
static std::size_t taken(const char* kind, std::size_t n) { return !strcmp(kind, "array4") ? 4 : !strcmp(kind, "const-array1") ? 1 : n; }
static S gen_sep(Rng& g) { switch (g.below(6)) { case 0: return S(); case 1: return S(1, (C)','); case 2: return rand_text(g, 70); case 3: return enc<C>(U"\u2014\u2014"); default: return rand_text(g, 1 + g.below(4)); } }
template <typename T> static T elem(Rng& g) {
    if constexpr (std::is_same<T, bool>::value) return g.coin();
    else if constexpr (std::is_same<T, S>::value) return rand_text(g, g.chance(1, 10) ? g.below(90) : g.below(8));
    else if constexpr (std::is_same<T, C>::value) return (C)g.range(0x20, 0x7E);
    else if constexpr (std::is_floating_point<T>::value) return g.coin() ? (T)(g.range(-100000, 100000) / 64.0) : (T)std::ldexp((double)g.range(-999, 999), (int)g.range(-60, 60));
    else return gen_int<T>(g);
}
template <typename T> static std::vector<T> elems(Rng& g) { std::vector<T> v; for (std::size_t n = count(g); n; --n) v.push_back(elem<T>(g)); return v; }
template <typename T, typename Pk> static void plain(Rng& g, const char* type, const Pk& pk) {
    auto v = elems<T>(g); bool sep = g.coin(); S sp = gen_sep(g);
    kinds<T>(g, v, [&](const char* k, auto with) {
        std::vector<T> w(v.begin(), v.begin() + (std::ptrdiff_t)taken(k, v.size()));
        S want = joined(w, sep ? sp : S(), [&](const auto& x) { return alone(pk, (T)x); });
        std::string what = std::string(type) + vh::fmt(" x%zu", w.size()) + (sep ? " sep " + vh::show(sp, 20) : std::string());
        if (w.empty()) vh::event("empty");
        if (sep) places(g, pk, k, what, want, [&] { return with([&](auto&&... r) { return strf::separated_range(r..., sp.c_str()); }); });
        else places(g, pk, k, what, want, [&] { return with([&](auto&&... r) { return strf::range(r...); }); });
    });
}
// F: applies a format to anything that has it
template <typename T, typename Pk, typename F> static void formatted(Rng& g, const char* type, const Pk& pk, F fm) {
    auto v = elems<T>(g); bool sep = g.coin(); S sp = gen_sep(g);
    kinds<T>(g, v, [&](const char* k, auto with) {
        std::vector<T> w(v.begin(), v.begin() + (std::ptrdiff_t)taken(k, v.size()));
        S want = joined(w, sep ? sp : S(), [&](const auto& x) { T y = (T)x; return alone(pk, fm(strf::fmt(y))); });
        std::string what = std::string(type) + vh::fmt(" x%zu", w.size()) + (sep ? " sep " + vh::show(sp, 20) : std::string());
        if (sep) places(g, pk, k, what, want, [&] { return with([&](auto&&... r) { return fm(strf::fmt_separated_range(r..., sp.c_str())); }); });
        else places(g, pk, k, what, want, [&] { return with([&](auto&&... r) { return fm(strf::fmt_range(r...)); }); });
    });
}
template <typename T, typename Pk, typename Op> static void transformed(Rng& g, const char* type, const Pk& pk, Op op) {
    auto v = elems<T>(g); bool sep = g.coin(); S sp = gen_sep(g);
    kinds<T>(g, v, [&](const char* k, auto with) {
        std::vector<T> w(v.begin(), v.begin() + (std::ptrdiff_t)taken(k, v.size()));
        S want = joined(w, sep ? sp : S(), [&](const auto& x) { return alone(pk, op((T)x)); });
        std::string what = std::string(type) + vh::fmt(" x%zu", w.size()) + (sep ? " sep " + vh::show(sp, 20) : std::string());
        vh::event("transformed");
        if (sep) places(g, pk, k, what, want, [&] { return with([&](auto&&... r) { return strf::separated_range(r..., sp.c_str(), op); }); });
        else places(g, pk, k, what, want, [&] { return with([&](auto&&... r) { return strf::range(r..., op); }); });
    });
}
static void one(Rng& g) {
    strf::numpunct<10> np = strf::numpunct<10>{ 3 }.thousands_sep(U'\'').decimal_point(U':');
    int w = (int)g.below(20), z = (int)g.below(14), p = (int)g.below(9); char32_t fill = g.coin() ? U'.' : U'*';
    auto empty = strf::pack();
#if PART == 0
    switch (g.below(8)) {
        case 0: plain<int>(g, "int", empty); return;
        case 1: plain<S>(g, "string", empty); return;
        case 2: plain<double>(g, "double", empty); return;
        case 3: plain<C>(g, "char", empty); return;
        case 4: plain<bool>(g, "bool", empty); return;
        case 5: formatted<unsigned long long>(g, "hex", empty, [=](auto&& f) { return *std::move(f).hex().fill(fill).p(p) > strf::width_t((std::int16_t)w); }); return;
        case 6: formatted<S>(g, "string<", empty, [=](auto&& f) { return std::move(f).fill(fill).p(strf::width_t((std::int16_t)p)) < strf::width_t((std::int16_t)w); }); return;
        default: { // elements that are made on the way
            long n = (long)count(g), from = (long)g.below(50); bool sep = g.coin(); S sp = gen_sep(g), want;
            for (long i = from; i < from + n; ++i) { if (i > from && sep) want += sp; want += ascii<C>(std::to_string(i * i)); }
            if (sep) places(g, empty, "generated", vh::fmt("%ld from %ld", n, from), want, [&] { return strf::separated_range(Squares{ from }, Squares{ from + n }, sp.c_str()); });
            else places(g, empty, "generated", vh::fmt("%ld from %ld", n, from), want, [&] { return strf::range(Squares{ from }, Squares{ from + n }); });
            return; }
    }
#elif PART == 1
    switch (g.below(6)) {
        case 0: formatted<int>(g, "+!pad0-punct", strf::pack(np), [=](auto&& f) { return +!std::move(f).pad0(z).fill(fill) ^ strf::width_t((std::int16_t)w); }); return;
        case 1: formatted<double>(g, "fixed-punct", strf::pack(np), [=](auto&& f) { return !*std::move(f).fixed().p(p).fill(fill) > strf::width_t((std::int16_t)w); }); return;
        case 2: formatted<C>(g, "char*", empty, [=](auto&& f) { return std::move(f).multi(p - 2).fill(fill) ^ strf::width_t((std::int16_t)w); }); return;
        case 3: formatted<bool>(g, "bool^", empty, [=](auto&& f) { return std::move(f).fill(fill) ^ strf::width_t((std::int16_t)w); }); return;
        case 4: formatted<signed char>(g, "bin", empty, [=](auto&& f) { return std::move(f).bin().pad0(z); }); return;
        default: plain<long>(g, "long", strf::pack(strf::uppercase, np)); return;
    }
#else
    switch (g.below(7)) {
        case 0: transformed<int>(g, "x->hex(x)", empty, [=](int x) { return *strf::hex(x) > strf::width_t((std::int16_t)w); }); return;
        case 1: transformed<int>(g, "x->join", empty, [](int x) { return strf::join((C)'<', x, (C)'>'); }); return;
        case 2: transformed<S>(g, "s->fmt(s)", empty, [=](const S& s) { return strf::fmt(s).p(strf::width_t((std::int16_t)p)) > strf::width_t((std::int16_t)w); }); return;
        case 3: transformed<int>(g, "x->string", empty, [](int x) { return ascii<C>("v" + std::to_string(x)); }); return;
        case 4: transformed<int>(g, "x->with-punct", strf::pack(np), [=](int x) { return strf::with(np)(!strf::fmt(x)); }); return;
        case 5: { // ranges of ranges
            std::vector<std::vector<int>> vv; for (std::size_t n = count(g) % 30; n; --n) vv.push_back(elems<int>(g));
            S s1 = gen_sep(g), s2 = gen_sep(g), want; bool first = true;
            for (auto& v : vv) { if (!first) want += s2; first = false; want += joined(v, s1, [&](int x) { return ascii<C>(std::to_string(x)); }); }
            places(g, empty, "nested", vh::fmt("%zu", vv.size()), want, [&] { return strf::separated_range(vv, s2.c_str(), [&s1](const std::vector<int>& v) { return strf::separated_range(v, s1.c_str()); }); });
            return; }
        default: { // a map and a set
            std::map<int, S> m; for (std::size_t n = count(g); n; --n) m[(int)g.range(-500, 500)] = rand_text(g, g.below(5));
            std::set<int> st; for (auto& x : m) st.insert(x.first);
            S sp = gen_sep(g);
            if (g.coin()) places(g, empty, "map", vh::fmt("%zu", m.size()), joined(m, sp, [&](const auto& x) { return ascii<C>(std::to_string(x.first) + "=") + x.second; }), [&] { return strf::separated_range(m, sp.c_str(), [](const std::pair<const int, S>& x) { return strf::join(x.first, (C)'=', x.second); }); });
            else places(g, empty, "set", vh::fmt("%zu", st.size()), joined(st, sp, [&](int x) { S s = ascii<C>(std::to_string(x)); return s.size() < 5 ? S(5 - s.size(), (C)'_') + s : s; }), [&] { return strf::fmt_separated_range(st, sp.c_str()).fill(U'_') > strf::width_t(5); });
            return; }
    }
#endif
}
static void lists(Rng& g) {
    int a = gen_int<int>(g), b = gen_int<int>(g), c = gen_int<int>(g); const C sp[] = { ',', ' ', 0 };
    auto T = [](int x) { return ascii<C>(std::to_string(x)); };
    auto op = [](int x) { return strf::hex(x); };
    auto H = [&](int x) { return alone(strf::pack(), strf::hex(x)); };
    S s(sp);
    struct { const char* k; S got, want; } r[] = {
        { "range(list)", print<C>(g, strf::pack(), strf::range({ a, b, c })), T(a) + T(b) + T(c) },
        { "separated_range(list)", print<C>(g, strf::pack(), strf::separated_range({ a, b, c }, sp)), T(a) + s + T(b) + s + T(c) },
        { "fmt_range(list)", print<C>(g, strf::pack(), strf::fmt_range({ a, b, c }).hex()), H(a) + H(b) + H(c) },
        { "fmt_separated_range(list)", print<C>(g, strf::pack(), strf::fmt_separated_range({ a, b, c }, sp).hex()), H(a) + s + H(b) + s + H(c) },
        { "range(list, op)", print<C>(g, strf::pack(), strf::range({ a, b, c }, op)), H(a) + H(b) + H(c) },
        { "separated_range(list, op)", print<C>(g, strf::pack(), strf::separated_range({ a, b, c }, sp, op)), H(a) + s + H(b) + s + H(c) },
    };
    for (auto& x : r) expect_eq(x.got, x.want, x.k, vh::fmt("%s of %d %d %d", x.k, a, b, c));
    vh::event("initializer-lists"); vh::nontrivial(vh::hash_of(a, b, c));
}
static void run() {
    std::string cn = cname<C>::v;
    vh::section(vh::fmt("ranges%d-%s", PART, cn.c_str()).c_str(), 25000, 1500000, [](Rng& g, std::uint64_t) { one(g); });
    if (PART == 0) vh::section(("lists-" + cn).c_str(), 1000, 30000, [](Rng& g, std::uint64_t) { lists(g); });
}
VH_MAIN(run)
