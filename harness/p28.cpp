// P28: the same programs in every build configuration.  Written in C++14 (vh.hpp
// needs fold expressions, which both compilers take in C++14 mode); every random
// draw is sequenced, so that each build prints exactly the same things.  Each case
// appends "section index digest text" to the file "digests"; the driver compares them.
#include "vh.hpp"
#if !defined(STRF_FREESTANDING)
#  include <strf/all.hpp>
#  define HOSTED 1
#else
#  include <strf.hpp>
#  include <strf/iterator.hpp>
#endif
#include <cmath>
#include <list>
#include <array>
#if __cplusplus >= 201703L
#  include <string_view>
#endif
using vh::Rng;
#if __WCHAR_WIDTH__ == 16
// -fshort-wchar (and STRF_FREESTANDING): the standard library's wide strings are for the other wchar_t
template <typename C> struct VStr {
    std::vector<C> v{ C() };
    VStr() = default;
    VStr& operator+=(C c) { v.back() = c; v.push_back(C()); return *this; }
    VStr& operator+=(const VStr& o) { append(o.data(), o.data() + o.size()); return *this; }
    void append(const C* b, const C* e) { for (; b != e; ++b) *this += *b; }
    bool empty() const { return size() == 0; }
    std::size_t size() const { return v.size() - 1; }
    const C* data() const { return v.data(); }
    const C* c_str() const { return v.data(); }
    C& operator[](std::size_t i) { return v[i]; }
    void erase(std::size_t i, std::size_t) { v.erase(v.begin() + (std::ptrdiff_t)i); }
    const C* begin() const { return data(); }
    const C* end() const { return data() + size(); }
};
template <typename C> struct StrOf { using type = std::basic_string<C>; };
template <> struct StrOf<wchar_t> { using type = VStr<wchar_t>; };
#else
template <typename C> struct StrOf { using type = std::basic_string<C>; };
#endif
template <typename C> using Str = typename StrOf<C>::type;

#ifndef CH
#  define CH char
#endif
#ifndef PARTS
#  define PARTS 0xFFFF
#endif
#ifndef STRTAG
#  define STRTAG CH
#endif
#define STR1(x) #x
#define STR(x) STR1(x)

static FILE* digests;

// ---------------------------------------------------------------- record of one case
struct Rec {
    std::uint64_t h = 99;
    std::string text;
    template <typename C> void units(const char* what, const C* p, std::size_t n) {
        h = vh::hash_bytes(what, strlen(what), h);
        // values, so that wchar_t and charN_t of any signedness digest alike
        for (std::size_t i = 0; i < n; ++i) {
            std::uint32_t u = sizeof(C) == 1 ? (std::uint32_t)(unsigned char)p[i] : sizeof(C) == 2 ? (std::uint32_t)(std::uint16_t)p[i] : (std::uint32_t)p[i];
            h = vh::mix(h ^ u);
        }
        h = vh::mix(h ^ n);
        if (text.size() < 900) text += std::string(what) + vh::show(p, n, 200) + " ";
    }
    void num(const char* what, long long v) {
        h = vh::mix(vh::hash_bytes(what, strlen(what), h) ^ (std::uint64_t)v);
        if (text.size() < 900) text += std::string(what) + std::to_string(v) + " ";
    }
};

// ---------------------------------------------------------------- generators, one draw a statement
static char32_t scalar(Rng& g) {
    static const char32_t edge[] = { 0x20, 0x2D, 0x39, 0x41, 0x7F, 0x80, 0xA0, 0xE9, 0xFF, 0x152, 0x3A9, 0x7FF, 0x800, 0x2014, 0x20AC, 0xD7FF, 0xE000, 0xFFFD, 0xFFFF, 0x10000, 0x1F600, 0x10FFFF, 0x301, 0xAC00, 0x4E00, 0x1F1E6, 0x200D };
    auto k = g.below(6);
    if (k < 2) return g.pick(edge);
    if (k < 4) return (char32_t)g.range(0x20, 0x7E);
    if (k == 4) return (char32_t)g.range(0x80, 0x7FF);
    char32_t c = (char32_t)g.range(0x800, 0x10FFFF);
    return c >= 0xD800 && c < 0xE000 ? U'z' : c;
}
template <typename C, typename S> static void put_cp(S& o, char32_t c) {
    if (sizeof(C) == 4) o += (C)c;
    else if (sizeof(C) == 2) {
        if (c < 0x10000) o += (C)c;
        else { o += (C)(0xD800 + ((c - 0x10000) >> 10)); o += (C)(0xDC00 + ((c - 0x10000) & 0x3FF)); }
    } else {
        if (c < 0x80) o += (C)c;
        else if (c < 0x800) { o += (C)(0xC0 | (c >> 6)); o += (C)(0x80 | (c & 63)); }
        else if (c < 0x10000) { o += (C)(0xE0 | (c >> 12)); o += (C)(0x80 | ((c >> 6) & 63)); o += (C)(0x80 | (c & 63)); }
        else { o += (C)(0xF0 | (c >> 18)); o += (C)(0x80 | ((c >> 12) & 63)); o += (C)(0x80 | ((c >> 6) & 63)); o += (C)(0x80 | (c & 63)); }
    }
}
template <typename C> static Str<C> text(Rng& g, std::size_t maxlen = 90) {
    Str<C> s;
    auto n = g.below(4) == 0 ? g.below(maxlen) : g.below(16);
    bool plain = g.coin();
    while (n--) { char32_t c = scalar(g); if (plain) c = U' ' + c % 94; put_cp<C>(s, c); }
    return s;
}
// damage that does not depend on how the text was cut: both wchar_t of two and four bytes get the same damage
template <typename C> static Str<C> bad_text(Rng& g) {
    auto s = text<C>(g);
    auto a = g.next(); auto b = g.next();
    if (!s.empty() && (a & 1)) s.erase(b % s.size(), 1);
    else if (!s.empty()) s[b % s.size()] = (C)(a >> 8);
    return s;
}
static strf::width_t width(Rng& g) {
    auto k = g.below(4); auto w = (std::int32_t)g.range(-3, k == 0 ? 150 : 24); auto f = (std::int32_t)g.below(65536);
    return strf::width_t::from_underlying(w * 65536 + (k == 1 ? f : 0));
}
static std::uint64_t magn(Rng& g) {
    auto k = g.below(4); auto r = g.next(); auto s = g.below(64);
    if (k == 0) return r % 1000;
    if (k == 1) { std::uint64_t v = 1; for (auto n = s % 20; n; --n) v *= 10; return v - (r & 1); }
    if (k == 2) return (std::uint64_t)1 << s;
    return r >> s;
}
static double dbl(Rng& g) {
    auto k = g.below(6); auto r = g.next(); auto s = (int)g.range(-60, 60);
    double d;
    if (k == 0) { memcpy(&d, &r, 8); return d; }
    if (k == 1) return (double)((long long)(r % 2000001) - 1000000);
    if (k == 2) return (double)((long long)(r % 2000001) - 1000000) / 1024.0;
    if (k == 3) { static const double e[] = { 0.0, -0.0, 1e22, 1e23, 5e-324, 1.7976931348623157e308, HUGE_VAL, -HUGE_VAL, 0.1, 0.3, 123456789012345680.0, 1e-5, 1e5, 9007199254740993.0 }; return e[r % 14]; }
    if (k == 4) return std::ldexp((double)(r >> 40), s);
    return (double)(r >> 11) * std::ldexp(1.0, s);
}
static strf::digits_grouping grouping(Rng& g) {
    switch (g.below(4)) {
        case 0: return strf::digits_grouping(3);
        case 1: return strf::digits_grouping("\3\2");
        case 2: return strf::digits_grouping("\1\2\3\4");
        default: return strf::digits_grouping("\2\5\1");
    }
}
static strf::lettercase lcase(Rng& g) {
    auto k = g.below(3);
    return k == 0 ? strf::lowercase : k == 1 ? strf::mixedcase : strf::uppercase;
}

// ---------------------------------------------------------------- printing
#ifdef HOSTED
#  define V(s) (s)
#else
template <typename C> static strf::detail::simple_string_view<C> V(const std::basic_string<C>& s) { return { s.data(), s.size() }; }
#if __WCHAR_WIDTH__ == 16
template <typename C> static strf::detail::simple_string_view<C> V(const VStr<C>& s) { return { s.data(), s.size() }; }
#endif
#endif
template <typename C> struct Dst final : strf::destination<C> {
    C buf[strf::min_destination_buffer_size];
    Str<C> out;
    Dst(std::size_t first) : strf::destination<C>(buf, first) {}
    void recycle() override { out.append(buf, this->buffer_ptr()); this->set_buffer_ptr(buf); this->set_buffer_end(buf + sizeof buf / sizeof buf[0]); }
    Str<C>& done() { out.append(buf, this->buffer_ptr()); this->set_buffer_ptr(buf); return out; }
};
template <typename C> struct Ctx {
    Rng& g; Rec& r;
    template <typename P, typename... A> void put(const char* what, const P& pk, const A&... a) {
        auto first = g.below(strf::min_destination_buffer_size + 1);
        auto cut = 1 + g.below(40);
        Dst<C> d(first);
        strf::to(d).with(pk)(a...);
        auto& s = d.done();
        r.units(what, s.data(), s.size());
        if (g.below(3) == 0) {
            C small[41];
            for (auto& c : small) c = (C)'#';
            auto res = strf::to(small, (std::size_t)cut).with(pk)(a...);
            r.num("trunc", res.truncated); r.num("at", res.ptr - small);
            r.units("array", small, 41);
        }
        else {
            strf::full_premeasurements pre(strf::width_max);
            strf::measure<C>(&pre, pk, a...);
            r.num("size", pre.accumulated_ssize());
            r.num("width", pre.accumulated_width().underlying_value());
#ifdef HOSTED
            auto str = strf::to_basic_string<C>.with(pk).reserve_calc()(a...);
            r.num("string", str == s);
#else
            r.num("string", 1);
#endif
        }
    }
};

template <typename C> void job_strings(Ctx<C> c) {
    auto& g = c.g;
    auto s = text<C>(g), b = bad_text<C>(g);
    auto w = width(g), p = width(g);
    auto fill = scalar(g);
    auto n = (int)g.below(70);
    auto lc = lcase(g);
    c.put("a", strf::pack(lc), V(s), (C)'x', fill, strf::multi((C)'=', n), strf::multi(fill, n / 2) > w);
    c.put("b", strf::pack(), strf::fmt(V(s)).fill(fill) > w, strf::fmt(V(s)).p(p) ^ w, strf::fmt(V(s)) < w);
    c.put("c", strf::pack(), strf::sani(V(b)), strf::fmt(strf::sani(V(b))).p(p) ^ w, strf::transcode(V(s)), strf::unsafe_transcode(V(s)));
    c.put("d", strf::pack(strf::width_as_u32len), strf::fmt(V(s)) > w, strf::fmt(V(b)).p(p));
    c.put("e", strf::pack(strf::width_as_fast_u32len), strf::fmt(V(s)) > w, strf::fmt(V(b)).p(p));
    c.put("f", strf::pack(strf::fast_width), strf::fmt(V(s)) > w);
    c.put("g", strf::pack(strf::std_width_calc), strf::fmt(V(s)) > w, strf::fmt(V(s)).p(p));
    strf::detail::simple_string_view<C> v(s.data(), s.size());
    c.put("h", strf::pack(), v, s.c_str(), strf::fmt(s.c_str()).p(p));
#if __cplusplus >= 201703L && defined(HOSTED)
    std::basic_string_view<C> sv(s);
    c.put("h2", strf::pack(), sv, strf::fmt(sv).p(p) > w);
#else
    c.put("h2", strf::pack(), V(s), strf::fmt(V(s)).p(p) > w);
#endif
}
template <typename C, typename O> void job_transcode(Ctx<C> c) {
    auto& g = c.g;
    auto s = bad_text<O>(g);
    auto w = width(g), p = width(g);
    c.put("a", strf::pack(), strf::transcode(V(s)), strf::transcode(V(s)) > w, strf::fmt(strf::transcode(V(s))).p(p) ^ w);
    auto t = text<O>(g);
    c.put("b", strf::pack(), strf::unsafe_transcode(V(t)), strf::fmt(strf::unsafe_transcode(V(t))).p(p) > w);
}
template <typename C, typename I> void job_int(Ctx<C> c) {
    auto& g = c.g;
    auto m = magn(g); auto neg = g.coin();
    I x = (I)(neg ? 0 - m : m);
    auto w = width(g); auto fill = scalar(g); auto sep = scalar(g);
    int p = (int)g.below(70), z = (int)g.below(90);
    auto gr10 = grouping(g); auto gr16 = grouping(g);
    auto lc = lcase(g);
    c.put("a", strf::pack(lc), x, strf::fmt(x), strf::hex(x), *strf::hex(x), strf::oct(x), *strf::oct(x), strf::bin(x), *strf::bin(x));
    c.put("b", strf::pack(lc), +strf::dec(x).p(p), (~strf::fmt(x).fill(fill) ^ w), *strf::hex(x).pad0(z), strf::bin(x).p(p) > w, strf::fmt(x).pad0(z));
    c.put("c", strf::pack(strf::numpunct<10>(gr10).thousands_sep(sep), strf::numpunct<16>(gr16).thousands_sep(sep), strf::numpunct<2>(4).thousands_sep(U'\''), strf::numpunct<8>(gr10)),
          !strf::fmt(x), !*strf::hex(x), (!strf::bin(x).p(p) ^ w), !strf::oct(x), (!+strf::fmt(x).pad0(z).fill(fill) < w));
}
template <typename C, typename F> void job_float(Ctx<C> c) {
    auto& g = c.g;
    F x = (F)dbl(g);
    auto w = width(g); auto fill = scalar(g); auto sep = scalar(g); auto pt = scalar(g);
    int p = (int)g.below(5) ? (int)g.below(20) : (int)g.below(400), z = (int)g.below(60);
    auto gr = grouping(g);
    auto lc = lcase(g);
    c.put("a", strf::pack(lc), x, strf::fixed(x), strf::sci(x), strf::gen(x), strf::hex(x));
    c.put("b", strf::pack(lc), strf::fixed(x, p), strf::sci(x, p), strf::gen(x, p), strf::hex(x).p(p % 20));
    c.put("c", strf::pack(lc), (+*strf::fmt(x).fill(fill) ^ w), ~strf::gen(x, p).pad0(z), *strf::fixed(x).pad0(z), (strf::sci(x).fill(fill) < w));
    c.put("d", strf::pack(strf::numpunct<10>(gr).thousands_sep(sep).decimal_point(pt), strf::numpunct<16>(3).thousands_sep(sep).decimal_point(pt), lc),
          !strf::fixed(x, p), !strf::fmt(x), (!+strf::gen(x) > w), !strf::hex(x), !strf::sci(x, p));
}
template <typename C> void job_compound(Ctx<C> c) {
    auto& g = c.g;
    auto s = text<C>(g); int n = (int)g.next(); auto w = width(g), w2 = width(g); auto fill = scalar(g); bool b = g.coin();
    auto lc = lcase(g);
    c.put("a", strf::pack(), strf::join(V(s), n, strf::fmt(V(s)) > w), (strf::join_center(w, fill))(V(s), strf::join_right(w2)(n, (C)'|', V(s))), strf::join(V(s), n) < w2, strf::join_left(w)(n));
    c.put("b", strf::pack(lc), b, strf::fmt(b) > w, strf::with(strf::mixedcase, strf::width_as_u32len)(*strf::hex(n), b, strf::fmt(V(s)) > w), *strf::hex(n));
    std::vector<int> v; for (auto k = g.below(9); k; --k) v.push_back((int)g.next());
    std::list<double> l; for (auto k = g.below(5); k; --k) l.push_back(dbl(g));
    C sep[] = { (C)',', (C)' ', C() };
    auto op = [](double x) { return strf::join((C)'<', strf::fixed(x).p(3), (C)'>'); };
    c.put("c", strf::pack(lc), strf::range(v), strf::separated_range(v, sep), +strf::fmt_separated_range(v, sep).fill(fill) > w, *strf::hex(strf::fmt_range(v)).p(4));
    c.put("d", strf::pack(), strf::separated_range(l, sep, op), (strf::sci(strf::fmt_separated_range(l, sep)).p(2) ^ w), strf::range(l.begin(), l.end()), strf::separated_range(v.begin(), v.end(), sep));
    std::array<int, 3> arr{ { n, 2, 3 } };
    int carr[] = { 4, n };
    c.put("e", strf::pack(), strf::range(arr), strf::range(carr), strf::fmt((const void*)(std::uintptr_t)(unsigned)n).fill(fill) ^ w, (const void*)(std::uintptr_t)(unsigned)n);
}
template <typename C> void job_tr(Ctx<C> c) {
    auto& g = c.g;
    Str<C> t;
    static const char* const pcs[] = { "{}", "{{", "{0}", "{1}", "{2}", "{5}", "{-note}", "{name}", "{", "}", "{ }", "x", "{10}", "{4294967296}" };
    for (auto n = g.below(9); n; --n) { for (const char* p = g.pick(pcs); *p; ++p) t += (C)*p; auto k = g.below(3); if (k == 0) t += text<C>(g); }
    auto s = text<C>(g); int n = (int)g.next(); auto w = width(g);
    c.put("a", strf::pack(), strf::tr(V(t), V(s), n, strf::fmt(V(s)) > w), strf::tr(V(t)), strf::tr(V(t), n));
    auto d = strf::pack();
    Dst<C> dst(5);
    strf::to(dst).tr(V(t), V(s), n);
    strf::to(dst).trline(V(t), n);
    strf::to(dst).line(V(s), n);
    strf::to(dst).line();
    c.r.units("e", dst.done().data(), dst.done().size());
    (void)d;
}
template <typename C> struct charset_job { static void run(Ctx<C>) {} };
template <> struct charset_job<char> {
    template <typename Cs> static void one(Ctx<char> c, const Cs& cs, const std::u32string& u, const std::string& raw, strf::width_t w, char32_t sep) {
        c.put(cs.name(), strf::pack(cs, strf::numpunct<10>(3).thousands_sep(sep).decimal_point(sep)), strf::transcode(V(u)), strf::fmt(strf::transcode(V(u))) > w, !strf::dec(1234567), !strf::fixed(1234.5), strf::sani(V(raw)), strf::multi(sep, 3));
        Dst<char16_t> d(3);
        strf::to(d)(strf::transcode(V(raw), cs), strf::fmt(strf::transcode(V(raw), cs)) > w);
        c.r.units("u16", d.done().data(), d.done().size());
    }
    static void run(Ctx<char> c) {
        auto& g = c.g;
        auto u = text<char32_t>(g); std::string raw; for (auto n = g.below(30); n; --n) raw += (char)g.next();
        auto w = width(g); auto sep = scalar(g);
        switch (g.below(12)) {
            case 0: one(c, strf::ascii<char>, u, raw, w, sep); break;
            case 1: one(c, strf::iso_8859_1<char>, u, raw, w, sep); break;
            case 2: one(c, strf::iso_8859_3<char>, u, raw, w, sep); break;
            case 3: one(c, strf::iso_8859_15<char>, u, raw, w, sep); break;
            case 4: one(c, strf::windows_1252<char>, u, raw, w, sep); break;
            case 5: one(c, strf::windows_1251<char>, u, raw, w, sep); break;
            case 6: one(c, strf::iso_8859_7<char>.to_dynamic(), u, raw, w, sep); break;
            case 7: one(c, strf::windows_1255<char>.to_dynamic(), u, raw, w, sep); break;
            case 8: one(c, strf::iso_8859_11<char>.to_dynamic(), u, raw, w, sep); break;
            case 9: one(c, strf::windows_1258<char>.to_dynamic(), u, raw, w, sep); break;
            case 10: one(c, strf::iso_8859_16<char>.to_dynamic(), u, raw, w, sep); break;
            default: one(c, strf::utf8<char>, u, raw, w, sep); break;
        }
    }
};
// ---------------------------------------------------------------- destinations
#ifdef HOSTED
template <typename C> struct Buf : std::basic_streambuf<C> {
    std::basic_string<C> got;
    using T = std::char_traits<C>;
    typename T::int_type overflow(typename T::int_type c) override { if (!T::eq_int_type(c, T::eof())) got += T::to_char_type(c); return 0; }
    std::streamsize xsputn(const C* p, std::streamsize n) override { got.append(p, (std::size_t)n); return n; }
};
static ssize_t cookie_write(void* c, const char* p, size_t n) { static_cast<std::string*>(c)->append(p, n); return (ssize_t)n; }
template <typename C> void job_dest(Ctx<C> c) {
    auto& g = c.g;
    auto s = text<C>(g, 700); int n = (int)g.next(); auto w = width(g); double d = dbl(g);
    {
        std::string file;
        cookie_io_functions_t io{}; io.write = cookie_write;
        FILE* f = fopencookie(&file, "w", io);
        auto r = strf::to<C>(f)(s, n, strf::fmt(s) > w, d);
        fclose(f);
        c.r.num("stream_size", (long long)r.count); c.r.num("success", r.success);
        c.r.units("file", reinterpret_cast<const C*>(file.data()), file.size() / sizeof(C));
    }
    {
        Buf<C> b;
        auto r = strf::to(b)(s, n, strf::fmt(s) > w, d);
        c.r.num("streambuf", (long long)r.count); c.r.num("success", r.success);
        c.r.units("sb", b.got.data(), b.got.size());
        strf::basic_string_maker<C> mk;
        strf::to(mk)(s, n, d);
        auto str = mk.finish();
        c.r.units("maker", str.data(), str.size());
        std::basic_string<C> app((std::size_t)3, (C)'.');
        strf::append(app)(n, s);
        strf::assign(str)(d, s);
        c.r.units("append", app.data(), app.size()); c.r.units("assign", str.data(), str.size());
        auto ts = strf::to_basic_string<C>(s, n);
        c.r.units("to_string", ts.data(), ts.size());
    }
}
static void job_locale(Ctx<char> c) {
    auto np = strf::locale_numpunct();
    auto x = (long long)magn(c.g); double d = dbl(c.g);
    c.put("loc", strf::pack(np), !strf::fmt(x), !strf::fixed(d));
}
#endif
template <typename C> void job_misc(Ctx<C> c) {
    auto& g = c.g;
    auto s = text<C>(g); auto n = magn(g); auto k = g.below(40);
    {
        Dst<C> d(7);
        strf::output_buffer_iterator<C> it(d);
        for (auto ch : s) *it++ = ch;
        d.write(s.data(), (std::ptrdiff_t)s.size());
        strf::put(d, (C)'!');
        d.ensure((std::ptrdiff_t)strf::min_destination_buffer_size);
        c.r.num("space", d.buffer_space() >= (std::ptrdiff_t)strf::min_destination_buffer_size);
        c.r.units("it", d.done().data(), d.done().size());
    }
    {
        C arr[48];
        for (auto& ch : arr) ch = (C)'#';
        strf::array_destination<C> d(arr, (std::size_t)(1 + k));
        strf::to(d)(V(s), n);
        auto r = d.finish();
        c.r.num("good", d.good()); c.r.num("truncated", r.truncated); c.r.num("ptr", r.ptr - arr);
        c.r.units("array", arr, 48);
        strf::discarder<C> dd;
        strf::to(dd)(V(s), n);
        c.r.num("discarder", dd.good());
    }
    {
        auto u = strf::utf<C>;
        c.r.num("count", (long long)u.count_codepoints(s.data(), s.data() + s.size(), 1000).count);
        c.r.units("name", u.name(), strlen(u.name()));
        C e[8]; auto* p = u.encode_char(e, scalar(g)); c.r.units("enc", e, (std::size_t)(p - e));
        auto w = width(g); auto w2 = width(g);
        c.r.num("w*", (w * w2).underlying_value()); c.r.num("w+", (w + w2).underlying_value()); c.r.num("round", w.round()); c.r.num("cmp", w < w2);
    }
}

// compiled, not run: documented things that have to be usable at compile time in C++14
constexpr auto cfmt = strf::hex(255u).p(4).fill(U'.') > 10;
constexpr auto cw = strf::width_t(3) + strf::width_t(2);
static_assert(cw == 5, "width_t is constexpr");
static_assert(strf::width_t(7).round() == 7, "");
constexpr auto cpunct = strf::numpunct<10>(3, 2).thousands_sep(U',').decimal_point(U';');
constexpr auto cpack = strf::pack(strf::uppercase, strf::numpunct<10>(3), strf::fast_width);
static_assert(cpunct.thousands_sep() == U',' && cpunct.decimal_point() == U';', "");
static_assert(strf::digits_grouping(3).distribute(7).highest_group == 1, "");
static_assert(strf::utf8<char>.id() == strf::csid_utf8, "");

template <typename F> static void sec(const char* tag, std::uint64_t n, F f) {
    std::string name = std::string(STR(STRTAG)) + "-" + tag;
    vh::section(name.c_str(), n, n * 12, [&](Rng& g, std::uint64_t i) {
        Rec r;
        f(g, r);
        fprintf(digests, "%s\t%llu\t%016llx\t%s\n", name.c_str(), (unsigned long long)i, (unsigned long long)r.h, r.text.c_str());
        vh::nontrivial(r.h);
        vh::event("case recorded");
        if (vh::want_sample()) vh::sample(r.text.substr(0, 300));
    });
}
static void body() {
    const char* dir = getenv("VH_TMP");
    std::string path = std::string(dir ? dir : ".") + "/digests";
    digests = fopen(path.c_str(), "w");
    if (!digests) { fprintf(stderr, "cannot write digests\n"); exit(70); }
    using C = CH;
#if PARTS & 1
    sec("strings", 500, [](Rng& g, Rec& r) { job_strings<C>(Ctx<C>{ g, r }); });
    sec("misc", 400, [](Rng& g, Rec& r) { job_misc<C>(Ctx<C>{ g, r }); });
#endif
#if PARTS & 2
    sec("transcode-same", 300, [](Rng& g, Rec& r) { job_transcode<C, C>(Ctx<C>{ g, r }); });
    sec("transcode-16", 300, [](Rng& g, Rec& r) { job_transcode<C, char16_t>(Ctx<C>{ g, r }); });
    sec("transcode-8", 300, [](Rng& g, Rec& r) { job_transcode<C, char>(Ctx<C>{ g, r }); });
    sec("transcode-32", 300, [](Rng& g, Rec& r) { job_transcode<C, char32_t>(Ctx<C>{ g, r }); });
#endif
#if PARTS & 4
    sec("int", 400, [](Rng& g, Rec& r) { job_int<C, int>(Ctx<C>{ g, r }); });
    sec("ulonglong", 400, [](Rng& g, Rec& r) { job_int<C, unsigned long long>(Ctx<C>{ g, r }); });
    sec("long", 300, [](Rng& g, Rec& r) { job_int<C, long>(Ctx<C>{ g, r }); });
    sec("short", 200, [](Rng& g, Rec& r) { job_int<C, short>(Ctx<C>{ g, r }); });
    sec("uchar", 200, [](Rng& g, Rec& r) { job_int<C, unsigned char>(Ctx<C>{ g, r }); });
#endif
#if PARTS & 8
    sec("double", 800, [](Rng& g, Rec& r) { job_float<C, double>(Ctx<C>{ g, r }); });
    sec("float", 400, [](Rng& g, Rec& r) { job_float<C, float>(Ctx<C>{ g, r }); });
#endif
#if PARTS & 16
    sec("compound", 500, [](Rng& g, Rec& r) { job_compound<C>(Ctx<C>{ g, r }); });
    sec("tr", 400, [](Rng& g, Rec& r) { job_tr<C>(Ctx<C>{ g, r }); });
#endif
#if PARTS & 32
    if (std::is_same<C, char>::value) sec("charsets", 600, [](Rng& g, Rec& r) { charset_job<C>::run(Ctx<C>{ g, r }); });
#endif
#if defined(HOSTED) && (PARTS & 64)
    sec("destinations", 200, [](Rng& g, Rec& r) { job_dest<C>(Ctx<C>{ g, r }); });
    if (std::is_same<C, char>::value) sec("locale", 50, [](Rng& g, Rec& r) { job_locale(Ctx<char>{ g, r }); });
#endif
    fclose(digests);
}
VH_MAIN(body)
