// P18: scope of facets.
#include "gen.hpp"
#include <array>
#include <memory>
using namespace gen;
#ifndef CH
#define CH char
#endif
#ifndef PART
#define PART 0
#endif
#ifndef SEEDS
#define SEEDS 16
#endif
using C = CH;
using S = std::basic_string<C>;
static S num(const std::string& s) { return ascii<C>(s); }
// ---- representatives (tags) the arguments have
struct Up {}; struct Uq {}; struct UqTag {};
using Tags = std::tuple<bool, int, unsigned, long long, short, double, float, const void*, C, char32_t, strf::string_input_tag<C>, strf::string_input_tag<char16_t>, Up, UqTag, void>;
enum { tBool, tInt, tUns, tLL, tShort, tDouble, tFloat, tPtr, tChar, tC32, tStr, tStr16, tUp, tUq, tVoid, NT };
// ---- filters
template <typename T> using F0 = std::is_integral<T>;
template <typename T> using F1 = std::is_floating_point<T>;
template <typename T> using F2 = std::is_same<T, int>;
template <typename T> using F3 = std::is_same<T, double>;
template <typename T> using F4 = strf::is_string<T>;
template <typename T> using F5 = std::is_same<T, bool>;
template <typename T> using F6 = std::is_pointer<T>;
template <typename T> using F7 = std::integral_constant<bool, std::is_same<T, C>::value || std::is_same<T, char32_t>::value>;
template <typename T> using F8 = std::true_type;
template <typename T> using F9 = std::false_type;
template <typename T> using F10 = std::is_same<T, float>;
template <typename T> using F11 = std::integral_constant<bool, std::is_same<T, Up>::value || std::is_same<T, UqTag>::value || std::is_same<T, strf::string_input_tag<C>>::value>;
template <typename T> using F12 = std::integral_constant<bool, !std::is_same<T, unsigned>::value && !std::is_same<T, bool>::value>;
template <typename T> using F13 = std::is_class<T>;
constexpr int NF = 14;
template <template <class> class F, std::size_t... I> static std::vector<bool> accepts(std::index_sequence<I...>) { return { F<std::tuple_element_t<I, Tags>>::value... }; }
// ---- categories
enum { cCase, cP10, cP16, cWidth, cUser, cOver, cUser2, NC };
struct user_c { static constexpr bool constrainable = true; static auto get_default() noexcept; };
struct Uf { using category = user_c; int id; };
inline auto user_c::get_default() noexcept { return Uf{ -1 }; }
struct user2_c { static constexpr bool constrainable = true; static const auto& get_default() noexcept; };
struct Uf2 { using category = user2_c; int id; std::string text; }; // not trivially copyable
inline const auto& user2_c::get_default() noexcept { static const Uf2 d{ -1, "d" }; return d; }
struct RtWc { using category = strf::width_calculator_c; int m;
    template <typename Cs> strf::width_t char_width(Cs, typename Cs::code_unit) const { return (std::int16_t)m; }
    template <typename Cs> strf::width_t str_width(Cs, strf::width_t limit, const typename Cs::code_unit* b, const typename Cs::code_unit* e) const { strf::width_t w = (std::int16_t)(m * (e - b)); return w < limit ? w : limit; }
    template <typename Cs> auto str_width_and_pos(Cs, strf::width_t limit, const typename Cs::code_unit* b, const typename Cs::code_unit* e) const -> strf::width_and_ptr<typename Cs::code_unit> { int n = 0; int l = limit.floor(); while (b != e && (n + 1) * m <= l) { ++n; ++b; } return { (std::int16_t)(n * m), b }; } };
struct OvBool { using category = strf::printable_overrider_c<bool>; int id;
    template <typename CharT, typename Pre, typename FPack> auto make_printer(strf::tag<CharT>, Pre* pre, const FPack&, bool x) const { return strf::make_printer<CharT>(pre, strf::pack(), strf::join((CharT)'b', id, (CharT)(x ? 'y' : 'n'))); }
    template <typename CharT, typename Pre, typename FPack, typename... T> auto make_printer(strf::tag<CharT>, Pre* pre, const FPack&, strf::value_and_format<T...> x) const { return strf::make_printer<CharT>(pre, strf::pack(), strf::join((CharT)'b', id, (CharT)(x.value() ? 'Y' : 'N'))); } };
// ---- users' printables
struct UpDef { using representative = Up; using forwarded_type = Up;
    template <typename CharT, typename Pre, typename FPack> static auto make_printer(strf::tag<CharT>, Pre* pre, const FPack& fp, Up) { auto f = strf::get_facet<user_c, Up>(fp); const Uf2& f2 = strf::get_facet<user2_c, Up>(fp); return strf::make_printer<CharT>(pre, strf::pack(), strf::join((CharT)'u', f.id, (CharT)'v', f2.id)); } };
struct UqDef { using representative = UqTag; using forwarded_type = Uq;
    template <typename CharT, typename Pre, typename FPack> static auto make_printer(strf::tag<CharT>, Pre* pre, const FPack& fp, Uq) { auto f = strf::get_facet<user_c, UqTag>(fp); auto lc = strf::get_facet<strf::lettercase_c, UqTag>(fp); return strf::make_printer<CharT>(pre, strf::pack(), strf::join((CharT)'q', f.id, (CharT)(lc == strf::uppercase ? 'U' : lc == strf::mixedcase ? 'M' : 'L'))); } };
inline UpDef get_printable_def(strf::printable_tag, const Up&); 
inline UqDef get_printable_def(strf::printable_tag, const Uq&);
// ---- a pack and its model
struct Node { int kind = 0, cat = 0, id = 0; std::vector<bool> acc; std::vector<Node> ch; };
static int resolve(const Node& n, int cat, int tag) { // -1: none
    if (n.kind == 0) return n.cat == cat ? n.id : -1;
    if (n.kind == 2 && !n.acc[(std::size_t)tag]) return -1;
    for (std::size_t i = n.ch.size(); i-- > 0;) { int r = resolve(n.ch[i], cat, tag); if (r >= 0) return r; }
    return -1;
}
static std::string show_node(const Node& n) {
    static const char* cn[] = { "lettercase", "numpunct10", "numpunct16", "width", "user", "override-bool", "user2" };
    if (n.kind == 0) return vh::fmt("%s=%d", cn[n.cat], n.id);
    std::string s = n.kind == 1 ? "pack(" : "constrain<"; if (n.kind == 2) { for (bool b : n.acc) s += b ? '1' : '0'; s += ">("; }
    for (auto& c : n.ch) s += show_node(c) + ","; return s + ")";
}
static const char32_t seps[] = { U',', U'\'', U'.', U'_', U'-' };
static const char32_t pts[] = { U';', U':', U'/', U'#' };
constexpr unsigned mix(unsigned a, unsigned b) { unsigned x = a * 0x9E3779B9u + b * 0x85EBCA6Bu + 0x1234567u; x ^= x >> 15; x *= 0x2C1B3C6Du; x ^= x >> 12; x *= 0x297A2D39u; return x ^ (x >> 15); }
template <unsigned H> static auto facet(Rng& g, Node& n) {
    constexpr int c = (int)(H % (NC + 3)) >= NC ? (int)((H / 16) % 3) : (int)(H % (NC + 3)); n.kind = 0; n.cat = c;
    if constexpr (c == cCase) { n.id = (int)g.below(3); return n.id == 0 ? strf::lowercase : n.id == 1 ? strf::mixedcase : strf::uppercase; }
    else if constexpr (c == cP10) { n.id = (int)g.below(60); return strf::numpunct<10>(1 + n.id % 3).thousands_sep(seps[n.id / 3 % 5]).decimal_point(pts[n.id / 15]); }
    else if constexpr (c == cP16) { n.id = (int)g.below(60); return strf::numpunct<16>(1 + n.id % 3).thousands_sep(seps[n.id / 3 % 5]).decimal_point(pts[n.id / 15]); }
    else if constexpr (c == cWidth) { n.id = (int)g.below(3) + 1; return RtWc{ n.id }; }
    else if constexpr (c == cUser) { n.id = (int)g.below(1000); return Uf{ n.id }; }
    else if constexpr (c == cOver) { n.id = (int)g.below(1000); return OvBool{ n.id }; }
    else { n.id = (int)g.below(1000); return Uf2{ n.id, std::string(40, 'x') }; }
}
template <unsigned H, typename X> static auto constrained(Node& n, X x) {
    n.kind = 2;
#define K(i) else if constexpr (H % NF == i) { n.acc = accepts<F##i>(std::make_index_sequence<NT>{}); return strf::constrain<F##i>(std::move(x)); }
    if constexpr (false) return 0; K(0) K(1) K(2) K(3) K(4) K(5) K(6) K(7) K(8) K(9) K(10) K(11) K(12) K(13)
#undef K
}
template <unsigned H, int D> static auto fpe(Rng& g, Node& n) {
    constexpr unsigned k = H % 10, r = mix(H, 77);
    if constexpr (D == 0 || k < 3) return facet<r>(g, n);
    else if constexpr (k < 7) {
        n.kind = 1; n.ch.resize(r % 5);
        // lvalues, const lvalues and rvalues
        if constexpr (r % 5 == 0) return strf::pack();
        else if constexpr (r % 5 == 1) return strf::pack(fpe<mix(H, 1), D - 1>(g, n.ch[0]));
        else if constexpr (r % 5 == 2) { const auto a = fpe<mix(H, 1), D - 1>(g, n.ch[0]); auto b = fpe<mix(H, 2), D - 1>(g, n.ch[1]); return strf::pack(a, b); }
        else if constexpr (r % 5 == 3) { auto a = fpe<mix(H, 1), D - 1>(g, n.ch[0]); auto b = fpe<mix(H, 2), D - 1>(g, n.ch[1]); return strf::pack(a, std::move(b), fpe<mix(H, 3), D - 1>(g, n.ch[2])); }
        else { auto a = fpe<mix(H, 1), D - 1>(g, n.ch[0]); auto b = fpe<mix(H, 2), D - 1>(g, n.ch[1]); auto c = fpe<mix(H, 3), D - 1>(g, n.ch[2]); const auto d = fpe<mix(H, 4), D - 1>(g, n.ch[3]); return strf::pack(a, b, c, d); }
    }
    else { n.ch.resize(1); auto x = fpe<mix(H, 5), D - 1>(g, n.ch[0]); return constrained<mix(H, 6)>(n, std::move(x)); }
}
// ---- probes: an argument and what it must print under the facets in scope
struct Scope { std::vector<const Node*> v; int operator()(int cat, int tag) const { for (std::size_t i = v.size(); i-- > 0;) { int r = resolve(*v[i], cat, tag); if (r >= 0) return r; } return -1; } };
static std::string cased(const std::string& lo, int c) { std::string s = lo; for (std::size_t i = 0; i < s.size(); ++i) if (c == 2 || (c == 1 && i == 0)) s[i] = (char)toupper(s[i]); return s; }
static std::string grouped(const std::string& digs, int id) { if (id < 0) return digs; std::string s; int n = 1 + id % 3; for (std::size_t i = 0; i < digs.size(); ++i) { if (i && (int)(digs.size() - i) % n == 0) s += (char)seps[id / 3 % 5]; s += digs[i]; } return s; }
static std::string upper(std::string s) { for (auto& c : s) c = (char)toupper(c); return s; }
static std::string right(const std::string& s, int w, int total) { return w < total ? std::string((std::size_t)(total - w), ' ') + s : s; }
template <typename A> struct Probe { A a; std::function<std::string(const Scope&)> want; };
template <typename A> static Probe<A> probe(A a, std::function<std::string(const Scope&)> w) { return { std::move(a), std::move(w) }; }
// hexadecimal digits: mixed case has upper digits behind a lower prefix
static std::string hexs(unsigned long long v, int lc, int p16, bool pre) { char b[32]; snprintf(b, 32, lc > 0 ? "%llX" : "%llx", v); return (pre ? lc == 2 ? "0X" : "0x" : "") + grouped(b, p16); }
template <unsigned K> static auto mk(Rng& g) {
    if constexpr (K == 0) { bool b = g.coin(); return probe(b, [b](const Scope& s) { int o = s(cOver, tBool); if (o >= 0) return "b" + std::to_string(o) + (b ? "y" : "n"); return cased(b ? "true" : "false", s(cCase, tBool)); }); }
    else if constexpr (K == 1) { int n = (int)g.range(0, 2000000000); return probe(*strf::hex(n), [n](const Scope& s) { return hexs((unsigned)n, s(cCase, tInt), -1, true); }); }
    else if constexpr (K == 2) { int n = (int)g.range(0, 2000000000); return probe(!strf::dec(n), [n](const Scope& s) { return grouped(std::to_string(n), s(cP10, tInt)); }); }
    else if constexpr (K == 3) { unsigned n = (unsigned)g.next(); return probe(!*strf::hex(n), [n](const Scope& s) { return hexs(n, s(cCase, tUns), s(cP16, tUns), true); }); }
    else if constexpr (K == 4) { double d = g.coin() ? 1e50 : g.coin() ? HUGE_VAL : NAN; return probe(d, [d](const Scope& s) { std::string b = d == 1e50 ? "1e+50" : d > 0 ? "inf" : "nan"; int c = s(cCase, tDouble); return d == 1e50 ? (c == 2 ? upper(b) : b) : c == 1 && b == "nan" ? std::string("NaN") : cased(b, c); }); }
    else if constexpr (K == 5) { double d = (double)g.range(0, 100000000) + 0.5; return probe(!strf::fixed(d, 1), [d](const Scope& s) { char b[64]; snprintf(b, 64, "%.1f", d); std::string x(b); int p = s(cP10, tDouble); return grouped(x.substr(0, x.size() - 2), p) + (p >= 0 ? (char)pts[p / 15] : '.') + "5"; }); }
    else if constexpr (K == 6) { float d = (float)g.range(0, 100000) + 0.5f; bool sci = g.coin(); if (sci) d = 1e20f; return probe(sci ? !strf::gen(d, 0).p(2) : !strf::gen(d, 12).p(12), [d, sci](const Scope& s) { int p = s(cP10, tFloat); int c = s(cCase, tFloat); if (sci) return std::string(c == 2 ? "1E+20" : "1e+20"); char b[64]; snprintf(b, 64, "%.1f", (double)d); std::string x(b); return grouped(x.substr(0, x.size() - 2), p) + (p >= 0 ? (char)pts[p / 15] : '.') + "5"; }); }
    else if constexpr (K == 7) { std::string t((std::size_t)g.below(6), 'x'); static const S k[] = { num(""), num("x"), num("xx"), num("xxx"), num("xxxx"), num("xxxxx") }; return probe(strf::right(std::basic_string_view<C>(k[t.size()]), 12), [t](const Scope& s) { int m = s(cWidth, tStr); return right(t, (m < 0 ? 1 : m) * (int)t.size(), 12); }); }
    else if constexpr (K == 8) { int n = (int)g.below(5); return probe(strf::fmt((C)'y').multi(n) > 10, [n](const Scope& s) { int m = s(cWidth, tChar); return right(std::string((std::size_t)n, 'y'), (m < 0 ? 1 : m) * n, 10); }); }
    else if constexpr (K == 9) { int n = (int)g.below(5); return probe(strf::multi(U'z', n) > 10, [n](const Scope& s) { int m = s(cWidth, tC32); return right(std::string((std::size_t)n, 'z'), (m < 0 ? 1 : m) * n, 10); }); }
    else if constexpr (K == 10) { auto v = (std::uintptr_t)g.next(); return probe((const void*)v, [v](const Scope& s) { return hexs(v, s(cCase, tPtr), -1, true); }); }
    else if constexpr (K == 11) { return probe(Up{}, [](const Scope& s) { return "u" + std::to_string(s(cUser, tUp)) + "v" + std::to_string(s(cUser2, tUp)); }); }
    else if constexpr (K == 12) { return probe(Uq{}, [](const Scope& s) { int c = s(cCase, tUq); return "q" + std::to_string(s(cUser, tUq)) + (c == 2 ? "U" : c == 1 ? "M" : "L"); }); }
    else if constexpr (K == 13) { bool b = g.coin(); return probe(strf::fmt(b) > 8, [b](const Scope& s) { int o = s(cOver, tBool); if (o >= 0) return "b" + std::to_string(o) + (b ? "Y" : "N"); std::string x = cased(b ? "true" : "false", s(cCase, tBool)); return right(x, (int)x.size(), 8); }); }
    else if constexpr (K == 14) { auto a = std::make_shared<std::array<long long, 3>>(std::array<long long, 3>{ { g.range(0, 1000000), g.range(0, 1000000000000), 7 } }); return probe(!strf::fmt_range(*a), [a](const Scope& s) { std::string r; for (auto x : *a) r += grouped(std::to_string(x), s(cP10, tLL)); return r; }); }
    else if constexpr (K == 15) { double d = 0.1 * (double)g.range(1, 99); return probe(strf::join(!strf::hex((short)0x7BCD), *strf::sci(1e10, 1)), [d](const Scope& s) { (void)d; return hexs(0x7BCD, s(cCase, tShort), s(cP16, tShort), false) + (s(cCase, tDouble) == 2 ? "1.0E+10" : "1.0e+10"); }); }
    else if constexpr (K == 16) { auto v = (unsigned)g.next() % 2; static const std::u16string t[] = { u"ab", u"abcd" }; return probe(strf::fmt(strf::transcode(t[v])) > 12, [v](const Scope& s) { int m = s(cWidth, tStr16); std::string x = v ? "abcd" : "ab"; return right(x, (m < 0 ? 1 : m) * (int)x.size(), 12); }); }
    else { double d = (double)g.range(2, 50); return probe(strf::hex(d + 0.6875), [d](const Scope& s) { char b[64]; int c = s(cCase, tDouble); snprintf(b, 64, c == 2 ? "%A" : "%a", d + 0.6875); if (c == 1) for (char* p = b + 2; *p != 'p'; ++p) *p = (char)toupper(*p); return std::string(b); }); }
}
constexpr unsigned NK = 18;
static S wants(const std::string& s) { return num(s); }
template <unsigned H> static void scopes(Rng& g) {
    Node n1, n2, n3, n4; n1.kind = 1;
    auto f1 = fpe<mix(H, 11), 3>(g, n1); auto f2 = fpe<mix(H, 12), 2>(g, n2); auto f3 = fpe<mix(H, 13), 2>(g, n3); const auto f4 = fpe<mix(H, 14), 1>(g, n4);
    auto a = mk<mix(H, 21) % NK>(g); auto b = mk<mix(H, 22) % NK>(g); auto c = mk<mix(H, 23) % NK>(g); auto d = mk<mix(H, 24) % NK>(g);
    Scope s0, s1, s12, s123, s14; s1.v = { &n1 }; s12.v = { &n1, &n2 }; s123.v = { &n1, &n2, &n3 }; s14.v = { &n1, &n4 };
    std::string ref; S got; const char* place = "";
    TinyDst<C> dst(g.next(), g.below(70));
    const C bar = (C)'|';
    switch (g.below(7)) {
        case 0: place = "nested with"; ref = a.want(s1) + "|" + b.want(s12) + "|" + a.want(s123) + "|" + c.want(s12) + "|" + b.want(s1);
            strf::to(dst).with(f1)(a.a, bar, strf::with(f2)(b.a, bar, strf::with(f3)(a.a), bar, c.a), bar, b.a); break;
        case 1: place = "several facets in one with"; ref = a.want(s12) + "|" + d.want(s12); strf::to(dst).with(f1, f2)(a.a, bar, d.a); break;
        case 2: { place = "chained with"; ref = c.want(s14) + "|" + b.want(s14); strf::to(dst).with(f1).with(f4)(c.a, bar, b.a); break; }
        case 3: { place = "join and inner with"; ref = "<" + b.want(s14) + a.want(s1) + ">|" + a.want(s1);
            strf::to(dst).with(f1)(strf::join((C)'<', strf::with(f4)(b.a), a.a, (C)'>'), bar, a.a); break; }
        case 4: { place = "reserve_calc"; ref = b.want(s1) + "|" + c.want(s12) + "|" + b.want(s1); got = strf::to_basic_string<C>.with(f1).reserve_calc()(b.a, bar, strf::with(f2)(c.a), bar, b.a); break; }
        case 5: { place = "tr"; ref = d.want(s1) + "|" + a.want(s14) + "|" + d.want(s1); strf::to(dst).with(f1).tr(num("{}|{}|{0}"), d.a, strf::with(f4)(a.a)); break; }
        default: { place = "next print has defaults"; ref = b.want(s1) + b.want(s0) + "|" + d.want(s0); strf::to(dst).with(f1)(b.a); strf::to(dst)(b.a, bar, d.a); }
    }
    if (got.empty()) got = dst.finish();
    vh::event(place);
    std::string facets = show_node(n1) + " ; " + show_node(n2) + " ; " + show_node(n3) + " ; " + show_node(n4);
    if (got != wants(ref)) {
        // the one known deviation: unformatted doubles look for the lettercase of float
        auto as_float = [](Node n, auto&& self) -> Node { if (n.kind == 2) n.acc[tDouble] = n.acc[tFloat]; for (auto& x : n.ch) x = self(x, self); return n; };
        bool known = false;
        if constexpr (mix(H, 21) % NK == 4 || mix(H, 22) % NK == 4 || mix(H, 23) % NK == 4 || mix(H, 24) % NK == 4) {
            Node m1 = as_float(n1, as_float), m2 = as_float(n2, as_float), m3 = as_float(n3, as_float), m4 = as_float(n4, as_float);
            // only unformatted doubles are given the altered facets
            Scope k1, k12, k123, k14; k1.v = { &m1 }; k12.v = { &m1, &m2 }; k123.v = { &m1, &m2, &m3 }; k14.v = { &m1, &m4 };
            auto w = [&](auto kk, auto& p, const Scope& s, const Scope& k) { return p.want(decltype(kk)::value == 4 ? k : s); };
            std::integral_constant<unsigned, mix(H, 21) % NK> ka; std::integral_constant<unsigned, mix(H, 22) % NK> kb; std::integral_constant<unsigned, mix(H, 23) % NK> kc; std::integral_constant<unsigned, mix(H, 24) % NK> kd;
            std::string p = place, r;
            if (p == "nested with") r = w(ka, a, s1, k1) + "|" + w(kb, b, s12, k12) + "|" + w(ka, a, s123, k123) + "|" + w(kc, c, s12, k12) + "|" + w(kb, b, s1, k1);
            else if (p == "several facets in one with") r = w(ka, a, s12, k12) + "|" + w(kd, d, s12, k12);
            else if (p == "chained with") r = w(kc, c, s14, k14) + "|" + w(kb, b, s14, k14);
            else if (p == "join and inner with") r = "<" + w(kb, b, s14, k14) + w(ka, a, s1, k1) + ">|" + w(ka, a, s1, k1);
            else if (p == "reserve_calc") r = w(kb, b, s1, k1) + "|" + w(kc, c, s12, k12) + "|" + w(kb, b, s1, k1);
            else if (p == "tr") r = w(kd, d, s1, k1) + "|" + w(ka, a, s14, k14) + "|" + w(kd, d, s1, k1);
            else r = w(kb, b, s1, k1) + b.want(s0) + "|" + d.want(s0);
            known = got == wants(r);
        }
        vh::violation(known ? "unformatted-double-takes-lettercase-constrained-to-float" : "facets", std::string(place) + " printed " + vh::show(got) + " expected " + vh::show(ref) + " with " + facets);
    }
    vh::nontrivial(vh::hash_of(got, facets));
    if (vh::want_sample()) vh::sample(std::string(place) + " " + facets.substr(0, 200) + " -> " + vh::show(got, 80));
}
// ---- get_facet directly: deeper packs, every tag
template <typename Fp, std::size_t... I> static void all_tags(const Fp& fp, const Node& n, std::index_sequence<I...>) {
    auto one = [&](auto tagp, int t) { using T = std::remove_pointer_t<decltype(tagp)>;
        auto judge = [&](int cat, int got) { int w = resolve(n, cat, t); if (got != w) vh::violation("get_facet", vh::fmt("tag %d category %d: got %d expected %d in ", t, cat, got, w) + show_node(n)); };
        judge(cUser, strf::get_facet<user_c, T>(fp).id); judge(cUser2, strf::get_facet<user2_c, T>(fp).id);
        { auto l = strf::get_facet<strf::lettercase_c, T>(fp); int w = resolve(n, cCase, t); if (l != (w == 2 ? strf::uppercase : w == 1 ? strf::mixedcase : strf::lowercase)) vh::violation("get_facet", vh::fmt("tag %d lettercase, expected %d in ", t, w) + show_node(n)); }
        vh::event("get_facet", 3);
    };
    (one((std::conditional_t<std::is_void<std::tuple_element_t<I, Tags>>::value, void, std::tuple_element_t<I, Tags>>*)nullptr, (int)I), ...);
}
template <unsigned H> static void packs(Rng& g) {
    Node n; n.kind = 1; n.ch.resize(2);
    auto a = fpe<mix(H, 31) / 10 * 10 + 4, 4>(g, n.ch[0]); auto b = fpe<mix(H, 32) / 10 * 10 + 8, 3>(g, n.ch[1]);
    auto p = strf::pack(a, b); const auto q = p; auto r = std::move(p);
    all_tags(q, n, std::make_index_sequence<NT>{}); if (g.coin()) all_tags(r, n, std::make_index_sequence<NT>{});
    vh::nontrivial(vh::hash_of(show_node(n)));
}
static void run() {
    std::string cn = cname<C>::v;
    auto each = [&]<unsigned... I>(std::integer_sequence<unsigned, I...>) {
        ([&] { constexpr unsigned h = (unsigned)PART * 1000 + I;
            vh::section(vh::fmt("scope-%u-%s", h, cn.c_str()).c_str(), 600, 40000, [](Rng& g, std::uint64_t) { scopes<mix(h, 1)>(g); });
            vh::section(vh::fmt("get_facet-%u-%s", h, cn.c_str()).c_str(), 40, 2000, [](Rng& g, std::uint64_t) { packs<mix(h, 2)>(g); }); }(), ...);
    };
    each(std::make_integer_sequence<unsigned, SEEDS>{});
}
VH_MAIN(run)
