// P26: locale_numpunct() describes the C locale, whatever localeconv() and nl_langinfo() give.
#include "grp.hpp"
#include <strf/locale.hpp>
#include <strf/to_string.hpp>
#include <clocale>
#include <langinfo.h>
#include <dlfcn.h>
#include <memory>
#include <climits>
using namespace gen;
static const std::map<std::string, std::vector<char32_t>> tables = {
#define SB(n) {#n, {
#define SB_END }},
#include "sb_tables.inc"
#undef SB
#undef SB_END
};
static struct lconv* fake_conv; static const char* fake_codeset; static unsigned conv_calls, codeset_calls;
extern "C" struct lconv* localeconv() noexcept { ++conv_calls; if (fake_conv) return fake_conv; return ((struct lconv* (*)())dlsym(RTLD_NEXT, "localeconv"))(); }
extern "C" char* nl_langinfo(nl_item it) noexcept { ++codeset_calls; if (fake_conv) return const_cast<char*>(it == CODESET ? fake_codeset : ""); return ((char* (*)(nl_item))dlsym(RTLD_NEXT, "nl_langinfo"))(it); }
// text in exact-size heap blocks
template <typename C> struct Z { std::unique_ptr<C[]> p; explicit Z(const std::basic_string<C>& s) : p(new C[s.size() + 1]) { std::copy(s.begin(), s.end(), p.get()); p[s.size()] = 0; } C* c() { return p.get(); } };
static char32_t table(const std::string& cs, unsigned char b) { char32_t x = tables.at(cs == "ISO-8859-1" ? "iso_8859_1" : cs == "ISO-8859-3" ? "iso_8859_3" : "iso_8859_15")[b]; return x == 0xFFFF ? 0xFFFD : x; }
// first character of a non-empty string; U+FFFD if it isn't one
static bool known_charset(const std::string& cs) { return cs == "UTF-8" || cs == "ISO-8859-1" || cs == "ISO-8859-3" || cs == "ISO-8859-15"; }
static char32_t first(const std::string& cs, const std::string& s) {
    auto u = [&](std::size_t i) { return i < s.size() ? (unsigned char)s[i] : 0u; };
    unsigned c = u(0); if (c < 0x80) return c;
    if (cs != "UTF-8") return table(cs, (unsigned char)c);
    auto k = [&](std::size_t i) { return (u(i) & 0xC0) == 0x80; };
    if (c >= 0xC2 && c < 0xE0 && k(1)) return (c & 31) << 6 | (u(1) & 63);
    if (c >= 0xE0 && c < 0xF0 && k(1) && k(2)) { char32_t x = (c & 15) << 12 | (u(1) & 63) << 6 | (u(2) & 63); return x < 0x800 || (x >= 0xD800 && x < 0xE000) ? 0xFFFD : x; }
    if (c >= 0xF0 && c < 0xF5 && k(1) && k(2) && k(3)) { char32_t x = (c & 7) << 18 | (u(1) & 63) << 12 | (u(2) & 63) << 6 | (u(3) & 63); return x < 0x10000 || x > 0x10FFFF ? 0xFFFD : x; }
    return 0xFFFD;
}
// lconv::grouping; nullopt-like: too many or too large groups, which strf does not represent
static Grp grouping(const std::string& s, bool& unsupported) {
    Grp r; unsupported = false;
    for (char ch : s) { auto b = (unsigned char)ch; if (b >= 0x7F) { r.fin = true; break; } r.g.push_back(b); if (b > 31) unsupported = true; }
    if (r.g.size() > 6) unsupported = true;
    if (r.g.empty()) r.fin = false;
    return r;
}
static u32s text(const Grp& r, char32_t sep, int n) { u32s d; for (int i = 0; i < n; ++i) d += U"1234567890"[i % 10]; return r.apply(d, sep); }
// how a grouping behaves: every count of separators, and numbers printed with it
static bool same(const strf::digits_grouping& got, const Grp& want, std::string& why) {
    for (int n = 1; n <= 210; ++n) { int c = (int)want.cuts(n).size(); if (got.separators_count(n) != c || got.any_separator(n) != (c != 0)) { why = vh::fmt("%d separators in %d digits, expected %d", got.separators_count(n), n, c); return false; } }
    strf::numpunct<10> p(got); p.thousands_sep(U'_');
    for (int n : {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 13, 17, 19}) {
        unsigned long long x = 0; for (int i = 0; i < n; ++i) x = x * 10 + (unsigned)((i + 1) % 10);
        auto t = strf::to_u32string.with(p)(!strf::dec(x)); if (t != text(want, U'_', n)) { why = "prints " + vh::show(t) + " expected " + vh::show(text(want, U'_', n)); return false; }
    }
    auto t = strf::to_u32string.with(p)(!strf::fixed(1e200)); u32s d; for (auto c : t) if (c != U'_') d += c;
    if (t != want.apply(d, U'_')) { why = "prints " + vh::show(t, 300); return false; }
    if (got.empty() != want.g.empty()) { why = "empty()"; return false; }
    return true;
}
static std::string gen_str(Rng& g, const std::string& cs) {
    static const char* odd[] = {"", ".", ",", "'", " ", "\xC2\xA0", "\xE2\x80\xAF", "\xD9\xAB", "\xD9\xAC", "\xF0\x9F\x98\x80", "\xA0", "\xE2\x80", "\xC2", "\xE2", "\xF0\x9F\x98", "\xED\xA0\x80", "\xEF\xBF\xBD", "\xC0\x80", "\x80", "\xFF", "\xF4\x90\x80\x80", "\xF4\x8F\xBF\xBF", "\xEF\xBF\xBF", "\x7F", "\x01", "\xC3\xA9", "\xE0\x80\x80", "\xDF\xBF", "\xE0\xA0\x80", "\xF0\x90\x80\x80", "\xF0\x8F\xBF\xBF", "\xC1\xBF", "\xED\x9F\xBF", "\xEE\x80\x80"};
    std::string s;
    switch (g.below(4)) {
        case 0: case 1: s = odd[g.below(sizeof odd / sizeof odd[0])]; break;
        case 2: { for (unsigned n = (unsigned)g.below(5); n--;) s += (char)g.range(1, 255); break; }
        default: { char32_t x = g.coin() ? (char32_t)g.range(0x80, 0xFFFF) : (char32_t)g.range(0x10000, 0x10FFFF); if (cs == "UTF-8") { if (x >= 0xD800 && x < 0xE000) x = 0xD7FF; if (x < 0x800) { s += (char)(0xC0 | x >> 6); } else { if (x < 0x10000) s += (char)(0xE0 | x >> 12); else { s += (char)(0xF0 | x >> 18); s += (char)(0x80 | (x >> 12 & 63)); } s += (char)(0x80 | (x >> 6 & 63)); } s += (char)(0x80 | (x & 63)); } else s += (char)(0x80 | (x & 0x7F)); }
    }
    if (s.size() && g.chance(1, 3)) s += g.coin() ? "xyz" : std::string(1, (char)g.range(1, 255));
    return s;
}
static std::string gen_codeset(Rng& g) {
    static const char* known[] = {"UTF-8", "ISO-8859-1", "ISO-8859-3", "ISO-8859-15"};
    static const char* other[] = {"", "utf-8", "UTF-80", "UTF", "UTF-8 ", "ISO-8859-2", "ISO-8859-13", "ISO-8859-150", "ISO-8859-", "ISO-8859-31", "ANSI_X3.4-1968", "KOI8-R", "BIG5", "iso-8859-1"};
    return g.chance(2, 3) ? known[g.below(4)] : other[g.below(sizeof other / sizeof other[0])];
}
static std::string gen_grouping(Rng& g) {
    static const char* usual[] = {"", "\3", "\3\3", "\3\2", "\2\3", "\3\x7F", "\3\xFF", "\x7F", "\xFF", "\3\2\xFF", "\3\3\x7F", "\1", "\x1F", "\x20", "\3\x20", "\3\x7E", "\1\2\3\4\5\6", "\1\2\3\4\5\6\x7F", "\1\2\3\4\5\6\7", "\3\3\3\3\3\3\3", "\1\2\3\4\5\6\7\xFF", "\3\x80", "\x1F\x1F\x1F\x1F\x1F\x1F", "\x1F\x1F\x1F\x1F\x1F\x1F\xFF", "\2\2\2\3\3\3", "\x10\x10", "\x7F\3", "\3\x7F\2"};
    if (g.coin()) return usual[g.below(sizeof usual / sizeof usual[0])];
    std::string s; unsigned n = (unsigned)g.below(g.chance(1, 10) ? 12 : 7); for (unsigned i = 0; i < n; ++i) s += (char)(g.chance(1, 15) ? g.range(32, 126) : g.range(1, g.coin() ? 4 : 31));
    if (g.chance(1, 3)) s += g.coin() ? '\x7F' : '\xFF'; if (g.chance(1, 8)) s += (char)g.range(1, 255);
    return s;
}
static void judge(const strf::numpunct<10>& p, const std::string& cs, const std::string& dp, const std::string& ts, const std::string& gr, const char* how) {
    std::string what = std::string(how) + " codeset " + cs + " decimal_point " + vh::show(dp) + " thousands_sep " + vh::show(ts) + " grouping " + vh::show(gr) + " : ";
    bool dec_ok = dp.size() && ((unsigned char)dp[0] < 0x80 || known_charset(cs)); char32_t wd = dec_ok ? first(cs, dp) : 0xFFFD;
    vh::event(dp.empty() ? "decimal point: empty" : (unsigned char)dp[0] < 0x80 ? "decimal point: ASCII" : !dec_ok ? "decimal point: unknown charset" : wd == 0xFFFD ? "decimal point: invalid" : "decimal point: decoded");
    if (p.decimal_point() != wd) vh::violation("decimal_point", what + vh::fmt("decimal point %X expected %X", (unsigned)p.decimal_point(), (unsigned)wd));
    bool unsup; Grp want = grouping(gr, unsup); Grp none; std::string why; bool drop = false; char32_t wt = 0;
    if (want.g.size()) {
        if (ts.empty()) drop = true; else if ((unsigned char)ts[0] < 0x80) wt = (unsigned char)ts[0]; else if (!known_charset(cs)) wt = 0xA0; else { wt = first(cs, ts); if (wt == 0xFFFD) drop = true; }
        vh::event(ts.empty() ? "separator: empty" : (unsigned char)ts[0] < 0x80 ? "separator: ASCII" : !known_charset(cs) ? "separator: unknown charset" : drop ? "separator: invalid" : "separator: decoded");
    }
    if (unsup) { vh::event("grouping beyond what is supported"); if (!same(p.grouping(), none, why)) { std::string w2; bool rep = true; for (int x : want.g) if (x > 31) rep = false; if (!rep || drop || !same(p.grouping(), want, w2)) vh::violation("grouping", what + "neither given nor none: " + why); } }
    else { vh::event(want.g.empty() ? "no grouping" : drop ? "grouping dropped" : want.fin ? "grouping: last not repeated" : "grouping: last repeated"); if (!same(p.grouping(), drop ? none : want, why)) vh::violation("grouping", what + why); }
    if (!p.grouping().empty() && !drop && p.thousands_sep() != wt) vh::violation("thousands_sep", what + vh::fmt("separator %X expected %X", (unsigned)p.thousands_sep(), (unsigned)wt));
    vh::nontrivial(vh::hash_of(cs, dp, ts, gr)); if (vh::want_sample()) vh::sample(what + "as expected");
}
static void fake(Rng& g, std::uint64_t) {
    std::string cs = gen_codeset(g), dp = gen_str(g, cs), ts = gen_str(g, cs), gr = gen_grouping(g);
    if (g.chance(1, 10)) dp = ts;
    auto z = std::make_unique<lconv>(); memset(z.get(), 0x7F, sizeof(lconv));   // all the other pointers are wild
    Z<char> a(dp), b(ts), c(gr), d(cs); z->decimal_point = a.c(); z->thousands_sep = b.c(); z->grouping = c.c(); fake_conv = z.get(); fake_codeset = d.c(); conv_calls = codeset_calls = 0;
    auto p = strf::locale_numpunct(); fake_conv = nullptr;
    if (!conv_calls) vh::violation("localeconv not consulted", "localeconv not consulted");
    judge(p, cs, dp, ts, gr, "fake lconv");
    // in use, after the lconv strings have been overwritten by a later call
    memset(a.c(), 'Z', dp.size()); memset(b.c(), 'Z', ts.size()); memset(c.c(), 1, gr.size());
    auto t = strf::to_u32string.with(p)(!strf::dec(1234567890123456789ull), U' ', !strf::fixed(1.5)); bool unsup; Grp w = grouping(gr, unsup);
    if (!unsup && p.grouping().empty()) w = Grp();
    u32s e = text(w, p.thousands_sep(), 19); e[0] = e[0]; e += U' '; e += U'1'; e += p.decimal_point(); e += U'5';
    bool plain = p.decimal_point() < 0x110000; if (!unsup && plain && t != e) vh::violation("printed with it", vh::show(gr) + " prints " + vh::show(t) + " expected " + vh::show(e));
}
static void real(Rng& g, std::uint64_t) {
    static const char* names[] = {"C", "POSIX", "C.UTF-8", "en_US.UTF8", "de_DE.UTF8", "as_IN.UTF8", "en_US.utf8", "de_DE.utf8"};
    const char* n = g.pick(names), *n2 = g.pick(names); std::string ctype = g.coin() ? n : n2;
    if (!setlocale(LC_NUMERIC, n)) return; if (!setlocale(LC_CTYPE, ctype.c_str())) { setlocale(LC_ALL, "C"); return; }
    auto p = strf::locale_numpunct(); auto* l = localeconv(); std::string dp = l->decimal_point, ts = l->thousands_sep, gr = l->grouping, cs = nl_langinfo(CODESET);
    setlocale(LC_ALL, "C"); vh::event(gr.size() ? "real locale with grouping" : "real locale without grouping"); judge(p, cs, dp, ts, gr, n);
}
// the helpers of the MS-Windows implementation, which the library compiles everywhere
static void win(Rng& g, std::uint64_t) {
    std::wstring s; if (g.coin()) { Grp r = gen_grp(g, 8); for (int x : r.g) { if (s.size()) s += L';'; s += std::to_wstring(x); } if (r.fin == false && r.g.size()) s += L";0"; if (r.g.empty() && g.coin()) s = L"0"; }
    else for (unsigned n = (unsigned)g.below(10); n--;) s += g.pick(L"0123;;1239a:/\x2013\x0665"); if (g.chance(1, 5) && s.size()) s[g.below(s.size())] = g.pick(L"0;a 9"); while (s.size() && s.find(L'\0') != s.npos) s.erase(s.find(L'\0'), 1);
    // reference
    Grp r; bool ok = s.size(), rep = false; std::size_t i = 0;
    if (ok) for (;;) { std::size_t st = i; int v = 0; while (i < s.size() && i < st + 2 && s[i] >= L'0' && s[i] <= L'9') v = v * 10 + (int)(s[i++] - L'0'); if (i == st) { ok = false; break; } if (v == 0) { rep = true; if (i != s.size()) ok = false; break; } r.g.push_back(v); if (i == s.size()) break; if (s[i++] != L';') { ok = false; break; } }
    if (rep) while (r.g.size() > 1 && r.g[r.g.size() - 1] == r.g[r.g.size() - 2]) r.g.pop_back();
    bool over = false; { int cnt = 0; for (int x : r.g) { ++cnt; if (x > 31) ok = false; } over = cnt > 6; } if (!rep && over) ok = false;
    if (rep && r.g.empty()) ok = false; r.fin = !rep; if (!ok) r = Grp();
    Z<wchar_t> z(s); auto got = strf::detail::parse_win_grouping(z.c()); std::string why; Grp none;
    vh::event(ok ? "Windows grouping" : "no Windows grouping"); bool good = same(got, r, why);
    if (!good && rep && ok) { std::string w2; std::size_t total = 1; for (auto c : s) total += c == L';'; if (total > 7 && same(got, none, w2)) good = true; }   // more groups listed than it holds
    if (!good && !(over && same(got, none, why))) vh::violation("parse_win_grouping", vh::show(s) + " : " + why);
    std::wstring u; for (unsigned n = (unsigned)g.below(4); n--;) { static const wchar_t b[] = {0x2E, 0x20, 0xA0, 0xD7FF, 0xD800, 0xDBFF, 0xDC00, 0xDFFF, 0xE000, 0xFFFD, 0xFFFF, 0x202F}; u += g.coin() ? g.pick(b) : (wchar_t)g.range(1, 0xFFFF); }
    Z<wchar_t> zu(u); char32_t w = 0xFFFD; if (u.size()) { unsigned a = (unsigned)u[0], b = u.size() > 1 ? (unsigned)u[1] : 0; if (a < 0xD800 || a > 0xDFFF) w = a; else if (a < 0xDC00 && b >= 0xDC00 && b < 0xE000) w = 0x10000 + ((a - 0xD800) << 10) + (b - 0xDC00); }
    auto c = strf::detail::decode_first_char_from_utf16(zu.c()); vh::event(w >= 0x10000 ? "surrogate pair" : w == 0xFFFD ? "U+FFFD" : "UTF-16 unit"); if (c != w) vh::violation("decode_first_char_from_utf16", vh::show(u) + vh::fmt(" : %X expected %X", (unsigned)c, (unsigned)w));
    vh::nontrivial(vh::hash_of(s, u));
}
static void body() {
    static_assert(noexcept(strf::locale_numpunct()), "documented");
    vh::section("fake", 40000, 1500000, fake);
    vh::section("real", 600, 20000, real);
    vh::section("windows helpers", 25000, 1000000, win);
}
VH_MAIN(body)
