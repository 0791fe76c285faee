// Reference text of floating-point numbers, from std::to_chars digits and string arithmetic.
#ifndef FLT_HPP
#define FLT_HPP
#include "grp.hpp"
#include <charconv>
#include <cmath>
#include <cstring>
namespace gen {
enum class Nt { fixed, sci, gen, hex };
// lossy: the known finding of P09 (general with precision under operator*: zeros that rounding
// leaves at the end of the fraction are dropped)
struct FF { Nt nt = Nt::gen; int prec = -1; bool point = false, punct = false; int sign = 0; int pad0 = 0; bool lossy = false; };
// the number is digits x 10^e10; digits has neither leading nor trailing zeros, except "0" itself
struct Dec { std::string d; int e; int x() const { return e + (int)d.size() - 1; } };
template <typename F> inline Dec shortest(F v) {
    v = std::fabs(v);
    if (v == 0 || !std::isfinite(v)) return { "0", 0 };
    char b[64]; auto r = std::to_chars(b, b + 64, v, std::chars_format::scientific);
    std::string s(b, r.ptr); auto e = s.find('e');
    Dec o; o.e = atoi(s.c_str() + e + 1);
    for (char c : s.substr(0, e)) if (c != '.') o.d += c;
    o.e -= (int)o.d.size() - 1;
    while (o.d.size() > 1 && o.d.back() == '0') { o.d.pop_back(); ++o.e; }
    return o;
}
// to n significant digits (n may be <= 0), half to even
inline Dec round_to(Dec v, long n) {
    if (v.d == "0" || n >= (long)v.d.size()) return v;
    if (n < 0) return { "0", 0 };
    std::string keep = v.d.substr(0, (std::size_t)n), rest = v.d.substr((std::size_t)n);
    bool up;
    if (rest[0] != '5') up = rest[0] > '5';
    else if (rest.find_first_not_of('0', 1) != rest.npos) up = true;
    else up = !keep.empty() && (keep.back() - '0') % 2 == 1;
    int e = v.e + (int)rest.size();
    if (keep.empty()) return up ? Dec{ "1", e } : Dec{ "0", 0 };
    if (up) {
        std::size_t i = keep.size();
        while (i && keep[i - 1] == '9') keep[--i] = '0';
        if (i) ++keep[i - 1]; else keep.insert(keep.begin(), '1');
    }
    Dec o{ keep, e };
    while (o.d.size() > 1 && o.d.back() == '0') { o.d.pop_back(); ++o.e; }
    return o;
}
struct Parts { std::string ip, frac, exp; bool dot = false; bool grouped = false; std::string special; std::string prefix; };
inline std::string expo(int x, int mindig = 2) {
    std::string s = std::to_string(std::abs(x)); while ((int)s.size() < mindig) s.insert(s.begin(), '0');
    return (x < 0 ? "-" : "+") + s;
}
inline Parts lay_fixed(const Dec& v, long prec, bool point) {       // prec < 0: just the digits there are
    Parts p; p.grouped = true;
    if (v.d == "0") { p.ip = "0"; }
    else if (v.e >= 0) p.ip = v.d + std::string((std::size_t)v.e, '0');
    else {
        long nf = -v.e;
        if ((long)v.d.size() > nf) { p.ip = v.d.substr(0, v.d.size() - (std::size_t)nf); p.frac = v.d.substr(v.d.size() - (std::size_t)nf); }
        else { p.ip = "0"; p.frac = std::string((std::size_t)(nf - (long)v.d.size()), '0') + v.d; }
    }
    while ((long)p.frac.size() < prec) p.frac += '0';
    p.dot = point || !p.frac.empty();
    return p;
}
inline Parts lay_sci(const Dec& v, long prec, bool point) {
    Parts p; p.ip = v.d.substr(0, 1); p.frac = v.d.substr(1);
    while ((long)p.frac.size() < prec) p.frac += '0';
    p.dot = point || !p.frac.empty(); p.exp = "e" + expo(v.d == "0" ? 0 : v.x());
    return p;
}
inline Parts lay_hex(double v, int prec, bool point, bool is_float) {
    std::uint64_t u; memcpy(&u, &v, 8);
    std::uint64_t m = u & ((1ull << 52) - 1); int e = (int)(u >> 52 & 0x7FF);
    Parts p; p.prefix = "0x";
    std::uint64_t lead = e != 0;
    int x = e ? e - 1023 : (m ? -1022 : 0);
    int lowest = 52;
    if (is_float) {
        // float subnormals keep the exponent of their own type
        float f = (float)v; std::uint32_t w; memcpy(&w, &f, 4);
        std::uint64_t fm = w & 0x7FFFFF; int fe = (int)(w >> 23 & 0xFF);
        lead = fe != 0; x = fe ? fe - 127 : (fm ? -126 : 0); m = fm << 29;
    }
    std::uint64_t all = lead << 52 | m;
    if (prec >= 0 && prec * 4 < 52) {
        int sh = 52 - prec * 4; std::uint64_t half = 1ull << (sh - 1), rem = all & ((1ull << sh) - 1);
        all >>= sh;
        if (rem > half || (rem == half && (all & 1))) ++all;
        all <<= sh;
    }
    if (all >> 53) { all >>= 1; ++x; }    // carry out of the leading digit
    (void)lowest;
    p.ip = std::to_string(all >> 52);
    for (int i = 0; i < 13; ++i) p.frac += "0123456789abcdef"[all >> (48 - 4 * i) & 15];
    while (!p.frac.empty() && p.frac.back() == '0') p.frac.pop_back();
    while ((int)p.frac.size() < prec) p.frac += '0';
    p.dot = point || !p.frac.empty(); p.exp = "p" + expo(x, 1);
    return p;
}
template <typename F> inline Parts parts(F v, const FF& f, const Grp* grp = nullptr) {
    Parts p;
    if (std::isnan(v)) { p.special = "nan"; return p; }
    if (std::isinf(v)) { p.special = "inf"; return p; }
    if (f.nt == Nt::hex) return lay_hex((double)v, f.prec, f.point, sizeof(F) == 4);
    Dec d = shortest(v);
    if (f.nt == Nt::fixed) {
        if (f.prec >= 0 && d.d != "0") d = round_to(d, (long)d.d.size() + d.e + f.prec);
        return lay_fixed(d, f.prec, f.point);
    }
    if (f.nt == Nt::sci) {
        if (f.prec >= 0) d = round_to(d, (long)f.prec + 1);
        return lay_sci(d, f.prec, f.point);
    }
    if (f.prec < 0) {    // general: whatever is shorter
        auto a = lay_fixed(d, -1, f.point), b = lay_sci(d, -1, f.point);
        std::size_t seps = grp ? grp->cuts((int)a.ip.size()).size() : 0;
        bool fix = a.ip.size() + seps + a.dot + a.frac.size() <= b.ip.size() + b.dot + b.frac.size() + b.exp.size();
        return fix ? lay_fixed(d, -1, f.point) : lay_sci(d, -1, f.point);
    }
    int P = f.prec ? f.prec : 1;
    bool keep = f.point, rounded = (int)d.d.size() > P; int x0 = d.x();
    d = round_to(d, P);
    int x = d.d == "0" ? 0 : d.x();
    if (f.lossy && rounded && x == x0) keep = false;
    if (x >= -4 && x < P) return lay_fixed(d, keep ? P - 1 - x : -1, f.point);
    return lay_sci(d, keep ? P - 1 : -1, f.point);
}
inline std::string cased(std::string s, strf::lettercase lc, const std::string& role) {
    if (lc == strf::lowercase) return s;
    if (role == "digits") { for (auto& c : s) c = (char)toupper((unsigned char)c); return s; }
    if (role == "special") { for (auto& c : s) c = (char)toupper((unsigned char)c); if (lc == strf::mixedcase) s = s == "NAN" ? "NaN" : "Inf"; return s; }
    if (lc == strf::uppercase) for (auto& c : s) c = (char)toupper((unsigned char)c);
    return s;
}
struct FloatRef { u32s body; int width; };
struct Punct { Grp grp; char32_t sep = U','; char32_t dec = U'.', hexdec = U'.'; };
// whole text, without alignment.  fillch: what operator~ shows
template <typename F> inline u32s float_text(F v, const FF& f, strf::lettercase lc, const Punct* pu, const DestCs& dc, char32_t fillch) {
    bool punct = f.punct && pu;
    bool group = punct && dc.has(pu->sep);
    Parts p = parts(v, f, group ? &pu->grp : nullptr);
    u32s sg; bool neg = std::signbit(v);
    if (neg) sg = U"-"; else if (f.sign == 1) sg = U"+"; else if (f.sign == 2) sg = u32s(1, fillch);
    if (!p.special.empty()) {
        u32s s = sg + u32(cased(p.special, lc, "special"));
        return s;     // pad0 is only a minimum width, see float_aligned
    }
    u32s ip = u32(p.ip);
    if (group && p.grouped) ip = pu->grp.apply(ip, pu->sep);
    u32s r = ip;
    if (p.dot) r += punct ? (p.prefix.empty() ? pu->dec : pu->hexdec) : U'.';
    r += u32(p.prefix.empty() ? p.frac : cased(p.frac, lc, "digits")) + u32(cased(p.exp, lc, p.prefix.empty() ? "e" : "p"));
    u32s head = sg + u32(cased(p.prefix, lc, "x"));
    int zeros = f.pad0 - (int)(head.size() + r.size());
    return head + u32s((std::size_t)std::max(0, zeros), U'0') + r;
}
template <typename F> inline u32s float_aligned(F v, const FF& f, strf::lettercase lc, const Punct* pu, const DestCs& dc, const AF& a) {
    bool al = a.al != Al::none;
    u32s b = float_text(v, f, lc, pu, dc, al ? a.fill : U' ');
    int w = al ? round_w(a.w) : 0;
    if (!std::isfinite(v)) return align(b, std::max(w, f.pad0) - (int)b.size(), al ? a.al : Al::right, al ? a.fill : U' ');
    return align(b, w - (int)b.size(), a.al, a.fill);
}
// ------------------------------------------------------------------ values
template <typename F> F gen_float(Rng& g);
template <> inline double gen_float<double>(Rng& g) {
    switch (g.below(12)) {
        case 0: case 1: { std::uint64_t u = g.next(); double d; memcpy(&d, &u, 8); return d; }
        case 2: return (double)g.range(-100000, 100000);
        case 3: { static const double p10[] = { 1e1, 1e2, 1e3, 1e4, 1e5, 1e6, 1e8, 1e10, 1e15 }; return (double)((long long)(g.next() >> (10 + g.below(52)))) / g.pick(p10); }
        case 4: return std::ldexp(1.0, (int)g.range(-1074, 1023)) * (g.coin() ? 1 : -1);
        case 5: { double d = std::ldexp(1.0, (int)g.range(-1074, 1023)); return g.coin() ? std::nextafter(d, 0.0) : std::nextafter(d, HUGE_VAL); }
        case 6: { std::uint64_t u = g.next() >> (12 + g.below(52)); double d; memcpy(&d, &u, 8); return g.coin() ? d : -d; }  // subnormal
        case 7: { static const double e[] = { 0.0, -0.0, 1e22, 1e23, 5e-324, 2.2250738585072014e-308, 2.225073858507201e-308, 1.7976931348623157e308, HUGE_VAL, -HUGE_VAL, NAN, -NAN, 0.1, 9007199254740992.0, 9007199254740993.0, 123456789012345680.0, 1e-5, 1e5, 9.5, 0.95, 99.95, 0.5, 1.5, 2.5, 0.25, 0.125, 999999.5, 1e16, 1e17, 9.999999999999999e22 }; return g.pick(e); }
        case 8: { std::string s = (g.coin() ? "-" : "") + std::to_string(g.below(g.coin() ? 100 : 1000000)) + "e" + std::to_string(g.range(-320, 308)); return strtod(s.c_str(), nullptr); }
        case 9: { // decimal with ties and runs of nines
            std::string s; for (unsigned n = 1 + (unsigned)g.below(17), i = 0; i < n; ++i) { s += (char)('0' + (g.chance(2, 3) ? (g.coin() ? 9 : g.coin() ? 0 : 5) : g.below(10))); if (i == 0) s += '.'; }
            s += "e" + std::to_string(g.chance(1, 2) ? g.range(-20, 25) : (g.coin() ? 1 : -1) * (g.chance(3, 4) ? g.range(97, 102) : g.range(280, 308))); return strtod(s.c_str(), nullptr); }
        case 10: { // ties: k + 1/2 in units of the last digit
            double d = (double)g.below(1u << g.below(31)) + 0.5; static const double p[] = { 1, 10, 100, 1000, 0.1, 0.01, 0.001, 1e6, 1e-6 }; return d * g.pick(p); }
        default: return std::ldexp((double)g.below(1u << 20), (int)g.range(-60, 60));
    }
}
template <> inline float gen_float<float>(Rng& g) {
    switch (g.below(6)) {
        case 0: case 1: { std::uint32_t u = (std::uint32_t)g.next(); float d; memcpy(&d, &u, 4); return d; }
        case 2: { std::uint32_t u = (std::uint32_t)g.next() >> (9 + g.below(23)); float d; memcpy(&d, &u, 4); return d; }
        case 3: return std::ldexp(1.0f, (int)g.range(-149, 127));
        case 4: { std::string s = std::to_string(g.below(100000)) + "e" + std::to_string(g.range(-48, 34)); return strtof(s.c_str(), nullptr); }
        default: return (float)gen_float<double>(g);
    }
}
inline const char* lcname(strf::lettercase l) { return l == strf::lowercase ? "lower" : l == strf::uppercase ? "upper" : "mixed"; }
template <typename F> inline std::string ff_desc(F v, const FF& f) {
    static const char* nn[] = { "fixed", "sci", "general", "hex" };
    return vh::fmt("%s %.*g (%a) %s p=%d%s%s sign=%d pad0=%d", sizeof(F) == 4 ? "float" : "double", sizeof(F) == 4 ? 9 : 17, (double)v, (double)v, nn[(int)f.nt], f.prec, f.point ? " *" : "", f.punct ? " !" : "", f.sign, f.pad0);
}
inline strf::float_format to_strf(const FF& f) {
    strf::float_format o;
    o.notation = f.nt == Nt::fixed ? strf::float_notation::fixed : f.nt == Nt::sci ? strf::float_notation::scientific : f.nt == Nt::hex ? strf::float_notation::hex : strf::float_notation::general;
    if (f.prec >= 0) o.precision = (decltype(o.precision))f.prec;
    o.pad0width = f.pad0; o.showpoint = f.point; o.punctuate = f.punct;
    o.sign = f.sign == 1 ? strf::showsign::positive_also : f.sign == 2 ? strf::showsign::fill_instead_of_positive : strf::showsign::negative_only;
    return o;
}
} // namespace gen
#endif
